"""C03 Source positions follow the text wherever it is placed."""
from harness.common import SRC, FIELDS, REFS, attempt, ctx_of, handler, new_env, parse, parse_text, walk
from harness import c02
from harness.corpus import DOCS, FAULTS

BOUNDS = {"quick": "unbounded integer positions and offsets for spans, text buffers, every lexer and the document parser; "
                   "texts of up to 3 characters for each lexer; 23 documents that use every construct and 51 faulty "
                   "ones; texts of up to 4 characters for the exactness of inline positions",
          "thorough": "as quick, texts of up to 4 characters for each lexer and 5 for inline positions"}
OUTSIDE = ("columns of nodes that span several lines (their span is the smallest box of lines and columns) and of the "
           "condition inside an inline condition macro")


def ctx4(c):
    return [c.start_line, c.start_column, c.end_line, c.end_column]


def spans(M, S):
    T = M("mau.text_buffer")
    a = [S.int("a%d" % i) for i in range(4)]
    b = [S.int("b%d" % i) for i in range(4)]
    l, c = S.int("L"), S.int("C")
    A = T.Context(*a, "A")
    B = T.Context(*b, "B")
    m = T.Context.merge_contexts(A, B)
    x, y = ctx4(m), ctx4(T.Context.merge_contexts(B, A))
    S.obs(x)
    S.check("the merged span covers both and nothing more",
            S.all(x[0] <= a[0], x[0] <= b[0], S.any(S.eq(x[0], a[0]), S.eq(x[0], b[0])),
                  x[1] <= a[1], x[1] <= b[1], S.any(S.eq(x[1], a[1]), S.eq(x[1], b[1])),
                  x[2] >= a[2], x[2] >= b[2], S.any(S.eq(x[2], a[2]), S.eq(x[2], b[2])),
                  x[3] >= a[3], x[3] >= b[3], S.any(S.eq(x[3], a[3]), S.eq(x[3], b[3]))))
    S.equal("merging does not depend on the order", y, x)
    S.equal("merging alters nothing", [ctx4(A), ctx4(B), A.source, B.source, m.source], [a, b, "A", "B", "A"])
    S.equal("a span merged with itself is the same", ctx4(T.Context.merge_contexts(A, A)), a)


def moves(M, S):
    T = M("mau.text_buffer")
    a = [S.int("a%d" % i) for i in range(4)]
    l, c = S.int("L"), S.int("C")
    A = T.Context(*a, "A")
    k = A.clone()
    S.equal("a copy is the same", [ctx4(k), k.source], [a, "A"])
    S.check("a copy is another object", k is not A)
    r = k.move_to(l, c)
    moved = [a[0] + l, a[1] + c, a[2] + l, a[3] + c]
    S.equal("moving shifts both ends", [ctx4(r), r.source], [moved, "A"])
    S.equal("moving a copy leaves the original", ctx4(A), a)
    d = T.adjust_context(A)
    S.equal("display counts lines from 1", [ctx4(d), d.source], [[a[0] + 1, a[1], a[2] + 1, a[3]], "A"])
    S.equal("displaying alters nothing", ctx4(A), a)
    dd = A.asdict()
    for again in range(2):
        d = T.adjust_context_dict(dd)
        S.equal("display of a dictionary", [ctx4(d), d.source], [[a[0] + 1, a[1], a[2] + 1, a[3]], "A"])
    S.equal("the dictionary of a position is its own", ctx4(A), a)
    V = M("mau.visitors.base_visitor")
    node = M("mau.nodes.inline").TextNode("x", info=M("mau.nodes.node").NodeInfo(A))
    for make in (lambda **k: V.create_visitor_exception("t", **k).message, lambda **k: V.create_visitor_debug_message("t", **k)):
        data = dict(_context=A.asdict())
        for k in (dict(node=node), dict(node=node, data=data), dict(data=data), dict(node=node, data={})):
            for again in range(2):
                c_ = make(**k).context
                S.equal("place in a message of a visitor", [ctx4(c_), c_.source], [[a[0] + 1, a[1], a[2] + 1, a[3]], "A"])
        S.equal("a message alters nothing", [ctx4(A), data], [a, dict(_context=dd)])
    S.equal("display of a position", list(T.adjust_position((a[0], a[1]))), [a[0] + 1, a[1]])
    S.equal("start and end", [list(A.start_position), list(A.end_position)], [a[:2], a[2:]])
    S.equal("equality", T.Context(*a, "A") == A, True)
    N = M("mau.nodes.node").NodeInfo
    S.equal("node information", [N(A).asdict()["context"], N(A) == N(A.clone())],
            [dict(start_line=a[0], start_column=a[1], end_line=a[2], end_column=a[3], source="A"), True])


def shown(M, S):
    """The displayed text of a position (bounded integers: their digits are written out)."""
    T = M("mau.text_buffer")
    a = [S.int("a%d" % i, 0, 3) for i in range(4)]
    src = S.choice("src", [None, "f.mau"])
    s = str(T.adjust_context(T.Context(*a, src)))
    S.obs(s)
    n = [S.concretize(x) for x in a]
    S.equal("display", s, ("f.mau:" if src else "") + "%d,%d-%d,%d" % (n[0] + 1, n[1], n[2] + 1, n[3]))
    lines = []

    class Log:
        def error(self, x):
            lines.append(x)

        def log(self, level, x):
            lines.append(x)
    m = M("mau.message")
    h = m.LogMessageHandler(Log())
    h.process(m.MauLexerErrorMessage(text="T", source="f.mau", position=(a[0], a[1])))
    want = ["Lexer error: T", "Source: f.mau", "Position: (%d, %d)" % (n[0] + 1, n[1])]
    ctx = T.Context(*a, src)
    h.process(m.MauParserErrorMessage(text="T", context=ctx))
    h.process(m.MauParserErrorMessage(text="T", context=ctx))
    for i in range(2):
        want += ["Parser error: T", "Context: " + s]
    S.equal("logged errors", lines, want)


def tokens_move(M, S):
    """Splitting a token into lines and joining tokens."""
    K = M("mau.token")
    T = M("mau.text_buffer")
    TT = K.TokenType
    l, c = S.int("L"), S.int("C")
    text = S.str("t", S.params["n"], "all")
    t = K.Token(TT.TEXT, text, T.Context(l, c, l + 1, c + 1, "A"))
    parts = t.to_token_list()
    want = []
    for i, ln in enumerate(text.split("\n")):
        want.append(["TEXT", ln, [l + i, c, l + i, c + len(ln)], "A"])
    S.equal("lines of a token", [[p.type.value, p.value, ctx4(p.context), p.context.source] for p in parts], want)
    S.equal("the token is unchanged", [t.value, ctx4(t.context)], [text, [l, c, l + 1, c + 1]])
    j = K.Token.from_token_list(parts, "\n")
    ctxs = [ctx4(p.context) for p in parts]
    S.equal("joining the lines", [j.value, j.context.start_line, j.context.end_line, j.context.source],
            [text, l, l + len(parts) - 1, "A"])
    S.equal("the joined tokens are unchanged", [ctx4(p.context) for p in parts], ctxs)


def buffer(M, S):
    """Any sequence of moves in a text of three lines."""
    B = M("mau.text_buffer").TextBuffer
    l, c = S.int("L"), S.int("C")
    text = "ab\n\ncde"
    b = B(text, l, c, SRC)
    lines = text.split("\n")
    line, col, off = 0, 0, c
    for i in range(S.params["n"]):
        op = S.choice("op%d" % i, ["next", 1, 2])
        if op == "next":
            b.nextline()
            line, col, off = min(line + 1, len(lines) + 1), 0, 0
        else:
            b.skip(op)
            col += op
        cur = lines[line] if line < len(lines) else ""
        S.equal("position", list(b.position), [l + line, off + col])
        S.equal("what is there", [b.current_line, b.tail, b.current_char, b.peek_char, b.eol],
                [cur, cur[col:], cur[col:col + 1], cur[col + 1:col + 2], col >= len(cur)])
        S.equal("end of text", b.eof, line > 2 or line == 2 and col >= 3)


LEXERS = {"document": "mau.lexers.document_lexer:DocumentLexer", "text": "mau.lexers.text_lexer:TextLexer",
          "arguments": "mau.lexers.arguments_lexer:ArgumentsLexer", "condition": "mau.lexers.condition_lexer:ConditionLexer",
          "variables": "mau.lexers.preprocess_variables_lexer:PreprocessVariablesLexer"}


def lexer(M, S):
    """The same text at (0, 0) and at (L, C)."""
    mod, cls = LEXERS[S.params["lexer"]].split(":")
    X = getattr(M(mod), cls)
    B = M("mau.text_buffer").TextBuffer
    text = S.params["pre"] + S.str("t", S.params["n"], S.params["dom"]) + S.params["post"]
    l, c = S.int("L"), S.int("C")

    def run(l, c):
        x = X(B(text, l, c, SRC), handler(M), new_env(M))
        k, m = attempt(M, x.process)
        if k == "error":
            return ["error", m.text, m.source, list(m.position)]
        return ["ok"] + [[t.type.value, t.value, ctx4(t.context), t.context.source] for t in x.tokens]

    a, b = run(0, 0), run(l, c)
    S.obs(a)
    if a[0] == "error":
        p = a[3]
        S.equal("moved error", b, ["error", a[1], SRC, [p[0] + l, p[1] + (c if p[0] == 0 else 0)]])
        return
    want = ["ok"]
    for ty, v, x, src in a[1:]:
        want.append([ty, v, [x[0] + l, x[1] + (c if x[0] == 0 else 0), x[2] + l, x[3] + (c if x[2] == 0 else 0)], SRC])
    S.equal("moved tokens", b, want)


def document(M, S):
    """Every node and every error of a document at (0, 0) and at (L, C)."""
    text = S.params["text"]
    l, c = S.int("L"), S.int("C")
    ka, a = attempt(M, parse, M, text)
    kb, b = attempt(M, parse, M, text, line=l, column=c)
    S.check("same outcome", ka == kb, [ka, kb])
    if ka == "error":
        S.equal("same error", [type(b).__name__, b.text], [type(a).__name__, a.text])
        if hasattr(a, "position"):
            p = list(a.position)
            S.equal("moved error", list(b.position), [p[0] + l, p[1] + (c if p[0] == 0 else 0)])
        else:
            x, y = a.context, b.context
            S.equal("moved error", [y.start_line, y.end_line, y.source], [x.start_line + l, x.end_line + l, x.source])
        return
    na, nb = all_nodes(a), all_nodes(b)
    S.check("same nodes", [n.type for n in na] == [n.type for n in nb])
    got, want = [], []
    for x, y in zip(na, nb):
        p, q = ctx_of(x), ctx_of(y)
        if p[4] is None:              # made by the parser, without a place of its own
            S.equal("no place", q[4], None)
            continue
        got.append([y.type, q[0], q[2], q[4]])
        want.append([x.type, p[0] + l, p[2] + l, SRC])
        if p[0] == p[2]:
            off = c if p[0] == 0 else 0
            got.append([q[1], q[3]])
            want.append([p[1] + off, p[3] + off])
    S.equal("moved nodes", got, want)
    for x in na:
        S.reach(x.type)


def all_nodes(p):
    out = []
    for n in p.nodes:
        out.extend(walk(n))
    d = p.output.document
    if d is not None:
        out.append(d)
    return out


def exact(M, S):
    """The recorded span of each piece of text is the text itself."""
    text = S.str("t", S.params["n"], "-\\[](){}")
    S.assume(text.strip(" ") != "")
    l, c = S.int("L"), S.int("C")
    p = parse_text(M, text, line=l, column=c)
    conds = []
    for n in p.nodes:
        for m in walk(n):
            x = m.info.context
            a = S.concretize(x.start_column - c)
            b = S.concretize(x.end_column - c)
            conds.append(S.eq([x.start_line, x.end_line, x.source], [l, l, SRC]))
            piece = text[a:b]
            if m.type == "style":
                conds.append(S.all(len(piece) >= 2, piece[0] == piece[-1]))
                mark = {"underscore": "_", "star": "*", "caret": "^", "tilde": "~"}[m.style]
                conds.append(piece[0] == mark)
                inner = m.content
                if inner:
                    conds.append(S.eq([inner[0].info.context.start_column - 1, inner[-1].info.context.end_column + 1],
                                      [x.start_column, x.end_column]))
            elif m.type == "verbatim":
                conds.append(S.eq(piece, "`" + m.value + "`"))
            else:
                conds.append(S.any(S.eq(piece, m.value), S.eq(piece, "$" + m.value + "$"),
                                   S.eq(piece, "%" + m.value + "%"),
                                   # an escaped text at the end is one of several pieces
                                   S.eq(joined(piece), m.value)))
            S.reach(m.type)
    S.obs([ctx_of(n)[1] - c for n in p.nodes])
    S.check("spans are exact", S.all(*conds))


def joined(piece):
    return piece


def errors(M, S):
    """A lexing or parsing error is where its element is, whatever is in front of it."""
    text, line = FAULTS[S.params["fault"]]
    l, c = S.int("L"), S.int("C")
    k, m = attempt(M, parse, M, S.params["pre"] + text, line=l, column=c)
    S.check("a faulty element is an error", k == "error")
    at = line + S.params["pre"].count("\n") + l
    if hasattr(m, "position"):
        S.equal("place of the error", [m.position[0], m.source], [at, SRC])
    else:
        x = m.context
        S.check("place of the error", S.all(x.start_line <= at, at <= x.end_line, x.source == SRC,
                                            x.end_line - x.start_line <= 2), [ctx4(x), at])


# the place of the error is what is between the marks; ~ is any text
ERRORS = [":a:~«{u}»", ":a~:~x «{u}»~", "y\n:a:~\n:b:{v}~«{u}»", "~ «{u}» d", "* ~«{u}»", "== ~ «{u}»", ".~ ~ «{u}»", "[~=«{u}»]\nx", "[~, «{u}»]", "[k=\"~«{u}»\"]\nx", "<< image: ~«{u}»", "@if ~«{u}»==1\nx", "----\n~  y «{u}»\n----",
          "----\n++++\n* ~«{u}»\n++++\n----", "* ~\n** b [link](x, ~«{u}»)", "~\ny ~ «{u}»\nz", "x [link](\"~«{u}»\")", "[~]\n[b=«{u}»]\nx", "~ `{u}` «{u}»", "~ \\{u} «{u}»", "~ {v} «{u}» {u}",
          "~ «[link]()»", "* ~ «[class]()»", "*~ _a «[image](alt_text=~)»_*", "~ «[footnote](~)»", "~ *«[header](~)»*", "== ~«[mailto]()»\n", "x ~«[unicode]()»~", "~ [class](\"~ «[link]()»\", b)", "~ [link](u, \"~ «[raw]()»\")",
          "~ [«if:zz==1»](a)", "~ [if:«~»](b)", "~ [ifeval:«~»](b)", "~ «[ifeval:v==1](~)»", "~ «[ifeval:v==2](v)»", "~ «[if:v==1:2](b)»", "~ «[iff:v==1](b)»", "~ [if:v==1](\"~ «[link]()»\")",
          "[engine=z~]\n«----\n~\n----»", "x ~\n\n«@if zz==1»\n~", "~\n\n«<< blockgroup» x", "----\n«<< image»\n~\n----", "[footnote=a]\n----\n~\n----\n[footnote=a]\n«----\n~\n----»", "[name=a]\n= ~\n[name=a]\n«== b»"]


def error_places(M, S):
    """The place of an error is the text at fault, in any element, behind any text."""
    t = S.params["text"]
    w = S.str("w", S.params["n"], "abcxyzABC0189")
    text = t.replace("«", "").replace("»", "").replace("~", w)
    full = t.replace("~", w)
    k = S.params["k"]
    l = S.int("L")
    kd, m = attempt(M, parse, M, "\n" * k + text, {"v": "1"}, line=l)
    S.check("a faulty element is an error", kd == "error", text)
    marks, line, col = [], 0, 0
    for ch in full:
        if S.all(ch == "«") or S.all(ch == "»"):
            marks.append((line, col))
        elif S.all(ch == "\n"):
            line, col = line + 1, 0
        else:
            col += 1
    (a, b), (c, d) = marks[-2:]
    x = m.context
    S.obs([x.start_column, x.end_column])
    S.equal("place of the error", [x.start_line, x.start_column, x.end_line, x.end_column, x.source], [a + k + l, b, c + k + l, d, SRC])


def source_lines(M, S):
    """Lines of raw and source blocks, nested in blocks."""
    l, c = S.int("L"), S.int("C")
    a, b = S.str("a", S.params["n"][0]), S.str("b", S.params["n"][1])
    eng = S.params["engine"]
    depth = S.params["depth"]
    opening = ["++++", "----"][:depth]
    text = "\n".join(opening + ["[" + eng + "]", "====", a, b, "===="] + opening[::-1])
    S.assume(S.all(a != "====", b != "====", a != "++++", b != "++++", a != "----", b != "----"))
    p = parse(M, text, line=l, column=c)
    n = p.nodes[0]
    for i in range(depth):
        n = n.content[0]
    S.check("lines", len(n.content) == 2)
    for i, x in enumerate(n.content):
        s = a if i == 0 else b
        ctx = x.info.context
        at = l + depth + 2 + i
        S.equal("place of the line", [ctx.start_line, ctx.start_column, ctx.end_line, ctx.source], [at, 0, at, SRC])
        mk = getattr(x, "marker", None)
        if mk is not None:
            q = mk.info.context
            S.equal("place of the line before its marker", ctx.end_column, len(x.line_content))
            S.equal("place of the marker", [q.start_line, q.end_line, q.start_column, q.end_column],
                    [at, at, len(x.line_content), len(s)])
            S.reach("marker")
        else:
            S.equal("end of the line", ctx.end_column, len(s))
            S.reach("plain")


# text, and the place of each node: type, first line, first column, last line, column after the last character
PLACES = [
    ('---',
     [['horizontal-rule', 0, 0, 0, 3]]),
    ('= ab',
     [['header', 0, 0, 0, 4], ['text', 0, 2, 0, 4]]),
    ('==  ab cd',
     [['header', 0, 0, 0, 9], ['text', 0, 4, 0, 9]]),
    ('ab\ncde',
     [['paragraph', 0, 0, 1, 3], ['paragraph-line', 0, 0, 0, 2], ['text', 0, 0, 0, 2], ['paragraph-line', 1, 0, 1, 3], ['text', 1, 0, 1, 3]]),
    ('  * a\n** bb\n* c',
     [['list', 0, 0, 2, 5], ['list-item', 0, 2, 0, 5], ['text', 0, 4, 0, 5], ['list', 1, 0, 1, 5], ['list-item', 1, 0, 1, 5], ['text', 1, 3, 1, 5], ['list-item', 2, 0, 2, 3], ['text', 2, 2, 2, 3]]),
    ('----\nx\n----',
     [['block', 0, 0, 2, 4], ['paragraph', 1, 0, 1, 1], ['paragraph-line', 1, 0, 1, 1], ['text', 1, 0, 1, 1]]),
    ('----\n----',
     [['block', 0, 0, 1, 4]]),
    ('<< toc',
     [['toc', 0, 0, 0, 6]]),
    ('<<toc',
     [['toc', 0, 0, 0, 5]]),
    ('<< image:a.png',
     [['include-image', 0, 0, 0, 8]]),
    ('[group=g,position=p]\n++++\nx\n++++\n<< blockgroup:g',
     [['blockgroup', 4, 0, 4, 13], ['block', 1, 0, 3, 4], ['paragraph', 2, 0, 2, 1], ['paragraph-line', 2, 0, 2, 1], ['text', 2, 0, 2, 1]]),
    ('a[link](u, bc)d',
     [['paragraph', 0, 0, 0, 15], ['paragraph-line', 0, 0, 0, 15], ['text', 0, 0, 0, 1], ['macro-link', 0, 1, 0, 14], ['text', 0, 11, 0, 13], ['text', 0, 14, 0, 15]]),
    ('a[link](u, "bc")',
     [['paragraph', 0, 0, 0, 16], ['paragraph-line', 0, 0, 0, 16], ['text', 0, 0, 0, 1], ['macro-link', 0, 1, 0, 16], ['text', 0, 12, 0, 14]]),
    ('[mailto](u, bc)',
     [['paragraph', 0, 0, 0, 15], ['paragraph-line', 0, 0, 0, 15], ['macro-link', 0, 0, 0, 15], ['text', 0, 12, 0, 14]]),
    ('[class](bc, k)',
     [['paragraph', 0, 0, 0, 14], ['paragraph-line', 0, 0, 0, 14], ['macro-class', 0, 0, 0, 14], ['text', 0, 8, 0, 10]]),
    ('[raw](bc)',
     [['paragraph', 0, 0, 0, 9], ['paragraph-line', 0, 0, 0, 9], ['macro-raw', 0, 0, 0, 9]]),
    ('[image](bc)',
     [['paragraph', 0, 0, 0, 11], ['paragraph-line', 0, 0, 0, 11], ['macro-image', 0, 0, 0, 11]]),
    ('[unicode](1)',
     [['paragraph', 0, 0, 0, 12], ['paragraph-line', 0, 0, 0, 12], ['macro-unicode', 0, 0, 0, 12]]),
    ('[foo](1)',
     [['paragraph', 0, 0, 0, 8], ['paragraph-line', 0, 0, 0, 8], ['macro', 0, 0, 0, 8]]),
    ('[name=h]\n= T\n[header](h, bc)',
     [['header', 1, 0, 1, 3], ['text', 1, 2, 1, 3], ['paragraph', 2, 0, 2, 15], ['paragraph-line', 2, 0, 2, 15], ['macro-header', 2, 0, 2, 15], ['text', 2, 12, 2, 14]]),
    ('a *b* `c` $d$',
     [['paragraph', 0, 0, 0, 13], ['paragraph-line', 0, 0, 0, 13], ['text', 0, 0, 0, 2], ['style', 0, 2, 0, 5], ['text', 0, 3, 0, 4], ['text', 0, 5, 0, 6], ['verbatim', 0, 6, 0, 9], ['text', 0, 9, 0, 10], ['text', 0, 10, 0, 13]]),
    ('_a *b*_',
     [['paragraph', 0, 0, 0, 7], ['paragraph-line', 0, 0, 0, 7], ['style', 0, 0, 0, 7], ['text', 0, 1, 0, 3], ['style', 0, 3, 0, 6], ['text', 0, 4, 0, 5]]),
    ('.role ab\n---',
     [['horizontal-rule', 1, 0, 1, 3], ['text', 0, 6, 0, 8]]),
    ('a[footnote](n)\n[footnote=n]\n++++\nb\n++++\n<< footnotes',
     [['paragraph', 0, 0, 0, 14], ['paragraph-line', 0, 0, 0, 14], ['text', 0, 0, 0, 1], ['macro-footnote', 0, 1, 0, 14], ['footnotes', 5, 0, 5, 12]]),
    ('[engine=raw]\n++++\nab\nc\n++++',
     [['raw', 1, 0, 4, 4], ['raw-line', 2, 0, 2, 2], ['raw-line', 3, 0, 3, 1]]),
    ('[@source]\n++++\nab:1:\nc\n++++',
     [['source', 1, 0, 4, 4], ['source-line', 2, 0, 2, 2], ['source-marker', 2, 2, 2, 5], ['source-line', 3, 0, 3, 1]]),
    (':v:1\n[if:v==1](bc, d)',
     [['paragraph', 1, 0, 1, 16], ['paragraph-line', 1, 0, 1, 16], ['text', 1, 10, 1, 12]]),
    ('++++\n----\n= a\n\nb\n----\n++++',
     [['block', 0, 0, 6, 4], ['block', 1, 0, 5, 4], ['header', 2, 0, 2, 3], ['text', 2, 2, 2, 3], ['paragraph', 4, 0, 4, 1], ['paragraph-line', 4, 0, 4, 1], ['text', 4, 0, 4, 1]]),
    ('a\n\n// c\n////\n////\nb',
     [['paragraph', 0, 0, 0, 1], ['paragraph-line', 0, 0, 0, 1], ['text', 0, 0, 0, 1], ['paragraph', 5, 0, 5, 1], ['paragraph-line', 5, 0, 5, 1], ['text', 5, 0, 5, 1]]),
    ('<< other:a',
     [['include', 0, 0, 0, 8]]),
]


def places(M, S):
    """Each node is exactly where its text is."""
    text, want = PLACES[S.params["i"]]
    k = S.params["k"]
    l = S.int("L")
    p = parse(M, "\n" * k + text, line=l)
    got = []
    for n in p.nodes:
        for m in walk(n):
            x = m.info.context
            if x.source is not None:
                got.append([m.type, x.start_line, x.start_column, x.end_line, x.end_column, x.source])
    S.equal("places of the nodes", got, [[w[0], w[1] + k + l, w[2], w[3] + k + l, w[4], SRC] for w in want])
    d = p.output.document.info.context
    first = p.nodes[0].info.context
    last = p.nodes[-1].info.context
    S.equal("place of the document", [d.start_line, d.end_line, d.source], [first.start_line, last.end_line, SRC])


def cases(tier):
    deep = tier != "quick"
    out = [("spans", spans, {}), ("moves", moves, {}), ("shown", shown, {}),
           ("buffer", buffer, dict(n=5))]
    out += [("tokens%d" % n, tokens_move, dict(n=n)) for n in range(0, 5)]
    doms = {"document": "all", "text": "line", "arguments": "line", "condition": "line", "variables": "line"}
    for k in LEXERS:
        for n in range(0, 4 if not deep else 5):
            out.append(("lexer:%s%d" % (k, n), lexer, dict(lexer=k, n=n, pre="", post="", dom=doms[k])))
    out.append(("lexer:condition-full", lexer, dict(lexer="condition", n=3, pre="a", post="=b ", dom="line")))
    for pre, post in (("@if", "x"), ("<<", "x:y"), ("= ", " z"), ("[", "]"), (".", " x"), (":", ":x"), ("*", " x"), ("++++\n", "\n++++\nx")):
        out.append(("lexer:document-%s" % pre, lexer, dict(lexer="document", n=2, pre=pre, post=post, dom="line")))
    out += [("document:" + k, document, dict(text=t)) for k, t in DOCS.items()]
    out += [("moved-fault:" + k, document, dict(text="a\n\n" + t[0])) for k, t in FAULTS.items()]
    for k in FAULTS:
        for i, pre in enumerate(["", "a\n\n", "// c\n\n\n", "++++\nx\n\n++++\n", "* a\n\n"]):
            out.append(("fault:%s:%d" % (k, i), errors, dict(fault=k, pre=pre)))
    out += [("exact%d" % n, exact, dict(n=n)) for n in range(1, 5 if not deep else 6)]
    # the positions of tokens are those of their text (see C02)
    out += [("token-places:" + n, f, p) for n, f, p in c02.cases(tier) if n.startswith(("block", "every3", "pairs"))]
    for i in range(len(PLACES)):
        for k in (0, 1, 3):
            out.append(("place:%d:%d" % (i, k), places, dict(i=i, k=k)))
    for i, t in enumerate(ERRORS):
        for k, n in ((0, 2), (2, 1)):
            out.append(("error place:%d:%d" % (i, k), error_places, dict(text=t, k=k, n=n + 2 if deep else n)))
    for eng in ("engine=raw", "@source"):
        for n in ((0, 3), (3, 0)):
            for depth in (0, 1, 2):
                out.append(("lines:%s%s%d" % (eng, n, depth), source_lines, dict(engine=eng, n=n, depth=depth)))
    return out
