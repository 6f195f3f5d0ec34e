"""C02 Document lexing is lossless and token positions are exact."""
from harness.common import SRC, attempt, handler, new_env

BOUNDS = {"quick": "every text of up to 4 characters (any code point, newlines included); documents of up to 4 lines "
                   "whose lines are any of 30 shapes with symbolic characters; any start line and column (unbounded "
                   "integers)",
          "thorough": "every text of up to 5 characters; documents of up to 5 lines of the shapes"}
OUTSIDE = "longer lines; carriage returns are ordinary characters"


def spans(lines):
    """What the lines are, independent of the lexer: ("error", line) or a list, one entry per line:
    "comment", "blank", "delimiter", "inside" (of a block) or "line"."""
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln == "////":
            j = i + 1
            while j < len(lines) and lines[j] != "////":
                j += 1
            # a last line that is empty is the end of the text
            if j >= len(lines):
                return ("Unclosed multiline comment.", i)
            out.extend(["comment"] * (j - i + 1))
            i = j + 1
        elif ln.strip(" ") == "":
            out.append("blank")
            i += 1
        elif ln.startswith("//"):
            out.append("comment")
            i += 1
        elif len(ln) == 4 and ln[0] == ln[1] and ln[1] == ln[2] and ln[2] == ln[3]:
            j = i + 1
            while j < len(lines) and lines[j] != ln:
                j += 1
            if j >= len(lines):
                return ("Unclosed block.", i)
            out.append("delimiter")
            out.extend(["inside"] * (j - i - 1))
            out.append("delimiter")
            i = j + 1
        else:
            out.append("line")
            i += 1
    return out


def check(M, S, text):
    L = M("mau.lexers.document_lexer").DocumentLexer
    B = M("mau.text_buffer").TextBuffer
    l0, c0 = S.int("L"), S.int("C")
    lexer = L(B(text, l0, c0, SRC), handler(M), new_env(M))
    kind, msg = attempt(M, lexer.process)
    lines = text.split("\n")
    kinds = spans(lines)
    if isinstance(kinds, tuple):
        S.obs(["error", kinds[0]])
        S.reach("error " + kinds[0])
        S.check("an unclosed block or comment is an error", kind == "error")
        S.equal("error", [msg.text, msg.source], [kinds[0], SRC])
        S.equal("place of the error", list(msg.position), [l0 + kinds[1], c0 if kinds[1] == 0 else 0])
        return
    if kind == "error":
        S.fail("a text without unclosed blocks is an error", msg.text)
    tokens = lexer.tokens
    S.obs([[t.type.value, t.value] for t in tokens])
    S.check("the last token is EOF, and the only one",
            [t.type.value == "EOF" for t in tokens] == [False] * (len(tokens) - 1) + [True])
    conds = []
    l, c = 0, 0                       # how far the text is accounted for
    for t in tokens:
        ctx = t.context
        conds.append(ctx.source == SRC)
        if t.type.value == "EOF":
            continue
        # the tokens are in order: find the line of this one
        start = S.concretize(ctx.start_line - l0)
        S.check("positions are inside the source and in order", 0 <= start < len(lines) and start >= l, [start, l])
        if start > l:
            conds.append(gap(S, lines, kinds, l, c))
            for k in range(l + 1, start):
                conds.append(gap(S, lines, kinds, k, 0))
            l, c = start, 0
        off = c0 if start == 0 else 0
        col = S.concretize(ctx.start_column - off)
        S.check("columns are inside the line", c <= col <= len(lines[l]), [l, col])
        conds.append(lines[l][c:col].strip(" ") == "")
        parts = t.value.split("\n")
        if len(parts) > 1:
            S.check("only block contents span lines", kinds[l] == "inside")
        S.check("a token ends in the source", l + len(parts) <= len(lines), [l, len(parts)])
        for k, part in enumerate(parts):
            c = (col if k == 0 else 0) + len(part)
            S.check("a token ends in its line", c <= len(lines[l + k]), [l + k, c])
            conds.append(S.eq(part, lines[l + k][c - len(part):c]))
            if k < len(parts) - 1:
                conds.append(c == len(lines[l + k]))
        l += len(parts) - 1
        conds.append(S.eq([ctx.start_line, ctx.start_column], [l0 + start, col + off]))
        conds.append(S.eq([ctx.end_line, ctx.end_column], [l0 + l, c + (c0 if l == 0 else 0)]))
        S.reach(t.type.value)
    if len(text):
        conds.append(gap(S, lines, kinds, l, c))
        for k in range(l + 1, len(lines)):
            conds.append(gap(S, lines, kinds, k, 0))
    S.check("every character is in exactly one token or is a comment, a newline or a space, and positions are exact",
            S.all(*conds))
    # a block carries its lines unchanged
    for i, k in enumerate(kinds):
        if k == "delimiter" and (i == 0 or kinds[i - 1] != "inside") and i + 1 < len(kinds) and kinds[i + 1] == "inside":
            j = i + 1
            while kinds[j] == "inside":
                j += 1
            body = [t for t in tokens if S.concretize(t.context.start_line - l0) == i + 1 and t.type.value == "TEXT"]
            S.equal("block content", [t.value for t in body], ["\n".join(lines[i + 1:j])])
            S.reach("block content")


def gap(S, lines, kinds, l, c):
    """The rest of line l, from column c, is not in a token: that is right for spaces and comments."""
    if kinds[l] == "comment":
        return c == 0
    return lines[l][c:].strip(" ") == ""


def every(M, S):
    check(M, S, S.str("t", S.params["n"], "all"))


SHAPES = ["", " ", "x", "////", "//x", "---", "xxxx", "++++", "----", "@xx xx", "<< xxx:xx", "<<x", ":xx:x", ":xxx",
          "[xx]", "[x", ".xx x", ". x", " ** x", "##x x", "*x", "== xx", "=", "xxx", " xx ", "x  x ", "aaaaa", "===="]


def shape(S, name, s):
    """x stands for any character of a line."""
    out = ""
    k = 0
    for c in s:
        if c == "x":
            out = out + S.str(f"{name}.{k}", 1)
            k += 1
        else:
            out = out + c
    return out


def single(M, S):
    check(M, S, shape(S, "h", S.params["s"]))


def pairs(M, S):
    a = S.choice("a", SHAPES)
    b = S.choice("b", SHAPES)
    check(M, S, "\n".join([a, b]))


FEW = ["", "a", "////", "++++", "----", "// x", "* a", " "]


def many(M, S):
    lines = [S.choice("l%d" % i, S.params["few"]) for i in range(S.params["n"])]
    check(M, S, "\n".join(lines))


def block(M, S):
    """Symbolic delimiter and lines."""
    d = S.str("d", 1)
    n = S.params["n"]
    body = [S.str("b%d" % i, k) for i, k in enumerate(n)]
    check(M, S, "\n".join([d * 4] + body + [d * 4] + S.params["tail"]))


GAPS = ["§* a", "*§a", "§*§a§", ".r§x", "§.r x", "<<§toc", "§<< toc", "<< toc:§a§", "@if§v==1", "§@if v==1", "=§h", "§= h", "§text§x", "a§",
        "//§x", "[a,§b]", "[§a]§", ":a:§x", ":a§:x", "§// a", "§[a]", "#§a", "-§a", "a§b§c"]


def gaps(M, S):
    """Runs of spaces of any length, where spaces may be."""
    n = S.choice("n", S.params["n"])
    g = S.choice("gap", GAPS)
    check(M, S, g.replace("§", " " * n) + S.choice("tail", ["", "\n", "\nb"]) + S.str("x", 1, "ab *=.<"))


def cases(tier):
    deep = tier != "quick"
    out = [("every%d" % n, every, dict(n=n)) for n in range(0, 6 if deep else 5)]
    out += [("single:" + s, single, dict(s=s)) for s in SHAPES if s.count("x") <= (4 if deep else 3)]
    out.append(("pairs", pairs, {}))
    out += [("many%d" % n, many, dict(n=n, few=FEW)) for n in ((3, 4) if not deep else (3, 4, 5))]
    for n in ((0,), (1,), (4,), (1, 1), (0, 4), (2, 0, 1)) if not deep else ((0,), (1,), (4,), (5,), (1, 1), (0, 4), (4, 4), (2, 0, 1), (1, 4, 1)):
        out.append(("block%s" % (n,), block, dict(n=n, tail=["a"])))
        out.append(("block-end%s" % (n,), block, dict(n=n, tail=[])))
    out.append(("gaps", gaps, dict(n=[0, 1, 3, 7] if not deep else [0, 1, 2, 3, 4, 5, 8, 16, 33])))
    return out
