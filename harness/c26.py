"""C26 Comments contribute nothing."""
from harness.common import SRC, attempt, ctx_of, dumps, parse, walk
from harness.corpus import DOCS

BOUNDS = {"quick": "line comments of up to 4 characters and multi-line comments of up to 3 lines of up to 4 characters (any "
                   "code points), in every gap between the lines of 14 documents outside blocks; every arrangement of up to 5 "
                   "lines out of 8 kinds",
          "thorough": "comments of up to 6 characters, all the documents, arrangements of up to 6 lines"}
OUTSIDE = "nothing but longer comments"

INSIDE = "text inside block delimiters"


def gaps(text):
    """Line numbers in front of which a line is outside blocks and multi-line comments."""
    out, inside = [], None
    lines = text.split("\n")
    for i, ln in enumerate(lines):
        if inside is None:
            out.append(i)
            if ln == "////" or len(ln) == 4 and ln == ln[0] * 4:
                inside = ln
        elif ln == inside:
            inside = None
    return out + [len(lines)]


def outcome(M, text):
    kind, p = attempt(M, parse, M, text)
    if kind == "error":
        return ["error", p.text], None
    o = p.output
    return ["ok", dumps(p.nodes), dumps(o.toc.plain_entries) if o.toc else None,
            dumps(o.toc.nested_entries) if o.toc else None], p


def same(M, S, text, gap, comment):
    lines = text.split("\n")
    k = len(comment)
    a, pa = outcome(M, text)
    b, pb = outcome(M, "\n".join(lines[:gap] + comment + lines[gap:]))
    S.obs(b[0])
    S.equal("a comment changes nothing", b, a)
    if pa is None:
        return
    # line numbers behind the comment move by its length
    got, want = [], []
    for x, y in zip(pa.nodes, pb.nodes):
        for m, n in zip(walk(x), walk(y)):
            p, q = ctx_of(m), ctx_of(n)
            want.append([p[0] + (k if p[0] >= gap and p[4] else 0), p[1], p[2] + (k if p[2] >= gap and p[4] else 0), p[3], p[4]])
            got.append(q)
    S.equal("positions around a comment", got, want)


def line(M, S):
    """One comment line, any text, in any gap."""
    text = S.params["text"]
    gap = S.choice("gap", gaps(text))
    t = S.str("t", S.params["n"])
    S.assume(t != "//")
    same(M, S, text, gap, ["//" + t])


def multi(M, S):
    """A multi-line comment, any lines, in any gap."""
    text = S.params["text"]
    gap = S.choice("gap", gaps(text))
    body = [S.str("b%d" % i, n) for i, n in enumerate(S.params["n"])]
    for b in body:
        S.assume(b != "////")
    same(M, S, text, gap, ["////"] + body + ["////"])


MARKUP = ["= x", "* x", "[a", "[a]", ":x:y", "@if x==y", "@nope", "++++", "----", "{nope}", "[footnote](nope)", "// x", "///",
          "/////", " ////", "//// ", "<< mau:/nope", ".x", ":x", ""]


def markup(M, S):
    """Markup in a comment is never interpreted."""
    text = S.params["text"]
    gap = S.choice("gap", gaps(text))
    kind = S.choice("kind", ["line", "multi", "two"])
    m = S.choice("m", MARKUP)
    if kind == "line":
        S.assume(m != "//")
        comment = ["//" + (" " if m.startswith("/") or m == "" else "") + m]
    elif kind == "multi":
        comment = ["////", m, "////"]
    else:
        comment = ["////", m, m, "////", "//" + " " + m]
    same(M, S, text, gap, comment)


def unclosed(M, S):
    """An unclosed comment is an error at its first line, and swallows what follows."""
    pre = S.choice("pre", ["", "a\n\n", "// x\n", "++++\n////\n++++\n"])
    body = [S.str("b%d" % i, n) for i, n in enumerate(S.params["n"])]
    for b in body:
        S.assume(b != "////")
    kind, m = attempt(M, parse, M, pre + "\n".join(["////"] + body))
    S.check("an unclosed comment is an error", kind == "error")
    S.equal("error", [m.text, m.source, m.position[0]], ["Unclosed multiline comment.", SRC, pre.count("\n")])


def in_block(M, S):
    """Inside a raw or source block a comment is text; inside an ordinary block it is a comment of its content."""
    eng = S.choice("eng", ["[engine=raw]", "[@source]", "[a]"])
    t = S.str("t", S.params["n"])
    S.assume(t != "//")
    form = S.choice("form", ["line", "multi"])
    if form == "line":
        body = ["x", "//" + t, "y"]
    else:
        S.assume(t != "////")
        body = ["x", "////", t, "////", "y"]
    S.assume(t != "----")
    text = "\n".join([eng, "----"] + body + ["----", "", "z"])
    kind, p = attempt(M, parse, M, text)
    if kind == "error":
        S.fail("a comment in a block is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.check("the text after the block", got[1][2][0][2] == [["text", "z"]])
    if eng == "[engine=raw]":
        S.equal("lines of the block", [x[2] for x in got[0][3]], body)
    elif eng == "[@source]":
        if form == "line" or not len(t) or t[-1] != ":":
            if not t.endswith(":"):
                S.equal("lines of the block", [x[3] for x in got[0][4]], body)
    else:
        S.equal("content of the block", [x[2][0][1] for x in got[0][3][0][2]], ["x", "y"])


def near(M, S):
    """Only two slashes at the start of a line make a comment."""
    t = S.str("t", S.params["n"], "/ \tax")
    for x in "/\tax":
        S.assume(S.all(t != x * 4))
    pre, post = S.choice("around", [("a", "z"), ("", "z"), ("a", ""), ("", "")])
    text = "\n".join([x for x in (pre, t, post) if x != ""]) if S.params["n"] else pre + "\n\n" + post
    kind, p = attempt(M, parse, M, text)
    S.equal("outcome", kind, "ok")
    S.obs(dumps(p.nodes))
    lines = [[c.value for k in y.content for c in walk(k) if c.type == "text"] for x in p.nodes for y in x.content]
    mid = []
    if t[:2] != "//":
        v = t.rstrip(" ")
        S.assume(S.no(S.all(v.strip() == "", v != "")))
        mid = [v] if v != "" else []
    else:
        S.reach("comment")
    want = [x for x in [pre] + mid + [post] if x != ""]
    S.equal("text of the paragraphs", ["".join(x) for x in lines], want)


KINDS = {"text": ["w"], "blank": [""], "comment": ["// c"], "multi": ["////", "= m", "", "////"], "header": ["= h"],
         "rule": ["---"], "block": ["++++", "// in", "v", "++++"], "label": [". l"]}


def arrangement(M, S):
    """Comments between any lines: the same as the lines without them."""
    names = list(KINDS)
    a, b = [], []
    for i in range(S.params["n"]):
        k = S.choice("k%d" % i, names)
        a.extend(KINDS[k])
        if k not in ("comment", "multi"):
            b.extend(["++++", "v", "++++"] if k == "block" else KINDS[k])
    x, _ = outcome(M, "\n".join(a))
    y, _ = outcome(M, "\n".join(b))
    S.obs(x)
    S.equal("the document without the comments", x, y)


SOME = ["paragraph", "two", "header", "header-args", "rule", "list", "block", "source", "footnotes", "toc", "group", "macros",
        "variables", "isolate", "labels"]


def cases(tier):
    deep = tier != "quick"
    out = []
    for k in (DOCS if deep else SOME):
        out.append(("line:" + k, line, dict(text=DOCS[k], n=3)))
        out.append(("multi:" + k, multi, dict(text=DOCS[k], n=(1, 0, 4))))
        if deep or k in ("block", "labels", "list"):
            out.append(("markup:" + k, markup, dict(text=DOCS[k])))
    for n in (0, 1, 2, 4) if not deep else (0, 1, 2, 4, 5, 6):
        out.append(("line%d" % n, line, dict(text="a\nb\n\nc", n=n)))
    for n in ((), (1,), (4,), (5,), (2, 2), (4, 4), (0, 4, 0)):
        out.append(("multi%s" % (n,), multi, dict(text="a\nb\n\nc", n=n)))
        out.append(("unclosed%s" % (n,), unclosed, dict(n=n)))
    out += [("near%d" % n, near, dict(n=n)) for n in range(1, 7 if deep else 6)]
    out += [("in block%d" % n, in_block, dict(n=n)) for n in (0, 1, 3, 4)]
    out += [("arrangement%d" % n, arrangement, dict(n=n)) for n in range(1, 6 if deep else 5)]
    return out
