"""C18 Block content is parsed as a document of its own."""
from harness.common import attempt, ctx_of, dump, dumps, parse
from harness.corpus import DOCS

BOUNDS = {"quick": "every delimiter character; 4 contents built on the delimiter, 23 documents next to an arbitrary line of up to 2 characters, up to 3 "
                   "levels of blocks; every split of up to 4 headers, footnotes, references and listings (1-letter names) in up to 2 nested "
                   "blocks, isolated or not",
          "thorough": "lines of up to 3 characters in every document and up to 5 pieces in the blocks"}
OUTSIDE = ("slashes and spaces as delimiters (multi-line comments and blank lines); block groups, which are local to a block; variables, which a block shares with its document (both definitions and uses); the arguments and "
           "labels of footnote blocks")

NAME = "abcxyz0_-"


def ids(M):
    """Header ids that do not go through a hash."""
    return {"mau.parser.header_internal_id_function": lambda h: "id%d" % h.level}


def result(M, text, values=None, line=0):
    kd, p = attempt(M, parse, M, text, dict(ids(M), **(values or {})), line=line)
    if kd == "error":
        return ["error", p.text], None
    return ["ok", dumps(p.nodes, ctx=ctx_of)], p


def alike(S, M, before, d, content, after="after *x*", values=None):
    """The block holds what the content gives when parsed alone at its place, and nothing leaks out of it."""
    first = before.count("\n") + 1
    want, _ = result(M, content, values, line=first)
    got, p = result(M, before + d + "\n" + content + "\n" + d + "\n\n" + after, values)
    if want[0] == "error":
        S.reach("content with an error")
        S.equal("error", got, want)
        return
    S.equal("outcome", got[0], "ok")
    S.obs(got)
    S.equal("types", [n.type for n in p.nodes], ["block", "paragraph"])
    S.equal("content", dumps(p.nodes[0].content, ctx=ctx_of), want[1])
    for n in p.nodes[0].content:
        S.check("content linked to the block", n.parent is p.nodes[0])
    S.equal("following node", dump(p.nodes[1]), dump(parse(M, after, values).nodes[0]))


def delimiter(M, S):
    """Any character makes a delimiter."""
    d = S.str("d", 1, "all")
    for c in "\n ":
        S.assume(S.no(d == c))
    S.assume(S.no(d == "/"))
    S.assume(S.no(d == "\r"))
    build = S.choice("content", [lambda c: "a *b*", lambda c: "x\n" + c * 3 + "\ny" + c * 4, lambda c: c * 5 + "\n\nx\n\n " + c * 4 + "y",
                                 lambda c: "\n" + c * 2 + "\n\n"])
    before = S.choice("before", ["", "[a, k=v]\n", ". lab\n"])
    alike(S, M, before, d * 4, build(d), "after")


def contents(M, S):
    """Documents of every kind with an arbitrary line next to them, at any depth."""
    name = S.choice("doc", S.params["docs"])
    n = S.params["n"]
    line = S.str("line", n, "line") if n else ""
    where = S.choice("where", ["first", "last"])
    S.assume(S.all(line != "----"))
    content = line + "\n" + DOCS[name] if where == "first" else DOCS[name] + "\n" + line
    depth = S.params["depth"]
    for i in range(depth - 1):
        d = ["&&&&", "::::"][i]
        content = d + "\n" + content + "\n" + d
    alike(S, M, "", "@@@@", content)


def any_content(M, S):
    """Arbitrary lines as content."""
    lines = [S.str("l%d" % i, n, "line") for i, n in enumerate(S.params["lens"])]
    for l in lines:
        S.assume(S.no(l == "@@@@"))
    before = S.choice("before", ["", "[a]\n"])
    alike(S, M, before, "@@@@", "\n".join(lines), "after")


PART = {"h": lambda i, x: "[internal_id=i%d]\n" % i + "=" * (1 + i % 3) + " h" + x, "d": lambda i, x: "[footnote=" + x + "]\n~~~~\nf%d\n~~~~" % i,
        "r": lambda i, x: "z[footnote](" + x + ")", "t": lambda i, x: "<< toc", "f": lambda i, x: "<< footnotes", "n": lambda i, x: "[name=" + x + ", internal_id=j%d]\n= n" % i,
        "l": lambda i, x: "k[header](" + x + ")"}
ISOLATE = {"": True, "[isolate=true]\n": True, "[isolate=false]\n": False, "[a, isolate=false, k=v]\n": False, "[isolate=no]\n": True}


def tree(parts, spans):
    """Nested lists: ["part"...] and [wrapper, delimiter, tree] for (start, end, wrapper, delimiter) spans, outermost first."""
    if not spans:
        return list(parts)
    a, b, w, d = spans[0]
    inner = [(x - a, y - a, w2, d2) for x, y, w2, d2 in spans[1:]]
    return list(parts[:a]) + [[w, d, tree(parts[a:b], inner)]] + list(parts[b:])


def write(t):
    return "\n\n".join(x if not isinstance(x, list) else x[0] + x[1] + "\n" + write(x[2]) + "\n" + x[1] for x in t)


def flat(t):
    """The parts of a document, where the blocks that are not isolated are opened."""
    out = []
    for x in t:
        if isinstance(x, list) and not ISOLATE[x[0]]:
            out += flat(x[2])
        else:
            out.append(x)
    return out


def opened(nodes, isolated):
    """The nodes of a document with the blocks that are not isolated opened; the isolated ones are put apart."""
    out = []
    for n in nodes:
        if n.type == "block":
            if n.arguments.named_args.get("isolate", "true") == "false":
                out += opened(n.content, isolated)
                continue
            isolated.append(n)
            out.append(["isolated"])
        else:
            out.append(dump(n))
    return out


def expect(M, t):
    """What a tree of parts gives: ["ok", nodes, toc, trees of the isolated blocks] or all the errors it may give."""
    parts = flat(t)
    inner = [expect(M, x[2]) for x in parts if isinstance(x, list)]
    kd, p = attempt(M, parse, M, "\n\n".join("&&&&\n&&&&" if isinstance(x, list) else x for x in parts))
    bad = [e for x in inner if x[0] == "error" for e in x[1]] + ([p.text] if kd == "error" else [])
    if bad:
        return ["error", bad]
    return ["ok", [["isolated"] if n.type == "block" else dump(n) for n in p.nodes], headers(p), inner]


def headers(p):
    return dump(p.output.toc)[2:] if p.output.toc is not None else [[], [], []]


def compare(S, nodes, toc, want):
    isolated = []
    got = opened(nodes, isolated)
    S.obs(got)
    S.equal("nodes", got, want[1])
    if toc is not None:
        S.equal("table of contents", toc, want[2])
    S.equal("isolated blocks", len(isolated), len(want[3]))
    for b, w in zip(isolated, want[3]):
        compare(S, b.content, None, w)


def merge(M, S):
    """Open blocks count as if their content was written outside, isolated ones as if it was elsewhere."""
    kinds = S.choice("kinds", S.params["kinds"])
    names = [S.str("x%d" % i, 1, NAME) if c in S.params["names"] else "w%d" % i for i, c in enumerate(kinds)]
    n = len(kinds)
    wraps = S.params["wraps"]
    spans = []
    a = S.choice("from", range(n))
    b = S.choice("to", range(a, n + 1)) if S.params.get("empty") else S.choice("to", range(a + 1, n + 1))
    spans.append((a, b, S.choice("wrapper", wraps), "%%%%"))
    if S.params["two"]:
        c = S.choice("from2", range(a, b)) if b > a else a
        d = S.choice("to2", range(c, b + 1)) if b > a else b
        spans.append((c, d, S.choice("wrapper2", wraps), "++++"))
    t = tree([PART[c](i, x) for i, (c, x) in enumerate(zip(kinds, names))], spans)
    want = expect(M, t)
    kd, p = attempt(M, parse, M, write(t))
    if want[0] == "error":
        S.reach("error")
        S.equal("outcome", kd, "error")
        S.check("one of the errors", any(p.text == e for e in want[1]), p.text)
        return
    S.reach("ok")
    S.equal("outcome", kd, "ok")
    compare(S, p.nodes, headers(p), want)


def values(M, S):
    """Only the value false opens a block."""
    x = S.str("x", S.params["n"], "falseFrtuno01-")
    p = parse(M, "[isolate=\"" + x + "\"]\n++++\n[internal_id=i]\n= h\n++++\n\n<< toc\n\n[internal_id=j]\n= k")
    S.obs(dumps(p.nodes))
    open_ = x == "false" if S.params["n"] == 5 else False
    if open_:
        S.reach("open")
    S.equal("headers", [h.internal_id for h in p.nodes[1].plain_entries], ["i", "j"] if open_ else ["j"])


def cases(tier):
    deep = tier != "quick"
    out = [("delimiter", delimiter, {})]
    keys = [k for k in DOCS if k not in ("group",)]
    q = ["two", "list", "block", "footnotes", "toc", "variables", "labels", "comments", "ifs", "isolate"]
    out += [("contents1", contents, dict(docs=keys, n=0, depth=3)), ("contents2", contents, dict(docs=keys if deep else q, n=1, depth=1)),
            ("contents3", contents, dict(docs=["two", "labels"], n=2, depth=2))]
    out += [("values%d" % n, values, dict(n=n)) for n in range(0, 7)]
    if deep:
        out += [("contents4", contents, dict(docs=q, n=2, depth=1)), ("contents5", contents, dict(docs=["two"], n=3, depth=1))]
    for lens in ((0, 2), (2, 0), (1, 1)) + (((4,), (2, 2), (1, 1, 1), (3, 1)) if deep else ((3,),)):
        out.append(("any %s" % "-".join(map(str, lens)), any_content, dict(lens=lens)))
    out += [("merge1", merge, dict(kinds=["hht", "hth", "thh", "hhh"], names="", wraps=list(ISOLATE), two=False, empty=True)),
            ("merge2", merge, dict(kinds=["dr", "rd", "df", "fd", "dd"], names="dr", wraps=["", "[isolate=false]\n"], two=False)),
            ("merge3", merge, dict(kinds=["drf", "rdf", "ddr", "fdd"], names="dr", wraps=["[isolate=false]\n"], two=False)),
            ("merge4", merge, dict(kinds=["nl", "ln", "nn"], names="nl", wraps=["", "[isolate=false]\n"], two=True)),
            ("merge5", merge, dict(kinds=["hthd", "fhtd", "hhht"] if not deep else ["hthdf", "fhthd", "hhhtt", "dfhht", "nhtdh"], names="",
                                   wraps=["", "[isolate=false]\n"], two=True))]
    if deep:
        out += [("merge6", merge, dict(kinds=["drd", "rdr", "fdr", "nln", "lnl"], names="drnl", wraps=["", "[isolate=false]\n"], two=True))]
    return out
