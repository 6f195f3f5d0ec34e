"""C13 Lists keep items, nesting, kind and numbering."""
from harness.common import attempt, dump, dumps, parse, text_of

BOUNDS = {"quick": "every list of up to 4 items with levels 1-4 (5 items: levels 1-3) and any mixture of markers; one symbolic item text; "
                   "every start of up to 3 digits; every sequence of up to 3 lists with every kind of start and pieces between them",
          "thorough": "up to 5 items with levels 1-4 and 6 with levels 1-3; sequences of 4 lists"}
OUTSIDE = ("starts that are no plain numbers in ASCII digits (what int() accepts beyond them); a list directly followed by "
           "something else than an empty line (an error)")

TEXT = "-\\`{}_*~^[]\"'():!@#=.<> /$%"


def model(items):
    """The lists that the items [(level, ordered, text)] make."""
    lists, stack = [], []
    for level, ordered, text in items:
        while stack and stack[-1][0] > level:
            stack.pop()
        if not stack or stack[-1][0] < level:
            new = ["list", ordered, []]
            if stack:
                stack[-1][1][2].append(new)
            else:
                lists.append(new)
            stack.append((level, new))
        stack[-1][1][2].append(["item", level, text])
    return lists


def show(n):
    if n.type == "list-item":
        return ["item", n.level, text_of(n.content)]
    return ["list", n.ordered, [show(x) for x in n.content]]


def structure(M, S):
    """Items, nesting and kind of each list."""
    n = S.params["n"]
    sym = S.params["sym"]
    items, lines = [], []
    for i in range(n):
        level = S.choice("l%d" % i, S.params["levels"])
        mark = S.str("m%d" % i, 1, "*#") if S.params.get("kinds", True) else "*##**#"[i]
        rest = "".join(S.params["rest"][k % len(S.params["rest"])] for k in range(level - 1)) if S.params["rest"] else mark * (level - 1)
        text = S.str("t", 1, TEXT) if i == sym else "abcdefgh"[i]
        gap = S.params["gaps"][i % len(S.params["gaps"])]
        lines.append(gap[0] + mark + rest + gap[1] + "t" + text)
        items.append((level, mark == "#", "t" + text))
    kd, p = attempt(M, parse, M, "\n".join(lines))
    if kd == "error":
        S.fail("a list is an error", p.text)
    S.obs(dumps(p.nodes))
    S.equal("lists", [show(x) for x in p.nodes], model(items))
    for x in p.nodes:
        main(S, x, True)


def main(S, node, top):
    """Exactly the outermost list is a main list."""
    S.equal("main list", node.main_node, top)
    for x in node.content:
        if x.type == "list":
            main(S, x, False)


def text(M, S):
    """The text of an item is parsed like any other text."""
    t = S.str("t", S.params["n"], "-\\`{}[]\"'()<>$%*_~^")
    lead = S.choice("lead", ["", "  "])
    S.assume(t[0] != " " if S.params["n"] else True)
    kd, p = attempt(M, parse, M, "# a\n" + lead + "* " + t + "\n## c")
    kq, q = attempt(M, M("mau.parsers.text_parser").TextParser.lex_and_parse, t, None, None)
    S.equal("outcome", kd, kq)
    items = p.nodes[0].content
    S.equal("shape", [x.type for x in items], ["list-item", "list-item", "list"])
    S.obs(dumps(p.nodes))
    S.equal("content", dumps(items[1].content), dumps(q.nodes))


MARKUP = {"style": "*b* _u_", "macro": "[link](u, t)", "verbatim": "`* x`", "star": "\\* x", "variable": "{v}", "empty": "{e}", "nothing": "",
          "footnote": "[footnote](f)", "link": "[header](h)", "hash": "# x", "header": "= x", "block": "----", "include": "<< toc"}


def markup(M, S):
    """Any item text, at any place of a list, keeps the other items and their order."""
    k, where = S.choice("k", MARKUP), S.choice("where", [0, 1, 2, 3])
    lev = [S.choice("l%d" % i, [1, 2]) for i in range(3)]
    w = S.str("w", 1, TEXT)
    rows = [(lev[i], "w" + w if i == 1 else "wxy"[i]) for i in range(3)]
    rows.insert(where, (S.choice("lk", [1, 2]), None))
    doc = "\n".join("#" * l + " " + (MARKUP[k] if t is None else t) for l, t in rows)
    doc += "\n\n[footnote=f]\n----\nb\n----\n\n[name=h, internal_id=i]\n= hh"
    p = parse(M, doc, {"v": "val", "e": ""})
    shown = {"style": "b u", "macro": "t", "verbatim": "* x", "star": "* x", "variable": "val", "hash": "# x", "header": "= x", "block": "----",
             "include": "<< toc", "link": "hh"}
    # a single text is shared by the styles: compare the shown text
    want = model([(l, True, shown.get(k, "") if t is None else t) for l, t in rows])
    S.obs(dumps(p.nodes))
    S.equal("lists", [show(x) for x in p.nodes if x.type == "list"], want)


def start(M, S):
    """The start given to a list."""
    n, neg = S.params["n"], S.choice("neg", [False, True])
    d = S.str("d", n, "0123456789")
    kind = S.choice("kind", ["#", "*"])
    k = S.choice("items", [1, 2])
    p = parse(M, "[start=" + ("-" if neg else "") + d + "]\n" + (kind + " a\n") * k + "\n[start=auto]\n# b\n\n# c")
    v = 0
    for c in d:
        v = v * 10 + (ord(c) - 48)
    if neg:
        v = 0 - v
    S.obs([x.start for x in p.nodes])
    S.check("start", p.nodes[0].start == v)
    S.check("auto continues", p.nodes[1].start == (v + k if kind == "#" else 1))
    S.check("default", p.nodes[2].start == 1)



def bad_start(M, S):
    """A start that is no number is an error of the library."""
    d = S.str("d", S.params["n"], "abcdefghiklmnopqrsvwxyz+-.;:ABC")
    kd, p = attempt(M, parse, M, "[start=" + d + "]\n# a")
    S.obs(kd)
    S.check("a start that is no number is an error", kd == "error", d)
    S.equal("error", p.text, "The start of a list must be a number or 'auto', not '" + d + "'.")


BETWEEN = {"none": "", "paragraph": "p", "header": "= h", "rule": "---", "block": "----\n[start=50]\n# x\n# y\n----",
           "open block": "[isolate=false]\n----\n[start=50]\n# x\n# y\n----", "toc": "<< toc", "excluded": "@if v==2\n[start=70]\n# z",
           "group": "[group=g, position=1]\n----\n# z\n----", "include": "<< mau:inc.mau"}
BODIES = {"1": ("# a", 1), "2": ("# a\n# b", 2), "nested": ("# a\n## b\n## c\n# d", 2), "mixed": ("# a\n** b\n# c\n* d", 3),
          "bullets": ("* a\n## b", None), "deep first": ("## a\n### b\n## c", 2), "broken": ("## a\n# b", 1)}


def sequence(M, S):
    """start=auto continues from the previous ordered list of the document, start=n and no start do not."""
    S.files({"inc.mau": "[start=90]\n# u"})
    n = S.params["n"]
    nextn, parts, want = 1, [], []
    for i in range(n):
        how = S.choice("start%d" % i, ["", "auto", "7"])
        body, count = BODIES[S.choice("body%d" % i, S.params["bodies"])]
        args = "[start=" + how + "]\n" if how else S.params["args"]
        first = nextn if how == "auto" else 7 if how else 1
        parts.append(args + body)
        want.append(first)
        if body == BODIES["broken"][0]:
            want.append(1)
            nextn = 2
        elif count is not None:
            nextn = first + count
        if i < n - 1:
            parts.append(BETWEEN[S.choice("between%d" % i, S.params["between"])])
    w = S.str("w", 1, TEXT)
    p = parse(M, "\n\n".join([x for x in parts + ["p" + w] if x]), {"v": "1"})
    S.obs(dumps(p.nodes))
    S.equal("starts", [x.start for x in p.nodes if x.type == "list"], want)


def own(M, S):
    """The list in a block or an included file starts its own numbering."""
    S.files({"inc.mau": "[start=auto]\n# u"})
    n = S.str("n", 1, "0123456789")
    c = S.choice("c", ["----\n[start=auto]\n# x\n----", "<< mau:inc.mau", "[isolate=false]\n----\n[start=auto]\n# x\n----"])
    p = parse(M, "[start=" + n + "]\n# a\n\n" + c + "\n\n[start=auto]\n# b")
    S.obs(dumps(p.nodes))
    S.equal("inner start", p.nodes[1].content[0].start, 1)
    S.check("outer start", p.nodes[2].start == ord(n) - 47)


def attached(M, S):
    """Arguments and labels belong to the list, whatever they are, and to no other list."""
    w = S.str("w", S.params["n"], "abcdefghiklmnopqrsvwxyz0123456789")
    where = S.choice("where", [0, 1])
    first, second = S.choice("first", list(BODIES)), S.choice("second", list(BODIES))
    att = "[" + w + ", #t, start=3, k=v" + w + "]\n. lab " + w + "\n"
    docs = [BODIES[first][0], BODIES[second][0]]
    docs[where] = att + docs[where]
    p = parse(M, "\n\n".join(docs))
    S.obs(dumps(p.nodes))
    seen = [x for x in p.nodes if x.type == "list"]
    k = 0 if where == 0 else 2 if first == "broken" else 1
    for i, x in enumerate(seen):
        a = x.arguments
        got = [list(a.unnamed_args), {k: v for k, v in a.named_args.items() if k != "start"}, list(a.tags), [text_of(l.content) for l in x.labels.values()]]
        S.equal("attachments of list %d" % i, got, [[w], {"k": "v" + w}, ["t"], ["lab " + w]] if i == k else [[], {}, [], []])


def many(M, S):
    """As many items, and as deep, as one likes."""
    n = S.params["n"]
    shape = S.choice("shape", ["flat", "stairs", "down", "zigzag", "waves"])
    kinds = S.choice("kinds", ["#", "*", "#*"])
    at = S.choice("at", [0, 9, 10, n - 1])
    c = S.str("c", 1, TEXT)
    items = []
    for i in range(n):
        level = {"flat": 1, "stairs": i + 1, "down": n - i, "zigzag": 1 + i % 2 * (i + 1), "waves": [1, 2, 3, 11, 10, 2][i % 6]}[shape]
        items.append((level, kinds[i % len(kinds)], "t%d" % i + (c if i == at else "") + "t"))
    p = parse(M, "[start=auto]\n# a\n\n[start=8]\n" + "\n".join(k * l + " " + t for l, k, t in items) + "\n\n[start=auto]\n# z")
    S.obs(dumps(p.nodes))
    want = model([(l, k == "#", t) for l, k, t in items])
    S.equal("lists", [show(x) for x in p.nodes[1:-1]], want)
    nextn = 2
    for i, w in enumerate(want):
        if w[1]:
            nextn = (8 if i == 0 else 1) + len([x for x in w[2] if x[0] == "item"])
    S.equal("numbering", [p.nodes[1].start, p.nodes[-1].start], [8, nextn])


def cases(tier):
    deep = tier != "quick"
    out = []
    plain, gaps = [("", " ")], [("", " "), ("  ", "   "), (" ", "  ")]
    for n in range(1, 5):
        out.append(("structure%d" % n, structure, dict(n=n, levels=[1, 2, 3, 4], rest="", gaps=plain, sym=n // 2)))
    out.append(("structure3 mixed markers", structure, dict(n=3, levels=[1, 2, 3], rest="*#", gaps=gaps, sym=9)))
    out.append(("structure3 high levels", structure, dict(n=3, levels=[1, 5, 9], rest="#", gaps=gaps, sym=0)))
    out.append(("structure5", structure, dict(n=5, levels=[1, 2, 3, 4] if deep else [1, 2, 3], rest="", gaps=plain, sym=9, kinds=deep)))
    if deep:
        out.append(("structure6", structure, dict(n=6, levels=[1, 2, 3], rest="", gaps=plain, sym=9)))
    out += [("text%d" % n, text, dict(n=n)) for n in (1, 2) + ((3,) if deep else ())]
    out.append(("markup", markup, {}))
    out += [("start%d" % n, start, dict(n=n)) for n in (1, 2) + ((3,) if deep else ())]
    out += [("bad start%d" % n, bad_start, dict(n=n)) for n in (1, 2, 3)]
    out.append(("sequence2", sequence, dict(n=2, bodies=list(BODIES), between=list(BETWEEN), args="")))
    out.append(("sequence2 args", sequence, dict(n=2, bodies=list(BODIES), between=["none"], args="[#t]\n")))
    out.append(("sequence3", sequence, dict(n=3, bodies=["2", "nested", "bullets"], between=["none", "block"] if deep else ["none"], args="")))
    if deep:
        out.append(("sequence3 deep", sequence, dict(n=3, bodies=list(BODIES), between=["none", "paragraph", "excluded"], args="")))
        out.append(("sequence4", sequence, dict(n=4, bodies=["1", "2", "bullets"], between=["none"], args="")))
    out.append(("own", own, {}))
    out.append(("many", many, dict(n=40 if deep else 12)))
    out += [("attached%d" % n, attached, dict(n=n)) for n in (1, 2)]
    return out
