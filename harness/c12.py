"""C12 The table of contents mirrors the headers."""
from harness.common import attempt, dumps, new_env, parse, text_of

BOUNDS = {"quick": "nesting: every sequence of up to 6 headers with unbounded integer levels >= 1; documents of up to 4 headers, "
                   "levels 1-4 (one header: 1-9), every text character, tables of contents and other pieces before, between and "
                   "after the headers; computed identifiers for every text of 3 characters",
          "thorough": "nesting up to 7 headers; documents of up to 5 headers; texts of 4 characters"}
OUTSIDE = ("clashes of the 4-character hash of computed identifiers; the text of a header made of header links without text "
           "(C16)")

TEXT = "-\\`{}_*~^[]\"'():!@#=.<> /$%"


def forest(entries):
    """Nested entries as (header, children) pairs."""
    return [(e.header, forest(e.entries)) for e in entries]


def flat(tree, parent=None):
    for h, kids in tree:
        yield h, parent
        yield from flat(kids, h)


def nested_rule(S, what, tree, headers, same):
    """Pre-order is document order and the parent is the closest previous header of lower level."""
    got = list(flat(tree))
    S.equal(what + ": as many entries as headers", len(got), len(headers))
    for i, (h, p) in enumerate(got):
        S.check(what + ": document order", same(h, headers[i]), i)
        if p is None:
            for j in range(i):
                S.check(what + ": at top level without a lower header before", headers[j].level >= headers[i].level, [j, i])
        else:
            k = [x for x in range(i) if got[x][0] is p]
            S.check(what + ": parent precedes", len(k) == 1, i)
            S.check(what + ": parent of lower level", headers[k[0]].level < headers[i].level, [k[0], i])
            for j in range(k[0] + 1, i):
                S.check(what + ": closest lower header", headers[j].level >= headers[i].level, [j, i])


def nesting(M, S):
    """The manager on headers of any level."""
    T = M("mau.parsers.managers.toc_manager")
    H = M("mau.nodes.header").HeaderNode
    N = M("mau.nodes.include").TocNode
    hs = [H(S.int("l%d" % i, 1), internal_id="h%d" % i) for i in range(S.params["n"])]
    m = M("mau.parsers.managers.toc_manager").TocManager()
    k = S.params["split"]
    nodes = [N(), N()]
    m.add_toc_node(nodes[0])
    for h in hs[:k]:
        m.add_header(h)
    other = T.TocManager()
    for h in hs[k:]:
        other.add_header(h)
    other.add_toc_node(nodes[1])
    m.update(other)
    m.process()
    S.check("headers kept", len(m.headers) == len(hs) and all(a is b for a, b in zip(m.headers, hs)))
    nested_rule(S, "document", forest(m.nested_headers), hs, lambda a, b: a is b)
    for n in nodes:
        S.equal("plain entries", [x.internal_id for x in n.plain_entries], [x.internal_id for x in hs])
        S.check("plain levels", S.all(*[a.level == b.level for a, b in zip(n.plain_entries, hs)]))
        nested_rule(S, "toc node", forest(n.nested_entries), hs, lambda a, b: a.internal_id == b.internal_id)


def collect(nodes, isolated=True):
    """Headers and tables of contents of the document, in order (not those of isolated blocks)."""
    for n in nodes:
        if n.type in ("header", "toc"):
            yield n
        elif n.type == "block":
            if n.arguments.named_args.get("isolate") == "false":
                yield from collect(n.content)


def listed(S, p, want):
    """Every listing of the document shows exactly these headers: [(level, id, text)]."""
    def show(h):
        return [h.level, h.internal_id, text_of(h.content)]
    found = list(collect(p.nodes))
    headers = [x for x in found if x.type == "header"]
    S.equal("headers", [show(h) for h in headers], want)
    out = p.output.toc
    S.equal("plain listing", [show(h) for h in out.plain_entries], want)
    nested_rule(S, "nested listing", forest(out.nested_entries), headers, lambda a, b: a is b)
    for t in found:
        if t.type == "toc":
            S.equal("plain entries of a toc", [show(h) for h in t.plain_entries], want)
            nested_rule(S, "toc", forest(t.nested_entries), headers, lambda a, b: show(a) == show(b))


def identify(header):
    return "id%d-" % header.level + text_of(header.content)


BETWEEN = {"none": "", "toc": "<< toc", "labelled toc": ". lab\n<< toc", "paragraph": "p [header](n0)", "block": "----\n= in\n\n<< toc\n----",
           "include": "<< mau:inc.mau", "group": "[group=g, position=1]\n----\n= in\n----",
           "condition": "@if v==2\n== never", "list": "* i", "tocs": "<< toc\n\n<< toc"}


def documents(M, S):
    """Headers of any level with other pieces around them."""
    S.files({"inc.mau": "= in\n\n<< toc"})
    n = S.params["n"]
    pos = S.choice("pos", range(n + 1))
    what = S.choice("what", S.params["what"])
    parts, want = [], []
    for i in range(n):
        level = S.choice("l%d" % i, S.params["levels"])
        c = S.str("c%d" % i, 1, TEXT) if i == S.params["sym"] else "xyzuv"[i]
        given = S.choice("id%d" % i, [0, 1]) if i == S.params["sym"] else i % 2
        arg = ["[name=n0]\n" if i == 0 else "", "[internal_id=given%d%s]\n" % (i, ", name=n0" if i == 0 else "")][given]
        if pos == i:
            parts.append(BETWEEN[what])
        parts.append(arg + "=" * level + " t" + c + "t")
        want.append([level, "given%d" % i if given else "id%d-t" % level + c + "t", "t" + c + "t"])
    if pos == n:
        parts.append(BETWEEN[what])
    env = new_env(M, {"v": "1", "mau.parser.header_internal_id_function": identify})
    p = parse(M, "\n\n".join([x for x in parts if x]), env=env)
    S.obs(dumps(p.nodes))
    listed(S, p, want)


def adjacent(M, S):
    """Headers on consecutive lines, after labels, arguments and conditions, in blocks that are not isolated."""
    n = S.params["n"]
    text, want = "", []
    for i in range(n):
        level = S.choice("l%d" % i, [1, 2, 3])
        w = S.str("c%d" % i, 1, TEXT) if i == 0 else "abcde"[i]
        h = "=" * level + " " + w
        form = S.choice("f%d" % i, ["plain", "label", "args", "condition", "false", "open", "open2", "closed", "include"])
        if form == "label":
            h = ". l\n" + h
        elif form == "args":
            h = "[#t, a=b]\n" + h
        elif form == "condition":
            h = "@if v==1\n" + h
        elif form == "false":
            h = "@if v!=1\n" + h
        elif form == "open":
            h = "[isolate=false]\n----\n" + h + "\n----"
        elif form == "open2":
            h = "[isolate=false]\n----\n[isolate=false]\n++++\n" + h + "\n++++\n----"
        elif form == "closed":
            h = "----\n[isolate=false]\n++++\n" + h + "\n++++\n----"
        text += h + "\n"
        if form not in ("false", "closed"):
            want.append([level, "id%d-" % level + w, w])
    env = new_env(M, {"v": "1", "mau.parser.header_internal_id_function": identify})
    p = parse(M, text + "<< toc\n\n[isolate=false]\n++++\n<< toc\n++++", env=env)
    S.obs(dumps(p.nodes))
    if want:
        listed(S, p, want)
    else:
        S.equal("empty listing", [p.output.toc.plain_entries, p.output.toc.nested_entries], [[], []])
        S.equal("empty toc", [[t.plain_entries, t.nested_entries] for t in p.nodes if t.type == "toc"], [[[], []]])


def level(M, S):
    """A header carries its level and its text."""
    n = S.params["level"]
    c = S.str("c", S.params["n"], TEXT)
    gap = S.choice("gap", [" ", "  ", ""])
    p = parse(M, "=" * n + gap + c, env=new_env(M, {"mau.parser.header_internal_id_function": identify}))
    S.obs(dumps(p.nodes))
    listed(S, p, [[n, "id%d-" % n + c, c]])


RICH = {"style": ("*b*", "b"), "verbatim": ("`v`", "v"), "macro": ("[class](k, c)", "k"), "link": ("[link](u, t)", "t"), "variable": ("{v}", "1"),
        "footnote": ("[footnote](f)", ""), "header link": ("[header](z, w)", "w"), "if": ("[if:v==1](y, n)", "y"),
        "own link": ("[header](z)", "zz"), "escape": ("\\*", "*"), "unicode": ("[unicode](41)", "41"), "nested": ("_*n*_", "n")}


def rich(M, S):
    """Headers with inline markup: copies in the listings show the same text and the same references."""
    S.files({})
    k = S.choice("k", RICH)
    c = S.str("c", 1, TEXT)
    order = S.choice("order", [0, 1, 2])
    head = "[internal_id=a]\n== " + c + RICH[k][0]
    z = "[name=z, internal_id=b]\n= zz"
    parts = [[head, z], [z, head], [z, "[isolate=false]\n----\n" + head + "\n----"]][order]
    doc = "\n\n".join(["<< toc"] + parts + ["[footnote=f]\n----\nb\n----", "<< toc"])
    p = parse(M, doc, {"v": "1"})
    headers = [x for x in collect(p.nodes) if x.type == "header"]
    S.equal("shown text", [text_of(h.content) for h in headers], ([c + RICH[k][1], "zz"] if order == 0 else ["zz", c + RICH[k][1]]))
    want = dumps(headers)
    S.obs(want)
    S.equal("output", dumps(p.output.toc.plain_entries), want)
    for t in collect(p.nodes):
        if t.type == "toc":
            S.equal("entries are equal to the headers", dumps(t.plain_entries), want)


def computed(M, S):
    """The computed identifier: sanitised text and a hash of level and text."""
    w = S.str("w", S.params["n"], "ascii")
    level = S.choice("level", [1, 3])
    H = M("mau.nodes.header").HeaderNode
    X = M("mau.nodes.inline")
    h = H(level, content=[X.TextNode("a"), X.StyleNode("star", content=[X.TextNode(w)])])
    m = M("mau.parsers.managers.toc_manager").TocManager()
    m.add_header(h)
    m.process()
    S.obs(h.internal_id[:-4])
    want = ""
    space = False
    for c in "a" + w:
        if S.all("A" <= c, c <= "Z"):
            want += c.lower()
        elif S.any(S.all("a" <= c, c <= "z"), S.all("0" <= c, c <= "9"), c == "-", c == "."):
            want += c
        elif c == " ":
            want += "" if space else "-"
            space = True
            continue
        else:
            continue
        space = False
    S.equal("identifier", h.internal_id, want + "-" + S.digest("md5", ("%d a" % level) + w)[:4])


def computed_rich(M, S):
    """The computed identifier is made of the text the header shows, whatever the markup around it."""
    k = S.choice("k", [x for x in RICH if x not in ("own link", "unicode", "footnote")])
    c, d = S.str("c", 1, "abXYZ019-."), S.choice("d", ["", "Q"])
    level = S.choice("level", [1, 2])
    p = parse(M, "=" * level + " " + c + RICH[k][0] + d + "\n\n[name=z, internal_id=b]\n= zz", {"v": "1"})
    text = c + RICH[k][1] + d
    h = p.nodes[0]
    S.obs(h.internal_id[:-4])
    S.equal("identifier", h.internal_id, text.lower().replace("*", "") + "-" + S.digest("md5", ("%d " % level) + text)[:4])


def given(M, S):
    """The identifier given by internal_id is used as it is; headers without text are listed too."""
    i = S.str("i", S.params["n"], "abcxyzABCXYZ0123456789._+:;/%?&!-")
    j = S.choice("j", ["= {e}", "== {e}{e}", "[internal_id=k]\n= {e}", "= [if:v==2](x)"])
    q = S.choice("q", ["", '"'])
    order = S.choice("order", [0, 1])
    n = S.choice("name", ["", "same", "other"])
    n = "" if n == "" else ", name=" + q + (i if n == "same" else "n" + i) + q
    head = "[internal_id=" + q + i + q + n + "]\n= t"
    env = new_env(M, {"v": "1", "e": "", "mau.parser.header_internal_id_function": identify})
    p = parse(M, "\n\n".join([head, j] if order else [j, head]) + "\n\n<< toc", env=env)
    lev = 2 if j.startswith("==") else 1
    want = [[1, i, "t"], [lev, "k" if "k]" in j else "id%d-" % lev, ""]]
    S.obs(dumps(p.nodes))
    listed(S, p, want if order else want[::-1])


def clash(M, S):
    """Without a function two headers share the computed identifier only if level and text are equal."""
    a = S.choice("a", ["= x", "== x", "= y", "= *x*", "= X", "= x y", "=  x"])
    b = S.choice("b", ["= x", "== x", "= y", "= *x*", "= X", "= x y", "=  x"])
    p = parse(M, a + "\n" + b)
    q = parse(M, b)
    hs = p.output.toc.plain_entries
    same = lambda t: (t.count("="), t.replace("=", "").replace("*", "").strip())
    S.equal("same identifier exactly for same level and text", hs[0].internal_id == hs[1].internal_id, same(a) == same(b))
    S.equal("identifier does not depend on the rest", hs[1].internal_id, q.nodes[0].internal_id)


def many(M, S):
    """As many headers, and as deep, as one likes."""
    n = S.params["n"]
    shape = S.choice("shape", ["flat", "stairs", "down", "zigzag", "two", "waves"])
    levels = [{"flat": 1, "stairs": i + 1, "down": n - i, "zigzag": 1 + i % 2 * (i + 1), "two": 2 if i else 1, "waves": [1, 2, 3, 11, 10, 2][i % 6]}[shape] for i in range(n)]
    at = S.choice("at", [0, 9, 10, n - 1])
    c = S.str("c", 1, TEXT)
    docs, want = ["<< toc"], []
    for i, level in enumerate(levels):
        w = c if i == at else ""
        docs.append("=" * level + " t%d-" % i + w + "t")
        want.append([level, "id%d-t%d-" % (level, i) + w + "t", "t%d-" % i + w + "t"])
    tocs = ["<< toc"] * 3
    iso = S.choice("iso", ["[isolate=false]\n", None])
    tocs += [] if iso is None else [iso + "++++\n" + "\n\n".join(tocs) + "\n++++"]
    p = parse(M, "\n\n".join(docs + tocs), env=new_env(M, {"mau.parser.header_internal_id_function": identify}))
    S.obs(dumps(p.nodes))
    listed(S, p, want)


def cases(tier):
    deep = tier != "quick"
    out = []
    for n in range(0, 8 if deep else 7):
        out.append(("nesting%d" % n, nesting, dict(n=n, split=n // 2)))
    out.append(("nesting3 all in block", nesting, dict(n=3, split=0)))
    for n in range(1, 10):
        out.append(("level%d" % n, level, dict(level=n, n=1 + (n < 4) + (deep and n < 3))))
    names = list(BETWEEN)
    out.append(("documents1", documents, dict(n=1, levels=[1, 2, 9], what=names, sym=0)))
    out.append(("documents2", documents, dict(n=2, levels=[1, 2, 3], what=names, sym=1)))
    for w in names:
        out.append(("documents3 " + w, documents, dict(n=3, levels=[1, 2, 3], what=[w], sym=0)))
    for w in names if deep else ("none", "toc"):
        out.append(("documents4 " + w, documents, dict(n=4, levels=[1, 2, 3, 4], what=[w], sym=9)))
    if deep:
        out.append(("documents5", documents, dict(n=5, levels=[1, 2, 3, 4], what=["toc"], sym=9)))
    out += [("adjacent%d" % n, adjacent, dict(n=n)) for n in (1, 2) + ((3,) if deep else ())]
    out += [("rich", rich, {}), ("computed rich", computed_rich, {})]
    out += [("computed%d" % n, computed, dict(n=n)) for n in ((0, 1, 2, 3) if not deep else (0, 1, 2, 3, 4))]
    out += [("given%d" % n, given, dict(n=n)) for n in (0, 1, 2) + ((3,) if deep else ())]
    out.append(("clash", clash, {}))
    out.append(("many", many, dict(n=40 if deep else 12)))
    return out
