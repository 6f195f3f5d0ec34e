"""C16 Header links reach the header of that name."""
from harness.common import attempt, dump, dumps, parse, text_of
from harness.refs import BLOCKS, DEAD, INLINE, found, put

BOUNDS = {"quick": "up to 3 headers and 3 links with arbitrary one-letter names in every order, names of up to 4 characters, links that follow 6 headers, every place of "
                   "18 kinds of lines and 15 kinds of inline text, 12 kinds of header text",
          "thorough": "up to 4 headers and 4 links; all pairs of places; names of up to 6 characters"}
OUTSIDE = ("isolated blocks and included files, whose headers and links are their own (C18, C19); what is shown by headers that link each other "
           "in a circle without texts (only that the links are bound and the processing ends)")

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:+"
WORD = "-\\`{}_*~^[]\"'():!@#=.<> /$%"


def heading(name, i, level=1):
    return "[name=" + name + ", internal_id=i%d]\n" % i + "=" * level + " h%d *b*" % i


def agree(S, p, heads, links=None):
    """heads: [(name, number)]; every link is bound to the header of its name."""
    headers = {h.internal_id: h for h in found(p.nodes, "header") if h.name is not None}
    macros = found(p.nodes, "macro-header")
    S.obs([[m.target_name, m.header.internal_id if m.header else None, text_of(m.content)] for m in macros])
    for m in macros:
        S.check("link bound", m.header is not None, m.target_name)
        k = [i for n, i in heads if n == m.target_name]
        S.equal("one header of that name", len(k), 1)
        S.check("bound to the header itself", m.header is headers["i%d" % k[0]], m.target_name)
        S.equal("name of the header", m.header.name, m.target_name)
    if links is not None:
        S.equal("links", [m.target_name for m in macros], links)
    return macros


def names(M, S):
    """Any names in any order: bound, or an error exactly when no header or two headers have the name."""
    k, r = S.params["heads"], S.params["links"]
    b = [S.str("h%d" % i, 1, NAME) for i in range(k)]
    a = [S.str("r%d" % i, 1, NAME) for i in range(r)]
    parts = [("h", i) for i in range(k)] + [("r", i) for i in range(r)]
    order = S.order("order", parts) if S.params["all"] else S.choice("order", [parts, parts[::-1], parts[1::2] + parts[::2]])
    wrap = S.choice("wrap", range(-1, len(parts))) if S.params["wrap"] else -1
    doc, heads, links = [], [], []
    for j, (kind, i) in enumerate(order):
        if kind == "h":
            t = heading(b[i], i, [1, 3, 7, 2][i])
            heads.append((b[i], i))
        else:
            t = "x[header](" + a[i] + ")" if i % 2 == 0 else "x[header](" + a[i] + ", t%d)" % i
            links.append((a[i], i))
        doc.append("[isolate=false]\n++++\n" + t + "\n++++" if j == wrap else t)
    kd, p = attempt(M, parse, M, "\n\n".join(doc))
    for i in range(k):
        if any(heads[x][0] == heads[i][0] for x in range(i)):
            S.reach("duplicate")
            S.equal("outcome of two headers with one name", [kd, p.text if kd == "error" else ""],
                    ["error", "Duplicate header id detected: " + heads[i][0]])
            return
    for x, _ in links:
        if not any(x == y[0] for y in heads):
            S.reach("undefined")
            S.equal("outcome of a link to no header", [kd, p.text if kd == "error" else ""], ["error", "Cannot find header with id " + x])
            return
    S.reach("bound")
    S.equal("outcome", kd, "ok")
    macros = agree(S, p, heads, [x for x, _ in links])
    for m, (x, i) in zip(macros, links):
        S.equal("shown text", text_of(m.content), "t%d" % i if i % 2 else "h%s b" % m.header.internal_id[1:])


def long_names(M, S):
    """Longer names, in the macro and in the arguments of the header."""
    x, y = S.str("x", S.params["n"], NAME), S.str("y", S.params["m"], NAME)
    form = S.choice("form", ["[header](§)", "[header](\"§\")", "[header](header_id=§)", "[header](§, t)", "[header](§, \"t, u\")", "[header](header_id=§, text=t)"])
    quote = S.choice("quote", ["", "\""])
    doc = put(form, x) + "\n\n[name=" + quote + y + quote + ", internal_id=i0]\n= h"
    kd, p = attempt(M, parse, M, doc)
    if S.params["n"] == S.params["m"] and x == y:
        S.reach("bound")
        S.equal("outcome", kd, "ok")
        m = agree(S, p, [(y, 0)], [x])
        S.equal("shown text", text_of(m[0].content), "t, u" if "u" in form else "t" if ", " in form else "h")
    else:
        S.reach("undefined")
        S.equal("outcome", [kd, p.text if kd == "error" else ""], ["error", "Cannot find header with id " + x])


def places(M, S):
    """Links in any place are bound, before or after the header."""
    block, inline = S.choice("block", S.params["blocks"]), S.choice("inline", S.params["inlines"])
    S.assume("heading" not in block or inline != "header")
    first = S.choice("first", [True, False])
    w = S.str("w", 1, NAME)
    text = put(BLOCKS[block], put(INLINE[inline], "[header](n) [header](" + w + ", q)"))
    hh = "[name=hh, internal_id=i7]\n= H"
    target = heading("n", 0, 2)
    extra = ["[footnote](ff)", "<< footnotes"] if block == "footnote body" else []
    parts = ([text, target] if first else [target, text]) + extra + [hh, "<< toc"]
    kd, p = attempt(M, parse, M, "\n\n".join(parts), {"v": "1", "e": ""})
    if S.no(w == "n"):
        S.equal("outcome of a link to no header", [kd, p.text if kd == "error" else ""], ["error", "Cannot find header with id " + w])
        return
    S.equal("outcome", kd, "ok")
    headers = [h for h in found(p.nodes, "header") if h.name == "n"]
    if block == "footnote body":
        body = found(p.nodes, "footnotes")[0].footnotes[0].footnote
        macros = found(body.content, "macro-header")
    else:
        macros = found(p.nodes, "macro-header")
        for t in found(p.nodes, "toc"):
            for h in t.plain_entries:
                macros = macros + found([h], "macro-header")
    shown = [text_of(m.content) for m in macros if m.target_name == "n"]
    S.obs(shown)
    if block != "footnote body":
        S.check("links found", len(shown) >= 2, len(shown))
    else:
        S.equal("links found", len(shown), 2)
    S.equal("shown texts", shown, ["h0 b", "q"] * (len(shown) // 2))
    S.check("bound to the header itself", all(m.header is headers[0] for m in macros if m.target_name == "n"))
    S.check("every link is bound", all(m.header is not None for m in macros))


def dead(M, S):
    """What is no text holds no link: it needs no header."""
    where = S.choice("where", DEAD)
    w = S.str("w", 1, NAME)
    kd, p = attempt(M, parse, M, put(DEAD[where], "[header](" + w + ")") + "\n\n" + heading("n", 0) + "\n\n[header](n)", {"v": "1", "e": ""})
    if kd == "error":
        S.fail("a piece that is no text is an error", p.text)
    agree(S, p, [("n", 0)], ["n"])


TEXTS = {"plain": "a b", "style": "*b* _c *d*_", "verbatim": "x `v`", "escape": "\\*h", "class": "[class](\"c *d*\", k)", "link": "[link](u)",
         "link text": "[link](u, t)", "variable": "{v} w", "empty": "{e}", "footnote": "f[footnote](fn)", "macro": "m [foo](1)",
         "image": "[image](u, alt)", "if": "[if:v==1](y, n)", "raw": "[raw](\"<b>\")", "own link": "l [header](z, t)"}


def shows(M, S):
    """A link without text shows the header's own text, as a copy of its own; a given text is shown instead."""
    k = S.choice("k", TEXTS)
    w = S.str("w", S.params["n"], WORD)
    given = S.choice("given", ["", "[class](\"own _t_\", k)", "plain"])
    first = S.choice("first", [True, False])
    wrap = S.choice("wrap", ["§", "[isolate=false]\n----\n§\n----", "* i\n* §", "x *§*"])
    link = put(wrap, "[header](n" + (", \"" + given.replace("\"", "\\\"") + "\"" if given else "") + ")")
    head = "[name=n, internal_id=i0]\n= " + w + TEXTS[k]
    rest = "[footnote=fn]\n----\nb\n----\n\n[name=z, internal_id=i1]\n= zz"
    p = parse(M, "\n\n".join([link, head, rest] if first else [head, link, rest]), {"v": "1", "e": ""})
    header = [h for h in found(p.nodes, "header") if h.internal_id == "i0"][0]
    m = [x for x in found(p.nodes, "macro-header") if x.target_name == "n"]
    S.equal("links", len(m), 1)
    S.check("bound", m[0].header is header)
    want = dumps(parse(M, given, {"v": "1"}).nodes[0].content[0].content) if given else dumps(header.content)
    S.obs(want)
    S.equal("shown content", dumps(m[0].content), want)
    S.check("own nodes", not any(a is b for a in m[0].content for b in header.content))
    S.check("nodes linked to the link", given != "" or all(c.parent is m[0] for c in m[0].content))


def circles(M, S):
    """Links between headers, also to themselves, with texts of their own."""
    n = S.params["n"]
    to = [S.choice("to%d" % i, range(n)) for i in range(n)]
    lev = [S.choice("l%d" % i, [1, 2]) for i in range(n)]
    w = [S.str("w%d" % i, 1, WORD) for i in range(n)]
    doc = ["<< toc"] + ["[name=n%d, internal_id=i%d]\n" % (i, i) + "=" * lev[i] + " " + w[i] + "[header](n%d, \"t%d\")" % (to[i], i) for i in range(n)]
    p = parse(M, "\n\n".join(doc))
    macros = agree(S, p, [("n%d" % i, i) for i in range(n)], ["n%d" % t for t in to])
    S.equal("texts", [text_of(m.content) for m in macros], ["t%d" % i for i in range(n)])
    S.equal("headers", [text_of(h.content) for h in found(p.nodes, "header")], [w[i] + "t%d" % i for i in range(n)])
    for t in found(p.nodes, "toc"):
        S.equal("toc texts", [text_of(h.content) for h in t.plain_entries], [w[i] + "t%d" % i for i in range(n)])
        ms = [m for h in t.plain_entries for m in found([h], "macro-header")]
        S.check("toc links bound", len(ms) == n and all(m.header is macros[i].header for i, m in enumerate(ms)))


def follow(M, S):
    """A link without text to a header with links shows what the header shows."""
    w = S.str("w", 1, WORD)
    order = S.order("order", ["[name=a, internal_id=ia]\n= A" + w + " [header](b)", "[name=b, internal_id=ib]\n== B" + w, "see [header](a)"])
    p = parse(M, "\n\n".join(order))
    m = {x.target_name: x for x in found([n for n in p.nodes if n.type == "header"], "macro-header")}
    S.equal("link in the header", text_of(m["b"].content), "B" + w)
    para = [n for n in p.nodes if n.type == "paragraph"]
    x = [y for y in found(para, "macro-header") if y.target_name == "a"][0]
    S.obs(text_of(x.content))
    S.equal("name", x.header.name, "a")
    inner = found(x.content, "macro-header")
    S.check("copied link is bound", len(inner) == 1 and inner[0].header is m["b"].header)
    S.equal("shown text", text_of(x.content), "A" + w + " B" + w)


def chain(M, S):
    """Links without text through a chain of headers, in every order and in any wrapping: each shows the whole text."""
    n = S.params["n"]
    w = S.str("w", 1, WORD)
    few = n > 4
    wrap = "*§*" if few else S.choice("wrap", ["§", "*§*", "[class](\"§\", k)", "[link](u, \"_§_\")", "[header](z, \"§\")"])
    near = S.choice("near", [None, 0, n - 1] if few else [None] + list(range(n)))
    heads = ["[name=n%d, internal_id=i%d]\n= %d" % (i, i, i) + w + (" " + wrap.replace("§", "[header](n%d)" % (i + 1)) if i + 1 < n else "") for i in range(n)]
    heads = [h if i != near else "[isolate=false]\n----\n" + h + "\n----" for i, h in enumerate(heads)]
    parts = heads + ["see [header](n0)"]
    order = S.choice("order", [parts, parts[::-1], parts[1::2] + parts[::2]]) if few else S.order("order", parts)
    p = parse(M, "\n\n".join(order + ["[name=z, internal_id=iz]\n= z"]))
    text = [" ".join("%d" % j + w for j in range(i, n)) for i in range(n)]
    heads = {h.internal_id: h for h in found(p.nodes, "header")}
    macros = found(p.nodes, "macro-header")
    S.obs([[m.target_name, text_of(m.content)] for m in macros])
    for i in range(n):
        S.equal("header text", text_of(heads["i%d" % i].content), text[i])
    for m in macros:
        if m.target_name != "z":
            i = int(m.target_name[1:])
            S.equal("link text", text_of(m.content), text[i])
            S.check("bound", m.header is heads["i%d" % i])


def ring(M, S):
    """Headers that link each other, without texts, in any shape: the processing ends and every link is bound."""
    n = S.params["n"]
    to = [S.choice("to%d" % i, range(n)) for i in range(n)]
    two = S.choice("two", [None] + list(range(n)))
    doc = ["[name=n%d, internal_id=i%d]\n= h%d [header](n%d)" % (i, i, i, to[i]) + (" [header](n%d)" % two if two is not None else "") for i in range(n)]
    p = parse(M, "\n\n".join(S.order("order", doc)))
    heads = {h.internal_id: h for h in found(p.nodes, "header")}
    macros = found(p.nodes, "macro-header")
    S.obs(len(macros))
    S.check("all bound", all(m.header is heads["i" + m.target_name[1:]] for m in macros))
    S.check("all have a text", all(m.content for h in heads.values() for m in h.content if m.type == "macro-header"))


def manager(M, S):
    """The manager merged from parts in any order binds like one alone."""
    L = M("mau.parsers.managers.header_links_manager").HeaderLinksManager
    H, X, T = M("mau.nodes.header").HeaderNode, M("mau.nodes.macro").MacroHeaderNode, M("mau.nodes.inline").TextNode
    n, r = S.params["n"], S.params["r"]
    ns = [S.str("n%d" % i, 2, NAME) for i in range(n)]
    rs = [S.str("r%d" % i, 2, NAME) for i in range(r)]
    cut = S.choice("cut", range(n + 1))
    hs = [H(1, name=x, content=[T(x)]) for x in ns]
    ms = [X(x) if i % 2 == 0 else X(x, content=[T("own")]) for i, x in enumerate(rs)]
    a, b = L(), L()

    def run():
        for i in range(n):
            (a if i < cut else b).add_header(hs[i])
        a.add_macros(ms[:1])
        b.add_macros(ms[1:])
        a.update(b)
        a.process()
    kd, e = attempt(M, run)
    dup = any(ns[i] == ns[j] for j in range(n) for i in range(j))
    miss = not dup and any(not any(x == y for y in ns) for x in rs)
    if dup or miss:
        S.equal("outcome", kd, "error")
        return
    S.equal("outcome", kd, "ok")
    for i, m in enumerate(ms):
        k = [j for j in range(n) if ns[j] == rs[i]]
        S.check("bound", m.header is hs[k[0]])
        S.equal("shown", [c.value for c in m.content], ["own"] if i % 2 else [rs[i]])
        S.check("copies", i % 2 == 1 or m.content[0] is not m.header.content[0])


def many(M, S):
    """As many headers and links as one likes."""
    n = S.params["n"]
    w = S.str("w", 1, NAME)
    at = S.choice("at", [0, 1, 9, 10, n - 1])
    ns = ["n%d" % (i * 7 % n) for i in range(n)]
    ns[at] = "m" + w
    order = S.choice("order", ["headers first", "links first", "mixed"])
    heads = [heading(x, i, 1 + i % 3) for i, x in enumerate(ns)]
    links = ["x[header](" + x + ")" if i % 2 else "x[header](" + x + ", t%d)" % i for i, x in enumerate(ns[::-1])]
    lines = S.choice("lines", ["alone", "one paragraph", "in a macro"])
    if lines != "alone":
        links = ["a " + " ".join(links) if lines == "one paragraph" else "[class](\"" + " ".join(links).replace('"', '\\"') + "\", k)"]
        heads = heads if order != "mixed" else heads[:n // 2] + links + heads[n // 2:]
    doc = heads if lines != "alone" and order == "mixed" else heads + links if order == "headers first" else links + heads if order == "links first" else [x for y in zip(links, heads) for x in y]
    p = parse(M, "\n\n".join(doc))
    macros = agree(S, p, list(zip(ns, range(n))), ns[::-1])
    for i, m in enumerate(macros):
        S.equal("shown text", text_of(m.content), "h%d b" % (n - 1 - i) if i % 2 else "t%d" % i)


def cases(tier):
    deep = tier != "quick"
    out = []
    for k, r, every, wrap in ((0, 1, 1, 0), (1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 1), (2, 2, 1, 0), (3, 1, 0, 1), (3, 2, 0, 0)) + \
            (((2, 2, 1, 1), (3, 2, 1, 0), (4, 2, 0, 0), (3, 4, 0, 0), (4, 4, 0, 0)) if deep else ()):
        out.append(("names%d%d%s%s" % (k, r, "all" if every else "", "wrap" if wrap else ""), names, dict(heads=k, links=r, all=every, wrap=wrap)))
    for n, m in ((1, 2), (2, 2), (3, 2), (4, 4)) + (((6, 6), (6, 5)) if deep else ()):
        out.append(("long names%d%d" % (n, m), long_names, dict(n=n, m=m)))
    if deep:
        out += [("places " + b, places, dict(blocks=[b], inlines=list(INLINE))) for b in BLOCKS]
    else:
        out.append(("places blocks", places, dict(blocks=list(BLOCKS), inlines=["alone", "class", "styles"])))
        out.append(("places inline", places, dict(blocks=["paragraph", "open in open", "label of list"], inlines=list(INLINE))))
    out += [("dead", dead, {}), ("shows", shows, dict(n=1)), ("shows nothing", shows, dict(n=0))]
    out += [("circles%d" % n, circles, dict(n=n)) for n in (1, 2, 3) + ((4,) if deep else ())]
    out += [("chain%d" % n, chain, dict(n=n)) for n in (2, 3) + ((4,) if deep else ())]
    out.append(("long chain", chain, dict(n=12 if deep else 6)))
    out += [("ring%d" % n, ring, dict(n=n)) for n in (1, 2) + ((3,) if deep else ())]
    out.append(("many", many, dict(n=40 if deep else 12)))
    out += [("follow", follow, {}), ("manager22", manager, dict(n=2, r=2)), ("manager31", manager, dict(n=3, r=1))]
    return out
