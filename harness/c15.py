"""C15 Footnote references, numbers and lists agree."""
from harness.common import attempt, dump, dumps, new_env, parse
from harness.refs import BLOCKS, DEAD, INLINE, found, put

BOUNDS = {"quick": "up to 3 footnotes and 3 references (and up to 12 with one arbitrary name) with arbitrary one-letter names in every order, names of up to 4 characters, every "
                   "place of 18 kinds of lines and 15 kinds of inline text, lists anywhere",
          "thorough": "up to 4 footnotes and 4 references (and up to 101 with one arbitrary name); all pairs of places; names of up to 6 characters"}
OUTSIDE = ("isolated blocks and included files, which have footnotes of their own (C18, C19); names are compared as the arguments "
           "parser reads them (C09)")

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:+"
WORD = "-\\`{}_*~^[]\"'():!@#=.<> /$%"


def agree(S, M, p, bodies, refs=None):
    """bodies: [(name, text)] in order of definition; checks numbers, references and lists."""
    foots = {}
    lists = found(p.nodes, "footnotes")
    macros = found(p.nodes, "macro-footnote")
    S.obs(dumps(p.nodes))
    for l in lists:
        got = [x.footnote for x in l.footnotes]
        S.equal("footnotes in the list", [[f.name, f.public_id] for f in got], [[b[0], str(i + 1)] for i, b in enumerate(bodies)])
        for f, b in zip(got, bodies):
            S.equal("footnote content", dumps(f.content), dumps(attempt(M, parse, M, b[1], {"v": "1"})[1].nodes))
            k = f.public_id
            S.check("lists share the footnotes", foots.setdefault(k, f) is f, k)
    for m in macros:
        S.check("reference linked", m.footnote is not None, m.name)
        k = [i for i, b in enumerate(bodies) if m.name == b[0]]
        S.equal("one footnote of that name", len(k), 1)
        S.equal("reference number", m.footnote.public_id, str(k[0] + 1))
        S.equal("reference name", m.footnote.name, m.name)
        if lists:
            S.check("reference is to the listed footnote", m.footnote is foots[m.footnote.public_id])
    if refs is not None:
        S.equal("references", [m.name for m in macros], refs)
    return lists


def body(name, i, d="----", args=""):
    return "[footnote=" + name + args + "]\n" + d + "\nbody *%d*\n" % i + d


def names(M, S):
    """Any names in any order: linked, or an error exactly when a reference has no body or two bodies share a name."""
    k, r = S.params["bodies"], S.params["refs"]
    b = [S.str("b%d" % i, 1, NAME) for i in range(k)]
    a = [S.str("r%d" % i, 1, NAME) for i in range(r)]
    parts = [("b", i) for i in range(k)] + [("r", i) for i in range(r)]
    parts.append(("l", 0))
    order = S.order("order", parts) if S.params["all"] else S.choice("order", [parts, parts[::-1], parts[1::2] + parts[::2]])
    doc, bodies, refs = [], [], []
    for kind, i in order:
        if kind == "b":
            doc.append(body(b[i], i))
            bodies.append((b[i], "body *%d*" % i))
        elif kind == "r":
            doc.append("x[footnote](" + a[i] + ")")
            refs.append(a[i])
        else:
            doc.append("<< footnotes")
    kd, p = attempt(M, parse, M, "\n\n".join(doc))
    for i in range(k):
        for j in range(i + 1, k):
            if bodies[i][0] == bodies[j][0]:
                S.reach("duplicate")
                S.equal("outcome of two bodies with one name", kd, "error")
                # the first name that comes back is reported
                first = [y for y in range(k) if any(bodies[x][0] == bodies[y][0] for x in range(y))][0]
                S.equal("error", p.text, "Footnote '" + bodies[first][0] + "' has been already defined.")
                return
    for x in refs:
        if S.no(S.any(*[x == y[0] for y in bodies])) if bodies else True:
            S.reach("undefined")
            S.equal("outcome of a reference without a body", kd, "error")
            S.equal("error", p.text, "Footnote '" + x + "' has not been defined.")
            return
    S.reach("linked")
    S.equal("outcome", kd, "ok")
    S.equal("nothing rendered in place", [x.type for x in p.nodes], [{"r": "paragraph", "l": "footnotes"}[q[0]] for q in order if q[0] != "b"])
    agree(S, M, p, bodies, refs)


def long_names(M, S):
    """Longer names, in the macro and in the arguments of the block."""
    n, m = S.params["n"], S.params["m"]
    x, y = S.str("x", n, NAME), S.str("y", m, NAME)
    form = S.choice("form", ["[footnote](§)", "[footnote](\"§\")", "[footnote](name=§)"])
    quote = S.choice("quote", ["", "\""])
    doc = put(form, x) + "\n\n" + body(quote + y + quote, 0) + "\n\n<< footnotes"
    kd, p = attempt(M, parse, M, doc)
    if n == m and x == y:
        S.reach("linked")
        S.equal("outcome", kd, "ok")
        agree(S, M, p, [(y, "body *0*")], [x])
    else:
        S.reach("undefined")
        S.equal("outcome", [kd, p.text if kd == "error" else ""], ["error", "Footnote '" + x + "' has not been defined."])


def places(M, S):
    """A reference in any place is linked, before or after the body."""
    block, inline = S.choice("block", S.params["blocks"]), S.choice("inline", S.params["inlines"])
    first = S.choice("first", [True, False])
    w = S.str("w", 1, NAME)
    text = put(BLOCKS[block], put(INLINE[inline], "[footnote](n) [footnote](" + w + ")"))
    hh = "[name=hh, internal_id=hh]\n= H"
    parts = [hh] + ([text, body("n", 0)] if first else [body("n", 0), text]) + ["<< footnotes"]
    kd, p = attempt(M, parse, M, "\n\n".join(parts), {"v": "1", "e": ""})
    if S.no(w == "n"):
        S.equal("outcome of a reference without a body", [kd, p.text if kd == "error" else ""], ["error", "Footnote '" + w + "' has not been defined."])
        return
    S.equal("outcome", kd, "ok")
    bodies = [("n", "body *0*")]
    if block == "footnote body":
        lists = found(p.nodes, "footnotes")
        names = [x.footnote.name for x in lists[0].footnotes]
        S.equal("footnotes", names, ["ff", "n"] if first else ["n", "ff"])
        foots = {x.footnote.name: x.footnote for x in lists[0].footnotes}
        inner = found(foots["ff"].content, "macro-footnote")
        S.equal("references in the body", [m.name for m in inner], ["n", "n"])
        S.check("linked to the same footnote", inner[0].footnote is inner[1].footnote)
        S.check("linked to the listed footnote", inner[0].footnote is foots["n"])
        return
    agree(S, M, p, bodies, ["n", "n"])


def dead(M, S):
    """What is no text holds no reference: it needs no body."""
    where = S.choice("where", DEAD)
    w = S.str("w", 1, NAME)
    kd, p = attempt(M, parse, M, put(DEAD[where], "[footnote](" + w + ")") + "\n\n" + body("n", 0) + "\n\n[footnote](n)\n\n<< footnotes", {"v": "1", "e": ""})
    if kd == "error":
        S.fail("a piece that is no text is an error", p.text)
    agree(S, M, p, [("n", "body *0*")], ["n"])


BODIES = {"plain": "[footnote=§]\n----\nT\n----", "other delimiter": "[footnote=§]\n====\nT\n====", "extra": "[#t, footnote=§, a=b]\n. lab\n----\nT\n----",
          "condition": "@if v==1\n[footnote=§]\n----\nT\n----", "open block": "[isolate=false]\n++++\n[footnote=§]\n----\nT\n----\n++++",
          "open in open": "[isolate=false]\n++++\nx\n\n[isolate=false]\n&&&&\n[footnote=§]\n----\nT\n----\n&&&&\n++++",
          "positional": "[footnote=\"§\", isolate=true]\n----\nT\n----", "with group": "[footnote=§, group=g, position=1]\n----\nT\n----"}
TEXTS = ["p", "= h\n\n* a\n* b", "a\nb\n\nc", "####\nin\n####", "", "*{v}*"]


def bodies(M, S):
    """A body in any form is numbered in order of definition and is rendered only in the lists."""
    forms = [S.choice("f%d" % i, BODIES) for i in range(S.params["n"])]
    t = S.choice("t", TEXTS)
    w = S.str("w", 1, "abcdefgh")
    ns = [x + w for x in S.choice("names", [["k", "m", "z"], ["a-rather-long-name-", "a-long-name-again-", "x"], ["K", "k.", "10"], ["k", "a-rather-long-name-with.no_end:", "9"]])][:len(forms)]
    if S.params["rev"]:
        ns = ns[::-1]
    doc, want = ["<< footnotes"], []
    for i, f in enumerate(forms):
        x = BODIES[f].replace("\nT\n", "\n" + t + "\n" if t else "\n")
        doc.append(put(x, ns[i]))
        want.append((ns[i], t))
    doc += ["a[footnote](" + ns[-1] + ")[footnote](" + ns[0] + ")", ". lab\n<< footnotes"]
    p = parse(M, "\n\n".join(doc), {"v": "1"})
    agree(S, M, p, want, [ns[-1], ns[0]])
    kinds = ["footnotes"] + ["block" for f in forms if "open" in f] + ["paragraph", "footnotes"]
    S.equal("nothing rendered in place", [x.type for x in p.nodes], kinds)


def lists(M, S):
    """Every list anywhere contains all footnotes; without footnotes lists are empty."""
    where = S.choice("where", ["<< footnotes", ". l\n<< footnotes", "[isolate=false]\n++++\n<< footnotes\n++++",
                               "[isolate=false]\n++++\n[isolate=false]\n&&&&\n<< footnotes\n&&&&\n++++", "@if v==1\n<< footnotes",
                               "[group=g, position=1, isolate=false]\n++++\n<< footnotes\n++++\n\n<< blockgroup:g"])
    k = S.choice("k", [0, 1, 2])
    pos = S.choice("pos", [0, 1, 2])
    w = [S.str("w%d" % i, 1, NAME) for i in range(2)]
    S.assume(w[0] != w[1])
    doc = [body(w[i], i) for i in range(k)]
    doc.insert(min(pos, k), where)
    more = S.choice("more", [0, 1, 3])
    doc += ["<< footnotes"] * more
    p = parse(M, "\n\n".join(doc), {"v": "1"})
    ls = agree(S, M, p, [(w[i], "body *%d*" % i) for i in range(k)], [])
    S.equal("lists", len(ls), 1 + more)


def identify(f):
    return "custom-" + f.name + "-" + f.public_id


def unique(M, S):
    """The unique identifier is the one the configured function gives."""
    w = [S.str("w%d" % i, 1, NAME) for i in range(2)]
    S.assume(w[0] != w[1])
    given = S.choice("given", [True, False])
    where = S.choice("where", ["", "[isolate=false]\n"])
    env = new_env(M, {"mau.parser.footnote_unique_id_function": identify} if given else {})
    doc = "[footnote](" + w[1] + ")\n\n" + where + "++++\n" + body(w[0], 0) + "\n\n<< footnotes\n\n[footnote](" + w[0] + ")\n++++\n\n" + body(w[1], 1)
    p = parse(M, doc, env=env)
    ms = found(p.nodes, "macro-footnote")
    inner = "1"
    outer = "1" if not where else "2"
    want = [w[1], w[0]] if not given else ["custom-" + w[1] + "-" + outer, "custom-" + w[0] + "-" + inner]
    S.obs([m.footnote.internal_id for m in ms])
    S.equal("identifiers", [m.footnote.internal_id for m in ms], want)


def manager(M, S):
    """The manager merged from parts, in any order, gives the same numbering as one alone."""
    F = M("mau.parsers.managers.footnotes_manager").FootnotesManager
    B, X, L = M("mau.nodes.block").BlockNode, M("mau.nodes.macro").MacroFootnoteNode, M("mau.nodes.include").FootnotesNode
    T = M("mau.nodes.inline").TextNode
    n = S.params["n"]
    ns = [S.str("n%d" % i, 2, NAME) for i in range(n)]
    rs = [S.str("r%d" % i, 2, NAME) for i in range(S.params["r"])]
    cut = S.choice("cut", range(n + 1))
    a, b = F(), F()
    blocks = [B(content=[T(x)]) for x in ns]
    ma = [X(x) for x in rs]
    la, lb = L(), L()

    def run():
        for i in range(n):
            (a if i < cut else b).add_body(ns[i], blocks[i])
        a.add_footnote_macros(ma[:1])
        b.add_footnote_macros(ma[1:])
        a.add_footnotes_list(la)
        b.add_footnotes_list(lb)
        a.update(b)
        a.process()
    kd, e = attempt(M, run)
    dup = [j for j in range(n) if any(ns[i] == ns[j] for i in range(j))]
    miss = [x for x in rs if not any(x == y for y in ns)]
    if dup or miss:
        S.equal("outcome", kd, "error")
        return
    S.equal("outcome", kd, "ok")
    for l in (la, lb):
        S.equal("list", [[x.footnote.name, x.footnote.public_id, x.footnote.content[0].value] for x in l.footnotes],
                [[ns[i], str(i + 1), ns[i]] for i in range(n)])
        S.check("items are linked to the list", all(x.parent is l for x in l.footnotes))
    for m in ma:
        S.check("linked", any(m.footnote is x.footnote for x in la.footnotes))
        S.equal("name", m.footnote.name, m.name)


def many(M, S):
    """As many footnotes as one likes, in any order of names."""
    n = S.choice("n", S.params["n"])
    w = S.str("w", 1, NAME)
    at = S.choice("at", [0, 1, n // 2, n - 1])
    ns = ["f%d" % (i * 7 % n) for i in range(n)]
    ns[at] = "f" + w + "-"
    refs = [ns[i * 5 % n] for i in range(n + 2)] + [ns[at], ns[-1]]
    doc = [body(ns[i], i) for i in range(n)]
    text = " ".join("x[footnote](" + x + ")" for x in refs)
    place = S.choice("place", [0, n // 2, n])
    doc[place:place] = [text, "<< footnotes"]
    p = parse(M, "\n\n".join(doc))
    agree(S, M, p, [(ns[i], "body *%d*" % i) for i in range(n)], refs)


def cases(tier):
    deep = tier != "quick"
    out = []
    for k, r, every in ((0, 1, 1), (1, 0, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 0), (3, 1, 0), (3, 2, 0)) + \
            (((2, 2, 1), (3, 2, 1), (4, 2, 0), (3, 4, 0), (4, 4, 0)) if deep else ()):
        out.append(("names%d%d%s" % (k, r, "all" if every else ""), names, dict(bodies=k, refs=r, all=every)))
    for n, m in ((1, 2), (2, 2), (3, 2), (4, 4)) + (((6, 6), (6, 5)) if deep else ()):
        out.append(("long names%d%d" % (n, m), long_names, dict(n=n, m=m)))
    if deep:
        out += [("places " + b, places, dict(blocks=[b], inlines=list(INLINE))) for b in BLOCKS]
    else:
        out.append(("places blocks", places, dict(blocks=list(BLOCKS), inlines=["alone", "class", "styles"])))
        out.append(("places inline", places, dict(blocks=["paragraph", "open in open", "label of list"], inlines=list(INLINE))))
    out.append(("dead", dead, {}))
    out += [("bodies1", bodies, dict(n=1, rev=0)), ("bodies2", bodies, dict(n=2, rev=0)), ("bodies2 reversed", bodies, dict(n=2, rev=1))]
    if deep:
        out.append(("bodies3", bodies, dict(n=3, rev=1)))
    out += [("lists", lists, {}), ("unique", unique, {}), ("manager22", manager, dict(n=2, r=2)), ("manager31", manager, dict(n=3, r=1))]
    out.append(("many", many, dict(n=[10, 12] if not deep else [5, 10, 11, 12, 26, 101])))
    return out
