"""C17 Block groups collect exactly their blocks."""
from harness.common import attempt, dump, dumps, parse
from harness.refs import found

BOUNDS = {"quick": "up to 4 grouped blocks and 2 includes (and 12 blocks and includes with one arbitrary position) with arbitrary one-letter groups and positions in several orders, names of up to 3 "
                   "characters, 11 forms of blocks and 8 forms of includes",
          "thorough": "up to 4 blocks and 3 includes in every order, names of up to 5 characters"}
OUTSIDE = "groups are local to a document, a block or an included file: an include never shows blocks of another one (checked here too)"

NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:+"
WORD = "-\\`{}_*~^[]\"'():!@#=.<> /$%"


def block(g, q, i, d="----"):
    return "[group=" + g + ", position=" + q + "]\n" + d + "\nb%d\n" % i + d


def items(S, n):
    """{position: block} of a blockgroup node, in a plain form."""
    for k in n.items:
        it = n.items[k]
        S.equal("key is the position", k, it.position)
        S.equal("group of the item", it.group, n.name)
        S.check("block linked to its item", it.block.parent is it)
    return [[k, dumps(n.items[k].block.content)] for k in n.items]


def same(S, what, got, want):
    """Equal as mappings."""
    S.equal(what + ": as many positions as blocks", len(got), len(want))
    for k, v in want:
        hit = [x for x in got if x[0] == k]
        S.equal(what + ": one block per position", len(hit), 1)
        S.equal(what + ": the block of the position", hit[0][1], v)


def names(M, S):
    """Any groups and positions: collected, or an error exactly when a position is taken or a group has no block."""
    k, r = S.params["blocks"], S.params["includes"]
    gs = [S.str("g%d" % i, 1, NAME) for i in range(k)]
    ps = [S.str("p%d" % i, 1, NAME) for i in range(k)]
    rs = [S.str("r%d" % i, 1, NAME) for i in range(r)]
    parts = [("b", i) for i in range(k)] + [("r", i) for i in range(r)] + [("t", 0)]
    order = S.order("order", parts) if S.params["all"] else S.choice("order", [parts, parts[::-1], parts[1::2] + parts[::2]])
    doc = []
    for kind, i in order:
        doc.append(block(gs[i], ps[i], i) if kind == "b" else "<< blockgroup:" + rs[i] if kind == "r" else "t")
    kd, p = attempt(M, parse, M, "\n\n".join(doc))
    blocks = [i for kind, i in order if kind == "b"]
    for x in range(k):
        for y in range(x):
            if S.all(gs[blocks[x]] == gs[blocks[y]], ps[blocks[x]] == ps[blocks[y]]):
                S.reach("taken")
                S.equal("outcome of two blocks in one position", [kd, p.text if kd == "error" else ""],
                        ["error", "Position '" + ps[blocks[x]] + "' is already taken in group '" + gs[blocks[x]] + "'."])
                return
    for kind, i in order:
        if kind == "r" and not any(rs[i] == g for g in gs):
            S.reach("empty")
            S.equal("outcome of a group without blocks", [kd, p.text if kd == "error" else ""],
                    ["error", "The group '" + rs[i] + "' does not exist."])
            return
    S.reach("collected")
    S.equal("outcome", kd, "ok")
    S.obs(dumps(p.nodes))
    S.equal("blocks are out of the flow", [x.type for x in p.nodes],
            [{"r": "blockgroup", "t": "paragraph"}[kind] for kind, i in order if kind != "b"])
    nodes = [x for x in p.nodes if x.type == "blockgroup"]
    for n, i in zip(nodes, [i for kind, i in order if kind == "r"]):
        S.equal("group", n.name, rs[i])
        same(S, "group", items(S, n), [[ps[b], dumps(parse(M, "b%d" % b).nodes)] for b in range(k) if gs[b] == rs[i]])


def long_names(M, S):
    """Longer names, however they are written."""
    n, m = S.params["n"], S.params["m"]
    g, r, q = S.str("g", n, NAME), S.str("r", m, NAME), S.str("q", S.params["q"], NAME)
    form = S.choice("form", [("<< blockgroup:", ""), ("[", "]\n<< blockgroup"), ("[group=", "]\n<< blockgroup"), ("<< blockgroup:\"", "\""),
                             ("<< blockgroup:group=", "")])
    quote = S.choice("quote", ["", "\""])
    kd, p = attempt(M, parse, M, "[group=" + quote + g + quote + ", position=" + quote + q + quote + "]\n----\nx\n----\n\n" + form[0] + r + form[1])
    if n == m and g == r:
        S.reach("same")
        S.equal("outcome", kd, "ok")
        S.obs(dumps(p.nodes))
        S.equal("nodes", [[x.type, x.name] for x in p.nodes], [["blockgroup", r]])
        same(S, "group", items(S, p.nodes[0]), [[q, dumps(parse(M, "x").nodes)]])
    else:
        S.reach("different")
        S.equal("outcome", [kd, p.text if kd == "error" else ""], ["error", "The group '" + r + "' does not exist."])


FORMS = {"plain": "[group=g, position=§]\n----\nT\n----", "other": "[group=g, position=§]\n====\nT\n====",
         "full": "[a, #t, *sub, group=g, position=§, classes=\"k,l\"]\n. lab\n----\nT\n----", "raw": "[engine=raw, group=g, position=§]\n----\nT\n----",
         "source": "[@source, group=g, position=§]\n----\nT\n----", "position first": "[position=§, group=g]\n----\nT\n----",
         "condition": "@if v==1\n[group=g, position=§]\n----\nT\n----", "open": "[group=g, position=§, isolate=false]\n----\nT\n----",
         "alias": "[@ga, position=§]\n----\nT\n----", "empty": "[group=g, position=§]\n----\n----", "empty raw": "[engine=raw, group=g, position=§]\n----\n----"}
OTHERS = {"none": "", "no position": "[group=g]\n----\nz\n----", "no group": "[position=a]\n----\nz\n----", "excluded": "@if v==2\n[group=g, position=zz]\n----\nz\n----",
          "other group": "[group=h, position=a]\n----\nz\n----", "inside": "++++\n[group=g, position=zz]\n----\nz\n----\n++++",
          "inside open": "[isolate=false]\n++++\n[group=g, position=zz]\n----\nz\n----\n++++", "paragraph": "[group=g, position=zz]\nz",
          "list": "[group=g, position=zz]\n* z", "source text": "[engine=raw]\n++++\n[group=g, position=zz]\n----\nz\n----\n++++",
          "footnote": "[footnote=f, group=g, position=zz]\n----\nz\n----", "own group": "++++\n<< blockgroup:g\n\n[group=g, position=zz]\n----\nz\n----\n++++"}


def forms(M, S):
    """A block in any form is collected as it would be in the flow; other pieces never are."""
    f = [S.choice("f%d" % i, FORMS) for i in range(S.params["n"])]
    other = S.choice("other", S.params["others"])
    w = S.str("w", 1, WORD)
    pos = ["a", "b"]
    texts = ["t" + w + "\n\n= h", "u"]
    blocks = [FORMS[x].replace("§", pos[i]).split("T") for i, x in enumerate(f)]
    blocks = [b[0] + t + b[1] if len(b) == 2 else b[0] for b, t in zip(blocks, texts)]
    place = S.choice("place", range(3))
    rest = [x for x in [OTHERS[other]] if x]
    doc = blocks + rest
    doc.insert(place, "<< blockgroup:g")
    values = {"v": "1", "mau.parser.aliases.ga": {"args": {"group": "g"}}}
    p = parse(M, "\n\n".join(doc), values)
    S.obs(dumps(p.nodes))
    g = [x for x in p.nodes if x.type == "blockgroup"]
    S.equal("one group", len(g), 1)
    # without position the same block stays in the flow
    want = []
    for i, b in enumerate(blocks):
        q = parse(M, b.replace("position=" + pos[i], "pos=" + pos[i]), values)
        n = q.nodes[0]
        want.append([pos[i], dump(n)])
    got = []
    for k in g[0].items:
        n = g[0].items[k].block
        n.arguments.named_args["pos"] = n.arguments.named_args.pop("position")
        got.append([k, dump(n)])
    for x in got + want:
        x[1][1] = [x[1][1][0], sorted(x[1][1][1])] + x[1][1][2:]
    items_ok = [k for k in g[0].items]
    same(S, "group", got, want)
    flow = [x.type for x in p.nodes if x.type != "blockgroup"]
    S.equal("the rest of the flow", flow, [x.type for x in parse(M, OTHERS[other] if other != "own group" else "++++\n++++", values).nodes])


def twice(M, S):
    """Every include shows the whole group, wherever it is."""
    n = S.params["n"]
    r = S.params["r"]
    w = S.str("w", 1, NAME)
    ps = ["p" + w, "q" + w, "r" + w][:n]
    parts = [("b", i) for i in range(n)] + [("r", i) for i in range(r)]
    order = S.order("order", parts)
    inc = ["<< blockgroup:g", ". lab\n<< blockgroup:g", "@if v==1\n[g]\n<< blockgroup"]
    doc = [block("g", ps[i], i) if kind == "b" else inc[i] for kind, i in order]
    p = parse(M, "\n\n".join(doc), {"v": "1"})
    S.obs(dumps(p.nodes))
    S.equal("nodes", [x.type for x in p.nodes], ["blockgroup"] * r)
    for x in p.nodes:
        same(S, "group", [[k, dumps(x.items[k].block.content)] for k in x.items], [[ps[b], dumps(parse(M, "b%d" % b).nodes)] for b in range(n)])


def many(M, S):
    """As many blocks, groups and includes as one likes; every include has a list of its own."""
    n = S.choice("n", S.params["n"])
    w = S.str("w", 1, NAME)
    at = S.choice("at", [0, 1, n // 2, n - 1])
    ps = ["p%d" % (i * 7 % n) for i in range(n)]
    ps[at] = "q" + w
    groups = S.choice("groups", [1, 2, n])
    doc = [block("g%d" % (i % groups), ps[i], i) for i in range(n)]
    doc += ["<< blockgroup:g%d" % (i % groups) for i in range(max(groups, 3))]
    wrap = S.choice("wrap", [None, "", "[isolate=false]\n"])
    p = parse(M, "\n\n".join(doc) if wrap is None else wrap + "++++\n" + "\n\n".join(doc) + "\n++++")
    nodes = p.nodes if wrap is None else p.nodes[0].content
    S.obs(dumps(nodes))
    S.equal("nodes", [x.type for x in nodes], ["blockgroup"] * max(groups, 3))
    for j, x in enumerate(nodes):
        same(S, "group", [[k, dumps(x.items[k].block.content)] for k in x.items],
             [[ps[b], dumps(parse(M, "b%d" % b).nodes)] for b in range(n) if b % groups == j % groups])
        S.check("items of its own", not any(x.items is y.items for y in nodes[:j]))


def local(M, S):
    """Groups inside a block are its own."""
    iso = S.choice("iso", ["", "[isolate=false]\n"])
    g, r = S.str("g", 1, NAME), S.str("r", 1, NAME)
    where = S.choice("where", [0, 1])
    inner = "<< blockgroup:" + r if where == 0 else block(g, "p", 0)
    outer = block(g, "p", 0) if where == 0 else "<< blockgroup:" + r
    kd, p = attempt(M, parse, M, iso + "++++\n" + inner + "\n++++\n\n" + outer)
    S.equal("outcome", [kd, p.text if kd == "error" else ""], ["error", "The group '" + r + "' does not exist."])


def inside(M, S):
    """Two groups of one name in a block and around it do not mix."""
    iso = S.choice("iso", ["", "[isolate=false]\n"])
    q = [S.str("q%d" % i, 1, NAME) for i in range(2)]
    p = parse(M, block("g", q[0], 0) + "\n\n" + iso + "++++\n" + block("g", q[1], 1) + "\n\n<< blockgroup:g\n++++\n\n<< blockgroup:g")
    S.obs(dumps(p.nodes))
    gs = found(p.nodes, "blockgroup")
    S.equal("groups", len(gs), 2)
    same(S, "inner", items(S, gs[0]), [[q[1], dumps(parse(M, "b1").nodes)]])
    same(S, "outer", items(S, gs[1]), [[q[0], dumps(parse(M, "b0").nodes)]])


def cases(tier):
    deep = tier != "quick"
    out = []
    for k, r, every in ((0, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 0), (3, 1, 0)) + \
            (((2, 2, 1), (3, 2, 0), (4, 1, 0)) if deep else ()):
        out.append(("names%d%d%s" % (k, r, "all" if every else ""), names, dict(blocks=k, includes=r, all=every)))
    for n, m, q in ((1, 2, 1), (2, 2, 3), (3, 2, 2), (3, 3, 1)) + (((5, 5, 5),) if deep else ()):
        out.append(("long names%d%d%d" % (n, m, q), long_names, dict(n=n, m=m, q=q)))
    out += [("forms1", forms, dict(n=1, others=list(OTHERS))),
            ("forms2", forms, dict(n=2, others=list(OTHERS) if deep else ["none", "no position", "other group", "inside open", "own group"]))]
    out += [("twice%d%d" % (n, r), twice, dict(n=n, r=r)) for n, r in ((1, 2), (2, 2), (2, 3)) + (((3, 2),) if deep else ())]
    out += [("local", local, {}), ("inside", inside, {}), ("many", many, dict(n=[12] if not deep else [10, 12, 27, 101]))]
    return out
