"""C20 The document is a proper tree and copies are independent."""
from harness.common import FIELDS, REFS, ctx_of, dump, parse
from harness.corpus import DOCS
from harness.refs import BLOCKS, INLINE, put

BOUNDS = {"quick": "23 documents next to an arbitrary line of up to 2 characters, 18 places of lines with 15 kinds of inline text; up to 4 headers, tables of contents, footnotes and their lists; lists of 4 items of any "
                   "levels; 31 types of nodes with arbitrary fields (2 characters), arguments and up to 2 children; every single change of a copy",
          "thorough": "lines of up to 3 characters; lists of 6 items; pairs of documents; 3 children"}
OUTSIDE = ("the container of a node inside a line of text: text nodes of lines, items and macro arguments are linked to the paragraph or list or to nothing; "
           "the blocks of a group included twice, which belong to the last include; positions (objects shared by a copy, never changed)")


# ------------------------------------------------------------------ trees
def children(node):
    """(field, child) of a node, references left out."""
    t = node.type
    for f in FIELDS[t]:
        if (t, f) in REFS:
            continue
        v = getattr(node, f)
        if f == "labels" or f == "items":
            for k in v:
                yield f, v[k]
        elif isinstance(v, list) and f != "classes":
            for x in v:
                yield f, x
        elif hasattr(v, "accept"):
            yield f, v


TEXT = ("paragraph-line", "list-item", "macro-link", "macro-class", "macro-header", "macro-footnote")


def check_tree(S, node, seen, owner=None):
    """Every child is linked to the node that holds it, and no node is held twice."""
    S.check("node held once", id(node) not in seen, node.type)
    S.check("arguments held once", id(node.arguments) not in seen, node.type)
    seen[id(node)] = node
    seen[id(node.arguments)] = node
    if node.type == "list" and node.main_node or node.type == "toc":
        owner = node
    for f, x in children(node):
        if node.type in TEXT and f == "content":
            pass
        elif x.type in ("list-item", "list") and node.type == "list" or x.type == "toc-item":
            S.check("part of a " + owner.type + " linked to it", x.parent is owner, x.type)
        else:
            S.check("child linked to its container", x.parent is node, [node.type, f, x.type])
        check_tree(S, x, seen, owner)


def tree(S, p):
    if p.output.document is None:
        S.equal("no nodes", len(p.nodes), 0)
        return
    S.obs(dump(p.output.document))
    S.check("document has no container", p.output.document.parent is None)
    S.check("nodes of the document", all(a is b for a, b in zip(p.output.document.content, p.nodes)))
    seen = {}
    check_tree(S, p.output.document, seen)
    for n in p.footnotes_manager.footnotes_dict.values():
        check_tree(S, n, seen)
    for h in p.output.toc.plain_entries:
        S.check("listed header is the header itself", id(h) in seen)


def trees(M, S):
    doc, n = S.choice("doc", S.params["docs"]), S.params["n"]
    line = S.str("line", n, "-\"[`") if n else ""
    where = S.choice("where", [0, 1]) if n else 0
    text = DOCS[doc] + "\n\n" + line + "\n" if where else line + "\n\n" + DOCS[doc]
    wrap = S.choice("wrap", ["", "@@@@\n", "[isolate=false]\n@@@@\n"])
    S.assume(S.no(line == "@@@@"))
    from harness.common import attempt
    kd, p = attempt(M, parse, M, wrap + text + "\n" + wrap[-5:], {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    if kd == "error":
        S.reach("error")
        return
    tree(S, p)


def places(M, S):
    block, inline = S.choice("block", BLOCKS), S.choice("inline", INLINE)
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    text = put(BLOCKS[block], put(INLINE[inline], "z" + w + " [link](u, \"k\")"))
    p = parse(M, text + "\n\n[name=hh, internal_id=i]\n= H\n\n<< toc\n\n[footnote](ff)" + ("" if block == "footnote body" else "\n\n[footnote=ff]\n++++\n. l\nx\n++++") +
              "\n\n<< footnotes", {"v": "1", "e": ""})
    tree(S, p)


def lists(M, S):
    n, top = S.params["n"], S.params["top"]
    levels = [S.choice("l%d" % i, range(1, top + 1)) for i in range(n)]
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    p = parse(M, ". lab\n" + "\n".join("*#"[i % 2] * l + " " + w for i, l in enumerate(levels)))
    tree(S, p)


def many(M, S):
    """Many pieces of each kind."""
    n = S.params["n"]
    h, t, f, g = [S.choice(k, [0, 1, 2, n]) for k in ("headers", "tocs", "lists", "blocks")]
    order = S.choice("order", ["after", "before", "mixed"])
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    heads = [". l%d\n[name=n%d]\n" % (i, i) + "=" * (1 + i % 3) + " h" + w + " %d *s*" % i for i in range(h)]
    notes = ["x [footnote](f%d) [footnote](f%d)\n\n[footnote=f%d]\n++++\n. k\ny" % (i, i, i) + w + "\n++++" for i in range(g)]
    group = ["[group=g, position=%d]\n++++\n. k\n* y" % i + w + "\n** z\n++++" for i in range(g)] + (["<< blockgroup:g"] if g else [])
    shows = [". lab\n<< toc"] * t + ["<< footnotes"] * f
    links = ["[header](n%d) [header](n%d, t)" % (i, i) for i in range(h)]
    body = heads + notes + group + links
    doc = body + shows if order == "after" else shows + body if order == "before" else [x for y in zip(body + [""] * n * 9, shows + [""] * n * 9) for x in y if x]
    if not doc:
        return
    p = parse(M, "\n\n".join(doc), {"mau.parser.header_internal_id_function": lambda x: "i%d" % x.level})
    S.equal("headers listed", [len(x.plain_entries) for x in p.nodes if x.type == "toc"], [h] * t)
    S.equal("footnotes listed", [len(x.footnotes) for x in p.nodes if x.type == "footnotes"], [g] * f)
    tree(S, p)


def including(M, S):
    line = S.str("line", 2, "-\"[`:{}\\")
    S.files({"a.mau": line + "\n\n= h\n\n* a\n** b\n\n. l\n<< toc\n\n<< mau:b.mau", "b.mau": "x\n\n++++\ny\n++++\n\n<< raw:b.mau"})
    from harness.common import attempt
    kd, p = attempt(M, parse, M, ". lab\n<< mau:a.mau\n\n++++\n<< mau:b.mau\n++++\n\n<< mau:a.mau", {"mau.parser.header_internal_id_function": lambda h: "i"})
    if kd == "error":
        S.reach("error")
        return
    tree(S, p)


# ------------------------------------------------------------------ copies
def same_copy(S, old, new, parent):
    S.check("same class", type(new) is type(old), old.type)
    S.check("copy linked to the copy", new.parent is parent, old.type)
    S.check("new node", new is not old)
    S.check("new arguments", new.arguments is not old.arguments)
    S.check("new info", new.info is not old.info)
    a, b = list(children(old)), list(children(new))
    S.equal("children", [[f, x.type] for f, x in b], [[f, x.type] for f, x in a])
    for (_, x), (_, y) in zip(a, b):
        same_copy(S, x, y, new)
    for t, f in REFS:
        if old.type == t:
            S.check("reference to the same node", getattr(new, f) is getattr(old, f), t)


def full(n, refs=True):
    return [dump(n, ctx=ctx_of, refs=refs), [args_of_all(x) for x in below(n)]]


def below(n):
    yield n
    for _, x in children(n):
        yield from below(x)


def args_of_all(n):
    a = n.arguments
    return [n.type, list(a.unnamed_args), [[k, a.named_args[k]] for k in a.named_args], list(a.tags), list(a.internal_tags), a.subtype]


def spoil(M, node):
    """Change everything in a tree."""
    kids = list(children(node))
    a = node.arguments
    a.unnamed_args.append("spoilt")
    a.named_args["spoilt"] = "1"
    for k in list(a.named_args):
        a.named_args[k] = "spoilt"
    a.tags.append("spoilt")
    a.internal_tags.append("spoilt")
    a.subtype = "spoilt"
    node.info.context = M("mau.text_buffer").Context(99, 99, 99, 99, "spoilt")
    for f in FIELDS[node.type]:
        v = getattr(node, f)
        if isinstance(v, list):
            v.append("spoilt")
            del v[0]
        elif isinstance(v, dict):
            v.clear()
            v["spoilt"] = None
        else:
            setattr(node, f, "spoilt")
    node.parent = None
    for _, x in kids:
        spoil(M, x)


def copied(M, S, node, parent=None):
    before = full(node)
    links = [(x, x.parent) for x in below(node)]
    new = node.deepcopy(parent) if parent is not None else node.deepcopy()
    S.equal("copy", full(new), before)
    same_copy(S, node, new, parent)
    S.equal("original after copying", full(node), before)
    again = new.deepcopy()
    spoil(M, new)
    S.equal("original after changing the copy", full(node), before)
    S.equal("copy of the copy", full(again), before)
    S.check("original still linked", all(x.parent is p for x, p in links))
    third = node.deepcopy(parent)
    own = full(third, refs=False)
    spoil(M, node)
    S.equal("copy after changing the original", full(third, refs=False), own)


def copies(M, S):
    """Copies of parsed nodes."""
    doc = S.choice("doc", S.params["docs"])
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    p = parse(M, DOCS[doc] + "\n\n. k" + w + "\n[a, #t, *s, k=v, classes=\"k,l\"]\n++++\n* a" + w + "\n** b\n++++", {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    i = S.choice("node", range(-2, S.params["top"]))
    nodes = [p.output.document, p.output.toc] + list(p.nodes)
    S.assume(i + 2 < len(nodes))
    node = nodes[i + 2]
    copied(M, S, node, S.choice("parent", [None, p.output.document]))


MODULES = {"text": "inline", "word": "inline", "verbatim": "inline", "style": "inline", "value": "node", "wrapper": "node"}


def classes(M):
    """Node classes by type."""
    out = {}
    for m in ("node", "inline", "header", "paragraph", "document", "label", "list", "block", "raw", "source", "macro", "footnote", "include", "condition"):
        mod = M("mau.nodes." + m)
        for k in sorted(vars(mod)):
            c = vars(mod)[k]
            if isinstance(c, type) and hasattr(c, "deepcopy") and c.type in FIELDS:
                out[c.type] = c
    return out


def fresh(M, S, cls, t, tag, depth, kids, ctx):
    """A node of type t with arbitrary fields."""
    A, I = M("mau.nodes.node_arguments").NodeArguments, M("mau.nodes.node").NodeInfo
    mix = S.params.get("mix") and tag == ""
    hollow = S.choice("hollow", [False, True]) if S.params.get("mix") else False
    all_kids = kids
    k = dict(arguments=A() if hollow else A(unnamed_args=[S.str(tag + "u", 1)], named_args={"n": S.str(tag + "n", 1)}, tags=[S.str(tag + "t", 1)], internal_tags=["i"],
                         subtype=S.str(tag + "s", 1)), info=I(ctx))
    for f in FIELDS[t]:
        name = tag + f
        # any part may be missing while the others are there
        if mix and f in ("content", "plain_entries", "nested_entries", "entries", "footnotes", "labels", "items"):
            kids = S.choice(name + "#", [0, all_kids])
        else:
            kids = all_kids
        if f in ("content", "plain_entries", "nested_entries", "entries", "footnotes"):
            ct = {"plain_entries": "header", "nested_entries": "toc-item", "entries": "toc-item", "footnotes": "footnotes-item"}.get(f) or \
                {"paragraph": "paragraph-line", "list": "list-item", "raw": "raw-line", "source": "source-line", "include-raw": "raw-line"}.get(t, "text")
            k[f] = [fresh(M, S, cls, ct, name + str(i), depth - 1, kids, ctx) for i in range(kids)] if depth else []
        elif f == "labels":
            k[f] = {S.params["role"] + str(i): fresh(M, S, cls, "label", name + str(i), depth - 1, kids, ctx) for i in range(kids)} if depth else {}
        elif f == "items":
            k[f] = {"p%d" % i: fresh(M, S, cls, "blockgroup-item", name + str(i), depth - 1, kids, ctx) for i in range(kids)} if depth else {}
        elif f in ("header", "footnote", "block", "marker"):
            ct = {"marker": "source-marker"}.get(f, f)
            need = (t, f) in {("toc-item", "header"), ("footnotes-item", "footnote")}
            there = S.choice(name + "#", [True, False]) if mix and not need else depth or need
            k[f] = fresh(M, S, cls, ct, name, depth - 1 if depth else 0, kids, ctx) if there else None
        elif f == "classes":
            k[f] = [] if hollow else [S.str(name, 1), "c"]
        elif f in ("ordered", "main_node"):
            k[f] = bool(len(tag) % 2)
        elif f in ("level", "start"):
            k[f] = len(name) if S.params.get("fixed") else S.int(name)
        else:
            k[f] = "" if hollow else S.str(name, S.params["n"])
    return cls[t](**k)


def types(M, S):
    """Copies of single nodes of every type with arbitrary fields."""
    cls = classes(M)
    t = S.choice("type", [x for x in FIELDS])
    C = M("mau.text_buffer").Context
    ctx = C(S.int("a"), S.int("b"), S.int("c"), S.int("d"), S.str("src", 1))
    node = fresh(M, S, cls, t, "", S.params["depth"], S.params["kids"], ctx)
    for x in below(node):
        for _, y in children(x):
            y.parent = x
    copied(M, S, node, cls["document"]())


def cases(tier):
    deep = tier != "quick"
    keys = list(DOCS)
    out = [("trees0", trees, dict(docs=keys, n=0)), ("trees1", trees, dict(docs=keys, n=1)), ("trees2", trees, dict(docs=["two", "list"], n=2)),
           ("places", places, {}), ("including", including, {}), ("copies", copies, dict(docs=keys, top=6)),
           ("lists", lists, dict(n=4, top=3)), ("many", many, dict(n=12 if deep else 4)),
           ("types0", types, dict(n=2, depth=0, kids=1, role="r")), ("types1", types, dict(n=2, depth=1, kids=2, role="r")),
           ("types2", types, dict(n=1, depth=2, kids=1, role="r")), ("mix", types, dict(n=1, depth=1, kids=1, role="r", mix=True))]
    if deep:
        out += [("trees3", trees, dict(docs=["two"], n=3)), ("lists6", lists, dict(n=6, top=4)), ("types3", types, dict(n=1, depth=3, kids=1, role="r")),
                ("types4", types, dict(n=1, depth=2, kids=3, role="r")), ("trees4", trees, dict(docs=keys, n=2))]
    return out
