"""C21 The most specific matching template renders a node."""
import os
import pathlib

from harness.c20 import classes
from harness.common import attempt, handler, new_env

BOUNDS = {"quick": "names with up to 3 conditions of 9 kinds in any order, with arbitrary values of 1 or 2 characters, against nodes of 8 types with "
                   "arbitrary attributes and parents; sets of up to 3 out of 16 templates in any order, up to 2 prefixes, 4 sources, 2 folders and 2 providers in any order",
          "thorough": "up to 4 conditions; sets of 4 templates"}
OUTSIDE = "values with two underscores in a row or with a dot (separators of a template name); which of two templates of equal specificity is used (only that it does not depend on the listing of a folder); Jinja itself"

VALUE = "abAcXYZ019_-+*?[$^(\\"
CUSTOM = {"macro": "name", "style": "style", "label": "role", "include": "ctype", "blockgroup": "name", "blockgroup-item": "position"}
KINDS = ("subtype", "custom", "other", "pf", "pt", "pts", "ptc", "tag", "tag2")


def part(kind, v, claims):
    """A condition in the name of a template."""
    if kind == "subtype":
        return v
    if kind == "custom" or kind == "other":
        return claims[kind] + "__" + v
    if kind == "ptc":
        return "pts_" + claims[kind] + "__" + v
    return {"pf": "pf_", "pt": "pt_", "pts": "pts_", "tag": "tg_", "tag2": "tg_"}[kind] + v


def make(M, cls, t, custom, subtype=None, tags=(), parent=None):
    A = M("mau.nodes.node_arguments").NodeArguments
    k = dict(arguments=A(subtype=subtype, tags=list(tags)), parent=parent)
    if t == "macro" or t == "blockgroup":
        return cls[t](custom, **k)
    if t in ("style", "label", "include"):
        return cls[t](custom, **k)
    if t == "blockgroup-item":
        return cls[t]("g", custom, **k)
    if t == "header":
        return cls[t](1, **k)
    if t in ("text", "verbatim", "raw-line"):
        return cls[t]("x", **k)
    return cls[t](**k)


def fields(t, custom):
    return {CUSTOM[t]: custom} if t in CUSTOM else {}


def matches(S, claims, node, prefix):
    """The condition under which a template with these claims is good for a node."""
    t, custom, subtype, tags, parent = node
    out = [claims["type"] == t]
    pf = claims.get("pf")
    out.append(prefix is None if pf is None else prefix is not None and S.all(pf == prefix))
    if "subtype" in claims:
        out.append(subtype is not None and S.all(claims["subtype"] == subtype))
    for key, v in claims.get("fields", []):
        f = fields(t, custom)
        out.append(key in f and S.all(f[key] == v))
    for key, v in claims.get("parent fields", []):
        f = fields(parent[0], parent[1]) if parent else {}
        out.append(key in f and S.all(f[key] == v))
    if "pt" in claims:
        out.append(parent is not None and S.all(parent[0] == claims["pt"]))
    if "pts" in claims:
        out.append(parent is not None and parent[2] is not None and S.all(parent[2] == claims["pts"]))
    for x in claims.get("tags", []):
        out.append(S.any(*[x == y for y in tags]) if tags else False)
    return S.all(*out)


def match(M, S):
    """A template is good for a node exactly when all its conditions hold."""
    n = S.params["n"]
    cls = classes(M)
    t = S.choice("type", S.params["types"])
    kinds = []
    i = -1
    for _ in range(n):
        i = S.choice("kind%d" % len(kinds), range(i + 1, len(KINDS) + 1)) if i < len(KINDS) else i
        if i < len(KINDS):
            kinds.append(KINDS[i])
    m = S.params["chars"]
    claims = {"type": S.choice("claimed type", [t, "paragraph"]) if S.params["wrong"] else t, "custom": CUSTOM.get(t, "name"), "other": "none", "fields": [],
              "parent fields": [], "tags": [], "ptc": "style"}
    parts = []
    ptype = S.choice("parent", S.params["parents"])
    for k in kinds:
        if k == "pt":
            v = S.choice("pt", ["style", "block", "label"])
        else:
            v = S.str("v" + k, m, VALUE)
            for j in range(m - 1):
                S.assume(S.no(S.all(v[j] == "_", v[j + 1] == "_")))
        parts.append(part(k, v, claims))
        if k == "custom" or k == "other":
            claims["fields"].append((claims[k], v))
        elif k == "ptc":
            claims["parent fields"].append((claims[k], v))
        elif k in ("tag", "tag2"):
            claims["tags"].append(v)
        else:
            claims[k] = v
    order = S.order("order", list(range(len(parts)))) if len(parts) < 3 else S.choice("order", [list(range(len(parts))), list(range(len(parts)))[::-1]])
    name = claims["type"]
    for j in order:
        name = name + "." + parts[j]
    # the node, arbitrary only where a condition looks
    def maybe(k, what):
        return S.choice("has " + what, [False, True]) and S.str(what, m, VALUE) or None if k else "s"
    subtype = maybe("subtype" in kinds, "subtype")
    custom = S.str("custom", m, VALUE) if "custom" in kinds else "c"
    tags = [S.str("t%d" % j, m, VALUE) for j in range(S.choice("tags", range(3)))] if claims["tags"] else ["z"]
    parent = None
    if ptype:
        parent = [ptype, S.str("pcustom", m, VALUE) if "ptc" in kinds else "c", maybe("pts" in kinds, "psubtype")]
    prefix = S.choice("has prefix", [False, True]) and (S.str("prefix", m, VALUE) if "pf" in kinds else "s") or None
    up = make(M, cls, parent[0], parent[1], parent[2]) if parent else None
    node = make(M, cls, t, custom, subtype, tags, up)
    T = M("mau.visitors.jinja_visitor").Template
    template = T.from_name(name, "content")
    S.equal("name", template.name, name)
    S.equal("content", template.content, "content")
    want = matches(S, claims, (t, custom, subtype, tags, parent), prefix)
    got = template.match(node, prefix)
    S.obs(bool(got))
    if got:
        S.reach("match")
        S.check("every condition of the name holds", want)
    else:
        S.reach("no match")
        S.check("some condition of the name fails", S.no(want))
    if prefix is None:
        S.equal("prefix left out", template.match(node), got)


def tags(M, S):
    """A template needs all its tags, however many they are."""
    cls = classes(M)
    want = [S.str("w%d" % i, 1, "abcd") for i in range(S.params["n"])]
    own = [S.str("o%d" % i, 1, "abcd") for i in range(S.params["m"])]
    node = make(M, cls, "paragraph", None, None, own)
    T = M("mau.visitors.jinja_visitor").Template
    template = T.from_name(_join(want), "content")
    got = bool(template.match(node))
    S.obs(got)
    S.equal("match", got, bool(S.all(*[S.any(*[x == y for y in own]) if own else False for x in want])))


def _join(want):
    out = "paragraph"
    for x in want:
        out = out + ".tg_" + x
    return out


def decode(M, S):
    """The parts of a name are read in any order."""
    v = [S.str("v%d" % i, 1, VALUE) + S.str("w%d" % i, S.params["n"] - 1, VALUE.replace("_", "")) for i in range(7)]
    parts = {"subtype": v[0], "prefix": "pf_" + v[1], "parent": "pt_" + v[2], "parent subtype": "pts_" + v[3], "tag": "tg_" + v[4], "field": "k__" + v[5],
             "parent field": "pts_k__" + v[6]}
    use = S.choice("use", S.params["sets"])
    order = S.order("order", use) if S.params["all"] else S.choice("order", [use, use[::-1]])
    name = "macro-link"
    for k in order:
        name = name + "." + parts[k]
    T = M("mau.visitors.jinja_visitor").Template
    x = T.from_name(name, "c")
    def given(k, value):
        return value if k in use else None
    S.equal("type", x.type, "macro-link")
    S.equal("subtype", x.subtype, given("subtype", v[0]))
    S.equal("prefix", x.prefix, given("prefix", v[1]))
    S.equal("parent", x.parent_type, given("parent", v[2]))
    S.equal("parent subtype", x.parent_subtype, given("parent subtype", v[3]))
    S.equal("tags", list(x.tags), [v[4]] if "tag" in use else [])
    S.equal("fields", x.custom, {"k": v[5]} if "field" in use else {})
    S.equal("parent fields", x.parent_custom, {"k": v[6]} if "parent field" in use else {})


# ------------------------------------------------------------------ selection
POOL = [{}, {"subtype": "s"}, {"fields": [("name", "n")]}, {"pf": "p"}, {"pf": "q"}, {"pt": "style"}, {"pts": "u"}, {"parent fields": [("style", "star")]},
        {"tags": ["t"]}, {"tags": ["t", "w"]}, {"subtype": "s", "tags": ["t"]}, {"pf": "p", "tags": ["t", "w"]}, {"fields": [("name", "n")], "pf": "q"},
        {"pt": "style", "pts": "u", "tags": ["t"]}, {"subtype": "s", "pt": "style"}, {"parent fields": [("style", "star")], "pt": "style"}]


def weight(c):
    """Fields, subtype, prefix, parent type, parent fields, parent subtype, tags."""
    return [len(c.get("fields", [])), int("subtype" in c), int("pf" in c), int("pt" in c), len(c.get("parent fields", [])), int("pts" in c), len(c.get("tags", []))]


def name_of(c):
    out = "macro"
    if "subtype" in c:
        out += "." + c["subtype"]
    for k, v in c.get("fields", []):
        out += "." + k + "__" + v
    for k in ("pf", "pt", "pts"):
        if k in c:
            out += "." + k + "_" + c[k]
    for k, v in c.get("parent fields", []):
        out += ".pts_" + k + "__" + v
    for x in c.get("tags", []):
        out += ".tg_" + x
    return out


def build(M, S, templates, prefixes, extra=None):
    V = M("mau.visitors.jinja_visitor").JinjaVisitor
    env = new_env(M, {"mau.visitor.templates.custom": templates})
    env.dupdate({"mau": {"visitor": {"templates": dict({"prefixes": prefixes}, **(extra or {}))}}})
    return V(handler(M), env)


def best(S, chosen, node, prefixes):
    """Index of the template to be used."""
    for prefix in list(prefixes) + [None]:
        good = [i for i in range(len(chosen)) if S.all(matches(S, dict(chosen[i], type="macro"), node, prefix))]
        if good:
            top = good[0]
            for i in good[1:]:
                if weight(chosen[i]) > weight(chosen[top]):
                    top = i
            return top
    return None


def select(M, S):
    """Out of any set of templates, in any order, the right one is used."""
    n = S.params["n"]
    cls = classes(M)
    pick = []
    i = -1
    pool = [POOL[x] for x in S.params.get("pool", range(len(POOL)))]
    for j in range(n):
        i = S.choice("t%d" % j, range(i + 1, len(pool)))
        pick.append(i)
        S.assume(i < len(pool) - (n - 1 - j))
    chosen = [pool[i] for i in pick]
    ws = [weight(c) for c in chosen]
    # equally specific ones are told apart only by the prefix
    S.assume(all(ws[a] != ws[b] or chosen[a].get("pf") != chosen[b].get("pf") for a in range(n) for b in range(a)))
    order = S.order("order", list(range(n))) if S.params["all"] else S.choice("order", [list(range(n)), list(range(n))[::-1]])
    keys = set(k for c in chosen for k in c)
    prefixes = S.choice("prefixes", [[], ["p"], ["p", "q"], ["q", "p"]] if "pf" in keys else [[], ["r"]])
    subtype = S.str("subtype", 1, "stx") if "subtype" in keys else None
    custom = S.str("name", 1, "nmx") if "fields" in keys else "n"
    tags = [S.str("tag%d" % i, 1, "tw") for i in range(S.choice("tags", range(3)))] if "tags" in keys else []
    parent = S.choice("parent", [None, "style", "block"]) if keys & {"pt", "pts", "parent fields"} else None
    up = [parent, S.choice("pstyle", ["star", "caret"]) if "parent fields" in keys else "star", S.str("psub", 1, "uv") if "pts" in keys else None] if parent else None
    node = make(M, cls, "macro", custom, subtype, tags, make(M, cls, *up) if up else None)
    v = build(M, S, {name_of(chosen[i]) + ".j2": "T%d" % i for i in order}, prefixes)
    want = best(S, chosen, ("macro", custom, subtype, tags, up), prefixes)
    kd, r = attempt(M, v.visit, node)
    S.obs(r if kd == "ok" else r.text)
    if want is None:
        S.reach("none")
        S.equal("outcome", kd, "error")
        S.equal("kind of error", type(r).__name__, "MauVisitorErrorMessage")
    else:
        S.reach("found")
        S.equal("template used", [kd, r if kd == "ok" else None], ["ok", "T%d" % want])


def sources(M, S):
    """The same template given by several sources: the last one counts; any other stays."""
    cls = classes(M)
    names = ["macro.j2", "macro.s.j2", "text.j2", "macro.tg_t.j2"]
    n = S.params["n"]
    where = [S.choice("w%d" % i, range(4)) for i in range(n)]
    what = [S.choice("n%d" % i, range(S.params["names"])) for i in range(n)]
    given = [{}, {}, {}, {}]
    for i in range(n):
        given[where[i]][names[what[i]]] = "T%d" % i
    # the files may be in a folder; files with another extension are not templates
    folder = S.choice("folder", ["", "macro"])
    files = {("t/" + (k if not folder else folder + "/" + k.removeprefix("macro.")) if k != "macro.j2" else "t/" + k): v for k, v in given[2].items() if not folder or k.startswith("macro")}
    S.assume(len(files) == len(given[2]))
    S.files(dict(files, **{"t/macro.s.txt": "no", "t/macro.s.html": "no", "u/x": ""}))
    J = M("mau.visitors.jinja_visitor")
    E = M("mau.environment.environment").Environment

    class Provider:
        templates = given[1]

    S.patch(J, "_load_available_template_providers", lambda: {"pr": Provider, "other": None})
    S.patch(J.JinjaVisitor, "default_templates", E.from_dict(given[0]))
    if S.choice("others", [False, True]):
        given[1].update({"macro.s": "no", "macro.s.txt": "no"})
        given[3].update({"macro.tg_t.html": "no", "macro.s.tg_t": "no", "macro.j2x": "no"})
    v = build(M, S, given[3], [], {"providers": ["pr"], "paths": ["t", "u"]})
    final = {}
    for g in given:
        final.update(g)
    subtype = S.str("subtype", 1, "sx")
    tags = [S.str("tag", 1, "tx")] if S.choice("tagged", [0, 1]) else []
    node = make(M, cls, "macro", "n", subtype, tags)
    kd, r = attempt(M, v.visit, node)
    S.obs(r if kd == "ok" else r.text)
    want = None
    for name, ok in (("macro.s.j2", subtype == "s"), ("macro.tg_t.j2", S.any(*[x == "t" for x in tags]) if tags else False), ("macro.j2", True)):
        if want is None and name in final and S.all(ok):
            want = final[name]
    S.equal("template used", r if kd == "ok" else None, want)


def folders(M, S):
    """Several folders and providers: later ones count; folders in folders, absolute paths, a preprocessing function."""
    cls = classes(M)
    J = M("mau.visitors.jinja_visitor")
    n = S.params["n"]
    spots = ["p0", "p1", "f0", "f1", "c"]
    names = {"macro.j2": ["macro.j2"], "macro.s.j2": ["macro.s.j2", "macro/s.j2"], "macro.s.tg_t.j2": ["macro.s.tg_t.j2", "macro/s.tg_t.j2", "macro/s/tg_t.j2"]}
    given = {k: {} for k in spots}
    files = {"f0/macro.txt": "no", "f0/macro/s.html": "no", "f1/macro/readme": "no", "f1/e/x": "no"}
    pre = S.choice("preprocess", [False, True])
    last = -1
    for i in range(n):
        where = S.choice("where%d" % i, spots)
        what = S.choice("what%d" % i, list(names))
        code = spots.index(where) * 3 + list(names).index(what)
        S.assume(code > last)
        last = code
        given[where][what] = "T%d" % i
        if where[0] == "f":
            files[where + "/" + S.choice("file%d" % i, names[what])] = "T%d" % i
            if pre:
                given[where][what] = "preT%d" % i
    S.files(files)

    class P0:
        templates = given["p0"]

    class P1:
        templates = given["p1"]

    S.patch(J, "_load_available_template_providers", lambda: {"one": P0, "two": P1})
    if pre:
        S.patch(J.JinjaVisitor, "templates_preprocess", lambda text: "pre" + text)
    paths = ["f0", "f1"]
    if pre:
        paths[1] = os.path.abspath("f1")
    order = S.choice("order", [[0, 1], [1, 0]])
    v = build(M, S, given["c"], [], {"providers": [["one", "two"][i] for i in order], "paths": [paths[i] for i in order]})
    final = {}
    for g in [["p0", "p1"][i] for i in order] + [["f0", "f1"][i] for i in order] + ["c"]:
        final.update(given[g])
    subtype = S.str("subtype", 1, "sx")
    tags = [S.str("tag", 1, "tx")]
    node = make(M, cls, "macro", "n", subtype, tags)
    kd, r = attempt(M, v.visit, node)
    S.obs(r if kd == "ok" else r.text)
    want = None
    for name, ok in (("macro.s.tg_t.j2", S.all(subtype == "s", tags[0] == "t")), ("macro.s.j2", subtype == "s"), ("macro.j2", True)):
        if want is None and name in final and S.all(ok):
            want = final[name]
    S.equal("template used", r if kd == "ok" else None, want)


def listing(M, S):
    """Which of two equally specific templates is used does not depend on how the system lists the folder."""
    cls = classes(M)
    pool = ["macro.tg_a.j2", "macro.tg_b.j2", "macro/tg_c.j2", "macro.s.j2", "macro.x.j2", "macro.pt_style.j2", "macro.pt_block.j2"]
    pick = [S.choice("t%d" % i, range(len(pool))) for i in range(2)]
    S.assume(pick[0] < pick[1])
    S.files({"t/" + pool[i]: "T%d" % i for i in pick})
    listed = pathlib.Path.iterdir
    sub, tags, up = S.choice("subtype", [None, "s", "x"]), [S.str("tag0", 1, "abc"), S.str("tag1", 1, "abc")], S.choice("parent", ["style", "block"])
    node = make(M, cls, "macro", "n", sub, tags, make(M, cls, up, "star"))
    got = []
    for flip in (False, True):
        S.patch(pathlib.Path, "iterdir", lambda self: iter(sorted(listed(self), reverse=flip)))
        v = build(M, S, {}, [], {"paths": ["t"]})
        kd, r = attempt(M, v.visit, node)
        got.append(r if kd == "ok" else r.text)
        S.patch(pathlib.Path, "iterdir", listed)
    S.obs(got)
    S.equal("template used", got[1], got[0])


def cases(tier):
    deep = tier != "quick"
    every = [None, "style", "block"]
    types = ["macro", "style", "label", "include", "blockgroup", "blockgroup-item", "text", "header"]
    out = [("match1", match, dict(n=1, types=types, chars=1, parents=every, wrong=True)),
           ("match1b", match, dict(n=1, types=["macro", "text"], chars=2, parents=["label"], wrong=False)),
           ("match2", match, dict(n=2, types=["macro", "block"], chars=1, parents=every, wrong=False)),
           ("match3", match, dict(n=3, types=["macro"], chars=1, parents=["style"], wrong=False)),
           ("decode1", decode, dict(n=2, all=deep, sets=[["subtype", "prefix", "tag", "field"], ["parent", "parent subtype", "parent field"], ["field", "parent field", "subtype"]])),
           ("decode2", decode, dict(n=1, all=True, sets=[["subtype", "prefix", "parent", "tag"], ["parent subtype", "tag", "field", "parent field"]])),
           ("select1", select, dict(n=1, all=True)), ("select2", select, dict(n=2, all=True)),
           ("sources", sources, dict(n=3 if deep else 2, names=4)),
           ("tags3", tags, dict(n=3, m=3)), ("tags4", tags, dict(n=4, m=2)),
           ("folders", folders, dict(n=3 if deep else 2)), ("listing", listing, {})]
    if deep:
        out += [("match4", match, dict(n=4, types=["macro"], chars=1, parents=["style"], wrong=False)), ("match5", match, dict(n=3, types=["label", "block"], chars=2, parents=every, wrong=False)),
                ("select3", select, dict(n=3, all=True))]
    else:
        out.append(("select3", select, dict(n=3, all=False, pool=[1, 2, 4, 7, 8, 9, 12, 14])))
    return out
