"""C08 The environment is a faithful dotted-key store."""

BOUNDS = {"quick": "every history of up to 2 writes or merges out of 10 kinds (one key symbolic over all dotted names of up to 3 "
                   "characters, symbolic values), read back through every access with a symbolic key",
          "thorough": "histories of up to 3 operations with two symbolic keys"}
OUTSIDE = "empty name parts, keys that are no strings"

KEY = "ab."


def key(S, name, n):
    """A dotted name: letters separated by single dots."""
    k = S.str(name, n, KEY)
    S.assume(k[0] != ".")
    S.assume(k[n - 1] != ".")
    for i in range(n - 1):
        if k[i] == ".":
            S.assume(k[i + 1] != ".")
    return k


def put(model, k, v):
    for e in model:
        if e[0] == k:
            e[1] = v
            return
    model.append([k, v])


def has(model, k):
    for e in model:
        if e[0] == k:
            return True
    return False


def under(model, k):
    p = k + "."
    return [[e[0][len(p):], e[1]] for e in model if e[0].startswith(p)]


def flatten(d, prefix=""):
    out = []
    for k in d:
        v = d[k]
        if isinstance(v, dict):
            out.extend(flatten(v, prefix + k + "."))
        else:
            out.append([prefix + k, v])
    return out


def nested(model):
    """The nested view: a part of a name is a namespace unless it is a value itself."""
    out = {}
    for k, v in model:
        parts = k.split(".")
        if any(has(model, ".".join(parts[:i])) for i in range(1, len(parts))):
            out[k] = v
            continue
        d = out
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = v
    return out


def same_set(S, label, got, want):
    """Two lists of pairs are the same up to their order."""
    S.obs([g[1] for g in got])
    S.equal(label + ": number of entries", len(got), len(want))
    for k, v in want:
        found = [g[1] for g in got if g[0] == k]
        S.equal(label, found, [v])


def items(d):
    return [[k, d[k]] for k in d]


def build(M, pairs):
    e = M("mau.environment.environment").Environment()
    for k, v in pairs:
        e[k] = v
    return e


def apply(M, S, env, model, op, k, v, i):
    """One operation on the real environment and on the model."""
    E = M("mau.environment.environment").Environment
    if op == "set":
        env[k] = v
        put(model, k, v)
    elif op == "set nested":
        env[k] = {"a": v, "b": {"a": "n"}}
        put(model, k + ".a", v)
        put(model, k + ".b.a", "n")
    elif op == "set dotted":
        env["a"] = {k: v}
        put(model, "a." + k, v)
    elif op == "dupdate":
        env.dupdate({k: v, "b": "d"})
        put(model, k, v)
        put(model, "b", "d")
    elif op == "dupdate both":
        S.assume(S.all(k != "a", k != "b"))
        env.dupdate({"a": {"b": "x"}, k: v, "b": {"a": "d"}})
        put(model, "a.b", "x")
        put(model, k, v)
        put(model, "b.a", "d")
    elif op == "dupdate ns":
        env.dupdate({"a": v}, k)
        put(model, k + ".a", v)
    elif op == "update":
        env.update(E.from_dict({k: v}))
        put(model, k, v)
    elif op == "update ns":
        env.update(E.from_dict({"a": v, "b.b": "u"}), k)
        put(model, k + ".a", v)
        put(model, k + ".b.b", "u")
    elif op == "keep":
        env.update(E.from_dict({k: v, "b": "k"}), overwrite=False)
        if not has(model, k):
            put(model, k, v)
            # within one merge the last writing counts
            if k == "b":
                put(model, "b", "k")
        if not has(model, "b"):
            put(model, "b", "k")
    elif op == "keep ns":
        env.update(E.from_dict({"a": v}), k, overwrite=False)
        if not has(model, k + ".a"):
            put(model, k + ".a", v)


OPS = ["set", "set nested", "set dotted", "dupdate", "dupdate both", "dupdate ns", "update", "update ns", "keep", "keep ns"]


def read(S, env, model, k):
    """Every access under one key."""
    missing = object()
    got = env.get(k, missing)
    try:
        item = env[k]
        present = True
    except KeyError:
        present = False
    S.equal("key presence", present, has(model, k))
    if has(model, k):
        S.reach("value")
        want = [e[1] for e in model if e[0] == k][0]
        S.obs(item)
        S.equal("value by square brackets", item, want)
        S.equal("value by get", got, want)
        return
    sub = under(model, k)
    if sub:
        S.reach("namespace")
        S.check("a namespace is an environment", hasattr(got, "asflatdict"))
        same_set(S, "keys of a namespace", items(got.asflatdict()), sub)
        return
    S.reach("absent")
    S.check("an absent key gives the default", got is missing)
    S.check("the default of get is None", env.get(k) is None)


def same_tree(S, label, got, want):
    """Two nested dictionaries are the same up to their order."""
    same_set(S, label, [[k, None] for k in got], [[k, None] for k in want])
    for k in want:
        g = [got[x] for x in got if x == k][0]
        S.equal(label + ": namespaces", isinstance(g, dict), isinstance(want[k], dict))
        if isinstance(g, dict):
            same_tree(S, label, g, want[k])
        else:
            S.equal(label + ": values", g, want[k])


def views(S, env, model):
    same_set(S, "flat view", items(env.asflatdict()), model)
    got = env.asdict()
    same_set(S, "nested view", flatten(got), model)
    same_tree(S, "shape of the nested view", got, nested(model))


def history(M, S):
    """Any sequence of operations; every access afterwards."""
    keys, model = [], []
    start = S.params["start"]
    env = build(M, start)
    for k, v in start:
        put(model, k, v)
    for i in range(S.params["ops"]):
        # reading in between changes nothing, nor does a change of the nested view
        d = env.asdict()
        for x in list(d):
            if isinstance(d[x], dict):
                d[x]["z"] = "1"
        d["z"] = "1"
        env.get("a")
        env.get("b")
        if i == S.params["at"] or S.params["at"] is None:
            k = key(S, "k%d" % i, S.params["n"][i % len(S.params["n"])])
        else:
            k = S.choice("k%d" % i, ["a", "a.b", "b.a", "ab"])
        v = S.str("v%d" % i, 1, "all")
        apply(M, S, env, model, S.choice("op%d" % i, OPS), k, v, i)
    d = env.asdict()
    for x in list(d):
        if isinstance(d[x], dict):
            d[x]["z"] = "1"
        else:
            d[x] = "1"
    d["z"] = "1"
    how = S.choice("how", ["read", "views"])
    if how == "read":
        read(S, env, model, key(S, "q", S.params["q"]))
    else:
        views(S, env, model)


def copies(M, S):
    """A copy has the same data and shares no later change."""
    E = M("mau.environment.environment").Environment
    k, v = key(S, "k", S.params["n"]), S.str("v", 1, "all")
    model = [["a", "1"], ["b.a", "2"]] if S.params["m"] > 1 else [["a", "1"]]
    env = build(M, [tuple(e) for e in model])
    put(model, k, v)
    env[k] = v
    how = S.choice("how", ["from_environment", "namespace", "update", "keep", "from_dict", "dupdate", "get"])
    prefix = ""
    if how == "from_environment":
        other = E.from_environment(env)
    elif how == "namespace":
        other = E.from_environment(env, "ns")
        prefix = "ns."
    elif how == "update":
        other = E()
        other.update(env)
    elif how == "keep":
        other = E()
        other.update(env, overwrite=False)
    elif how == "from_dict":
        other = E.from_dict(env.asdict())
    elif how == "dupdate":
        other = E()
        other.dupdate(env.asdict())
    else:
        S.assume(S.all(k != "b", has(model, "b.a")))
        other = env.get("b")
    want = under(model, "b") if how == "get" else [[prefix + a, b] for a, b in model]
    same_set(S, "copy", items(other.asflatdict()), want)
    l, w = key(S, "l", S.params["m"]), S.str("w", 1, "all")
    if S.choice("side", ["copy", "original"]) == "copy":
        other[l] = w
        same_set(S, "the original after a change of the copy", items(env.asflatdict()), model)
        put(want, l, w)
        same_set(S, "the copy after a change", items(other.asflatdict()), want)
    else:
        env[l] = w
        same_set(S, "the copy after a change of the original", items(other.asflatdict()), want)


def keep(M, S):
    """Merging without overwriting: the values already there win, whatever they are, the others are added."""
    E = M("mau.environment.environment").Environment
    a = key(S, "a", S.params["n"])
    b = key(S, "b", S.params["m"])
    va, vb = S.choice("va", ["", "x", None, False]), S.str("vb", 1, "all")
    env, other = build(M, [("a", "1"), (a, va)]), build(M, [("b.a", "2"), (b, vb)])
    theirs = []
    put(theirs, "b.a", "2")
    put(theirs, b, vb)
    model = []
    put(model, "a", "1")
    put(model, a, va)
    for k, v in theirs:
        if not has(model, k):
            put(model, k, v)
    env.update(other, overwrite=S.choice("o", [False]))
    same_set(S, "merge without overwriting", items(env.asflatdict()), model)
    same_set(S, "the merged environment", items(other.asflatdict()), theirs)


def empty(M, S):
    """An empty namespace is kept and hides nothing."""
    k = key(S, "k", S.params["n"])
    env = build(M, [("a.b", "1")])
    env[k] = {}
    order = S.choice("o", ["before", "after"])
    if order == "after":
        env[k + ".a"] = "2"
    q = env.get(k)
    S.check("an empty namespace is a namespace", hasattr(q, "asflatdict") or k == "a.b")
    if k == "a.b":
        S.equal("emptied key", [e for e in items(env.asflatdict()) if e[0] == "a.b"], [["a.b", {}]])
        return
    want = ([["b", "1"]] if k == "a" else []) + ([["a", "2"]] if order == "after" else [])
    same_set(S, "keys of an empty namespace", [e for e in items(q.asflatdict())], want)
    same_tree(S, "nested view of an empty namespace", env.asdict(),
              nested([["a.b", "1"]] + ([[k + ".a", "2"]] if order == "after" else [[k, {}]] if k != "a" else [])))


def helpers(M, S):
    """Flattening and nesting are inverse to each other."""
    H = M("mau.environment.helpers")
    a, b = key(S, "a", S.params["n"]), key(S, "b", S.params["m"])
    v, w = S.str("v", 1, "all"), S.str("w", 1, "all")
    flat = {}
    flat[a] = v
    flat[b] = w
    model = []
    put(model, a, v)
    put(model, b, w)
    got = H.nest_flattened_dict(flat)
    same_tree(S, "nested form", got, nested(model))
    same_set(S, "flattened again", items(H.flatten_nested_dict(got)), model)
    same_set(S, "the input is left alone", items(flat), model)


VALUES = [None, False, True, 0, 1, "", "x", [], ["x"], 0.0]


def kinds(M, S):
    """A value of any kind is a value: it is read, listed and copied like any other."""
    E = M("mau.environment.environment").Environment
    H = M("mau.environment.helpers")
    v = S.choice("v", VALUES)
    k = key(S, "k", S.params["n"])
    l = S.choice("l", ["a", "a.b", "b"])
    pairs = [(k, v), (l, "1")] if S.choice("first", [True, False]) else [(l, "1"), (k, v)]
    model = []
    for a, b in pairs:
        put(model, a, b)
    how = S.choice("how", ["write", "from_dict", "dupdate", "nested", "namespace", "update", "keep", "copy"])
    prefix = ""
    if how == "write":
        env = build(M, pairs)
    elif how == "from_dict":
        env = E.from_dict(dict(pairs))
    elif how == "dupdate":
        env = E()
        env.dupdate(dict(pairs))
    elif how == "nested":
        env = E.from_dict(H.nest_flattened_dict(dict(pairs)))
    elif how == "namespace":
        env = E.from_dict(dict(pairs), "ns")
        prefix = "ns."
    elif how == "copy":
        env = E.from_environment(build(M, pairs))
    else:
        env = E()
        env.update(build(M, pairs), overwrite=how == "update")
    model = [[prefix + a, b] for a, b in model]
    if S.choice("see", ["read", "views"]) == "read":
        read(S, env, model, prefix + key(S, "q", S.params["q"]))
    else:
        views(S, env, model)


def many(M, S):
    """As many keys, and as deep, as one likes."""
    E = M("mau.environment.environment").Environment
    n = S.params["n"]
    shape = S.choice("shape", ["flat", "deep", "comb", "wide"])
    names = {"flat": ["k%d" % i for i in range(n)], "deep": [".".join(["a"] * i + ["b"]) for i in range(n)],
             "comb": ["k%d.k%d.x" % (i % 3, i) for i in range(n)], "wide": ["a.b.k%d" % i for i in range(n)]}[shape]
    at = S.choice("at", [0, 9, 10, n - 1])
    k, v = key(S, "k", S.params["k"]), S.str("v", 1, "all")
    model, pairs = [], [(x, "v%d" % i) for i, x in enumerate(names)]
    pairs.insert(at, (k, v))
    for a, b in pairs:
        put(model, a, b)
    how = S.choice("how", ["write", "from_dict", "update", "keep", "copy"])
    if how == "write":
        env = build(M, pairs)
    elif how == "from_dict":
        env = E.from_dict(dict(pairs))
    elif how == "copy":
        env = E.from_environment(build(M, pairs))
    else:
        env = E()
        env.update(build(M, pairs), overwrite=how == "update")
    views(S, env, model)
    for q in (names[at], names[-1], "a", "a.a", "k1"):
        read(S, env, model, q)


def cases(tier):
    deep = tier != "quick"
    out = []
    base = [("a", "1"), ("b.a", "2")]
    for n in (1, 2, 3):
        for q in (1, 2, 3):
            out.append(("one:%d%d" % (n, q), history, dict(ops=1, at=0, n=[n], q=q, start=base)))
    for at in (0, 1):
        for n in (1, 3) if not deep else (1, 2, 3):
            for q in (1, 3):
                out.append(("two:%d:%d%d" % (at, n, q), history, dict(ops=2, at=at, n=[n], q=q, start=[("a.b", "1")])))
    if deep:
        for at in (0, 1, 2):
            out.append(("three:%d" % at, history, dict(ops=3, at=at, n=[3], q=3, start=[])))
        for n in ([1, 3], [3, 1], [3, 3], [1, 1]):
            out.append(("free:%s" % n, history, dict(ops=2, at=None, n=n, q=3, start=[("a", "1")])))
    for i, start in enumerate(([], [("a", "1")], [("a", "1"), ("b", "2")])):
        out.append(("flat:%d" % i, history, dict(ops=2 if deep else 1, at=0, n=[1], q=1, start=start)))
    for n in (1, 3):
        for m in (1, 3):
            out.append(("copies:%d%d" % (n, m), copies, dict(n=n, m=m)))
            out.append(("keep:%d%d" % (n, m), keep, dict(n=n, m=m)))
            out.append(("helpers:%d%d" % (n, m), helpers, dict(n=n, m=m)))
    for n in (1, 3):
        for q in (1, 3):
            out.append(("kinds:%d%d" % (n, q), kinds, dict(n=n, q=q)))
    out += [("many%d" % k, many, dict(n=40 if deep else 12, k=k)) for k in (1, 3)]
    out += [("empty:%d" % n, empty, dict(n=n)) for n in (1, 2, 3)]
    out += [("helpers:5%d" % m, helpers, dict(n=5, m=m)) for m in (1, 3, 5)]
    return out
