"""C09 Argument lists are parsed by one unambiguous grammar."""
from harness.common import SRC, args_of, attempt, handler, new_env, parse

BOUNDS = {"quick": "every argument text of up to 5 characters; every list of up to 3 arguments out of 9 kinds with symbolic "
                   "content; every set of up to 3 unnamed and 2 named arguments under up to 3 positional names",
          "thorough": "texts of up to 7 characters, lists of up to 4 arguments"}
OUTSIDE = "alias definitions that are not dictionaries; variables in arguments (C07)"

ALIASES = {"source": {"args": {"engine": "source"}, "names": ["language"]},
           "al": {"args": {"k": "dk", "j": "dj"}, "names": ["n", "k", "m"], "subtype": "st"},
           "bare": {"names": ["p"]}, "only": {"subtype": "os"}}


class Bad(Exception):
    pass


def value(text, i, stop):
    """The characters up to an unescaped stop, and the place of the stop (or the end)."""
    out = ""
    n = len(text)
    while i < n and text[i] != stop:
        if text[i] == "\\":
            i += 1
            if i == n:
                out = out + "\\"
            else:
                if text[i] != stop:
                    out = out + "\\"
                out = out + text[i]
                i += 1
        else:
            out = out + text[i]
            i += 1
    return out, min(i, n)


def grammar(text):
    """The unnamed and named arguments of a text."""
    unnamed, named = [], []
    while len(text) and text[-1] == " ":
        text = text[:-1]
    i, n = 0, len(text)
    while i < n:
        j = i
        while j < n and text[j] not in '\\=," ':
            j += 1
        k = None
        if i < j < n and text[j] == "=":
            key = text[i:j]
            if j + 1 < n and text[j + 1] == '"':
                v, k = value(text, j + 2, '"')
                k = k + 1 if k < n else None
            else:
                v, k = value(text, j + 1, ",")
        if k is not None:
            for e in named:
                if e[0] == key:
                    e[1] = v.strip()
                    break
            else:
                named.append([key, v.strip()])
        else:
            if named:
                raise Bad("Unnamed arguments after named arguments are forbidden.")
            if text[i] == '"':
                v, k = value(text, i + 1, '"')
                if k == n:
                    raise Bad("Cannot parse token.")
                k += 1
            else:
                v, k = value(text, i, ",")
            unnamed.append(v)
        i = k
        if i < n and text[i] == ",":
            i += 1
        while i < n and text[i] == " ":
            i += 1
    return unnamed, named


def expand(unnamed, named, aliases):
    """Prefixes and aliases: [unnamed, named, tags, internal tags, subtype]."""
    rest, tags, internal, subtypes, alias = [], [], [], [], []
    for u in unnamed:
        if u.startswith("#mau:"):
            internal.append(u[5:])
        elif u.startswith("#"):
            tags.append(u[1:])
        elif u.startswith("*"):
            subtypes.append(u[1:])
        elif u.startswith("@"):
            alias.append(u[1:])
        else:
            rest.append(u)
    if len(subtypes) > 1:
        raise Bad("Multiple nodes with prefix '*' detected.")
    if len(alias) > 1:
        raise Bad("Multiple nodes with prefix '@' detected.")
    subtype = subtypes[0] if subtypes else None
    if alias:
        for name in aliases:
            if alias[0] == name:
                break
        else:
            raise Bad("Alias '" + alias[0] + "' ")
        a = aliases[name]
        for k in a.get("args", {}):
            if not any(e[0] == k for e in named):
                named.append([k, a["args"][k]])
        for k in a.get("names", []):
            if rest and not any(e[0] == k for e in named):
                named.append([k, rest.pop(0)])
        if subtype is None and "subtype" in a or subtype == "" and "subtype" in a and not subtypes:
            subtype = a["subtype"]
    return [rest, named, tags, internal, subtype]


def run(M, text):
    P = M("mau.parsers.arguments_parser").ArgumentsParser
    return P.lex_and_parse(text, handler(M), new_env(M, {"mau": {"parser": {"aliases": ALIASES}}}), source_filename=SRC)


def show(a):
    return [list(a.unnamed_args), [[k, a.named_args[k]] for k in a.named_args], list(a.tags), list(a.internal_tags), a.subtype]


def compare(S, got, want):
    S.obs(got)
    S.equal("unnamed arguments", got[0], want[0])
    S.equal("number of named arguments", len(got[1]), len(want[1]))
    for k, v in want[1]:
        S.equal("named argument", [e[1] for e in got[1] if e[0] == k], [v])
    S.equal("tags, internal tags and subtype", got[2:], want[2:])


def decide(M, S, text):
    kind, p = attempt(M, run, M, text)
    try:
        want = expand(*grammar(text), ALIASES)
    except Bad as e:
        S.reach("error")
        S.check("a malformed list is an error", kind == "error", text)
        S.check("the error tells what is wrong", p.text.startswith(e.args[0]), p.text)
        return
    if kind == "error":
        S.fail("a well formed list is an error", p.text)
    got = show(p.arguments)
    if want[0]:
        S.reach("unnamed")
    if want[1]:
        S.reach("named")
    compare(S, got, want)


def any_text(M, S):
    """Any text."""
    text = S.params["pre"] + S.str("t", S.params["n"]) + S.params["post"]
    # nothing but spaces: no list at all
    S.assume(text == "" or text.strip(" ") != "")
    decide(M, S, text)


WORD = "-\\=,\"# *@"


def item(S, i, n, few=False):
    """One argument of a chosen kind with symbolic content: the text, and what it means."""
    k = S.choice("k%d" % i, ["unnamed", "quoted", "named", "named quoted", "tag", "internal", "subtype", "alias", "spaced"])
    if few:
        S.assume(k not in ("spaced", "quoted", "named quoted"))
    if k == "unnamed":
        w = S.str("w%d" % i, n, WORD)
        return k, w, w
    if k == "quoted":
        w = S.str("w%d" % i, n, "-\\\"#*@")
        return "unnamed", '"' + w + '"', w
    if k == "named":
        w = S.str("w%d" % i, n, "-\\,")
        S.assume(w[0] != '"')
        key = S.choice("n%d" % i, ["k", "k2", "j"] if not few else ["k", "z"])
        return k, key + "=" + w, [key, w.strip()]
    if k == "named quoted":
        w = S.str("w%d" % i, n, "-\\\"")
        return "named", 'k="' + w + '"', ["k", w.strip()]
    if k == "tag":
        w = S.str("w%d" % i, n, "-\\, \"=")
        S.assume(not w.startswith("mau:"))
        return k, "#" + w, w
    if k == "internal":
        w = S.str("w%d" % i, n, "-\\, \"=")
        return k, "#mau:" + w, w
    if k == "subtype":
        w = S.str("w%d" % i, n, "-\\, \"=")
        return k, "*" + w, w
    if k == "alias":
        a = S.choice("a%d" % i, ["al", "bare", "only", "source"] if not few else ["al", "only"])
        return k, "@" + a, a
    w = S.str("w%d" % i, n, WORD)
    return "unnamed", w + " " + w, w + " " + w


def listing(M, S):
    """Any list of arguments, joined with commas and spaces."""
    parts = [item(S, i, n, len(S.params["n"]) > 2) for i, n in enumerate(S.params["n"])]
    text = S.choice("sep", [",", ", ", ",  "] if len(parts) < 3 else [", "]).join([p[1] for p in parts])
    kind, p = attempt(M, run, M, text)
    seen_named = False
    err = None
    unnamed, named, tags, internal, subtypes, aliases = [], [], [], [], [], []
    for k, _, v in parts:
        if k == "named":
            seen_named = True
            for e in named:
                if e[0] == v[0]:
                    e[1] = v[1]
                    break
            else:
                named.append(v)
            continue
        if seen_named:
            err = "Unnamed arguments after named arguments are forbidden."
            break
        dict(unnamed=unnamed, tag=tags, internal=internal, subtype=subtypes, alias=aliases)[k].append(v)
    if err is None and len(subtypes) > 1:
        err = "Multiple nodes with prefix '*' detected."
    if err is None and len(aliases) > 1:
        err = "Multiple nodes with prefix '@' detected."
    if err is not None:
        S.reach("error")
        S.check("a malformed list is an error", kind == "error", text)
        S.equal("error", p.text, err)
        return
    if kind == "error":
        S.fail("a well formed list is an error", p.text)
    subtype = subtypes[0] if subtypes else None
    if aliases:
        S.reach("alias")
        a = ALIASES[aliases[0]]
        for k in a.get("args", {}):
            if not any(e[0] == k for e in named):
                named.append([k, a["args"][k]])
        for k in a.get("names", []):
            if unnamed and not any(e[0] == k for e in named):
                named.append([k, unnamed.pop(0)])
        if subtype is None:
            subtype = a.get("subtype")
    compare(S, show(p.arguments), [unnamed, named, tags, internal, subtype])


def document(M, S):
    """The same list in front of a node."""
    parts = [item(S, i, n) for i, n in enumerate(S.params["n"])]
    for k, t, _ in parts:
        for c in t:
            S.assume(S.all(*[c != x for x in "\\{}`]"]))
    text = ", ".join([p[1] for p in parts])
    a, p = attempt(M, run, M, text)
    env = {"mau": {"parser": {"aliases": ALIASES}}}
    b, q = attempt(M, parse, M, "[" + text + "]\n---", env)
    S.equal("the outcome in a document", b, a)
    if a == "ok":
        S.obs(args_of(q.nodes[0]))
        S.equal("the arguments of the node", show(q.nodes[0].arguments), show(p.arguments))


def positional(M, S):
    """Positional names, given to unnamed arguments in order, never override explicit ones."""
    NA = M("mau.nodes.node_arguments").NodeArguments
    how = S.choice("how", ["arguments", "parser"])
    u = [S.str("u%d" % i, 1, "all") for i in range(S.params["u"])]
    if u:
        hollow = S.choice("hollow", [None] + list(range(len(u))))
        if hollow is not None:
            u[hollow] = ""
    names = ["a", "b", "c"][:S.params["names"]]
    named = []
    for i in range(S.params["named"]):
        k = S.str("k%d" % i, 1, "abcd")
        for e in named:
            S.assume(e[0] != k)
        named.append([k, S.str("v%d" % i, 1, "all")])
    d = {}
    for k, v in named:
        d[k] = v
    want_named = [list(e) for e in named]
    rest = list(u)
    for k in names:
        if rest and not any(e[0] == k for e in named):
            want_named.append([k, rest.pop(0)])
    if how == "arguments":
        a = NA(unnamed_args=list(u), named_args=d, tags=["t"], internal_tags=["i"], subtype="s")
        r = a.set_names(list(names))
        S.check("the same arguments are returned", r is a)
        got = show(a)
        want = [rest, want_named, ["t"], ["i"], "s"]
    else:
        for x in u + [e[1] for e in named]:
            if x != "":
                S.assume(S.all(*[x != c for c in '\\,"= #*@']))
                S.assume(x.strip() != "")
        p = run(M, ",".join([x if x != "" else '""' for x in u] + [k + "=" + v for k, v in named]))
        p.set_names(list(names))
        got = show(p.arguments)
        want = [rest, want_named, [], [], None]
    compare(S, got, want)


def many(M, S):
    """As many arguments as one likes."""
    n = S.params["n"]
    at = S.choice("at", [0, 1, 9, 10, n - 1])
    c = S.str("c", 2, "ab#*@=,\"\\ :")
    kind = S.choice("kind", ["plain", "tags", "named", "quoted", "mixed"])
    form = {"plain": ["u%d"], "tags": ["#t%d"], "named": ["k%d=v"], "quoted": ['"u, %d"'], "mixed": ["u%d", "#t%d", '"q=%d"']}[kind]
    parts = [form[i % len(form)] % i for i in range(n)]
    parts[at] = c + parts[at]
    decide(M, S, ", ".join(parts))


def cases(tier):
    deep = tier != "quick"
    out = [("text%d" % n, any_text, dict(n=n, pre="", post="")) for n in range(0, 8 if deep else 6)]
    for pre, post in (("a=", ""), ("a,", ",b"), ('"', '"'), ('k="', '",b'), ("a=b", ""), ("a=b,", ""), ("#", ""), ("@", ",x"),
                      ("@al,", ""), ("*", ",*c"), ('"a"', ""), ("k=1,k", ",j=2")):
        for n in (1, 3) if not deep else (1, 2, 3, 4, 5):
            out.append(("text:%s.%s%d" % (pre, post, n), any_text, dict(n=n, pre=pre, post=post)))
    for n in ([1], [2], [1, 1], [2, 1], [1, 1, 1]) if not deep else ([1], [2], [3], [2, 2], [1, 1, 1], [2, 1, 2], [1, 1, 1, 1]):
        out.append(("list%s" % n, listing, dict(n=n)))
    for n in ([1], [1, 1]) if not deep else ([1], [2], [1, 1], [2, 2]):
        out.append(("document%s" % n, document, dict(n=n)))
    for u in range(4):
        for k in range(4):
            for m in range(3):
                out.append(("positional%d%d%d" % (u, k, m), positional, dict(u=u, names=k, named=m)))
    out.append(("many", many, dict(n=40 if deep else 12)))
    return out
