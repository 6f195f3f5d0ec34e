"""C27 Macros build the node they name from their arguments."""
from harness.c09 import Bad, expand, grammar
from harness.common import SRC, args_of, attempt, dump, dumps, new_env, parse, parse_text
from harness.refs import found

BOUNDS = {"quick": "9 macros with up to 4 arguments, each positional, named or quoted, with arbitrary values of up to 2 characters (also empty ones); arbitrary text of up to 5 "
                   "characters (12 kinds) between the brackets and after them; names with an arbitrary character anywhere; text before and after",
          "thorough": "values of 3 characters, texts of 6 characters"}
OUTSIDE = "macros whose name starts with \"if\" (C28); values that start with a prefix of tags, subtypes or aliases; exotic white space around named values"

NAMES = {"link": ["target", "text"], "header": ["header_id", "text"], "mailto": ["email", "text"], "class": ["text"], "unicode": ["value"], "raw": ["value"],
         "image": ["uri", "alt_text", "width", "height"], "footnote": ["name"]}
NEEDED = {k: v[0] for k, v in NAMES.items()}


def bind(name, unnamed, named):
    """Positional values take the names that are free."""
    rest, named = list(unnamed), [list(x) for x in named]
    for k in NAMES.get(name, []):
        if rest and not any(bool(e[0] == k) for e in named):
            named.append([k, rest.pop(0)])
    return rest, named


def expected(M, name, arguments):
    """The node of a macro, or None if it is an error."""
    unnamed, named, tags, internal, subtype = arguments
    rest, named = bind(name, unnamed, named)

    def get(k):
        for e in named:
            if bool(e[0] == k):
                return e[1]

    def text(v):
        return dumps(parse_text(M, v).nodes)
    if name not in NAMES:
        return ["macro", name]
    first = get(NEEDED[name])
    if first is None:
        return None
    t = get("text")
    if name in ("link", "mailto"):
        return ["macro-link", ("mailto:" if name == "mailto" else "") + first, [["text", first]] if t is None else text(t)]
    if name == "header":
        return ["macro-header", first, None, [] if t is None else text(t)]
    if name == "class":
        return ["macro-class", list(rest), text(first)]
    if name == "image":
        return ["macro-image", first, get("alt_text"), get("width"), get("height")]
    if name == "footnote":
        return ["macro-footnote", first, None]
    return ["macro-" + name, first]


def show_args(a):
    return [list(a.unnamed_args), [[k, a.named_args[k]] for k in a.named_args], list(a.tags), list(a.internal_tags), a.subtype]


def check(M, S, text, name, arguments, before=None, after=None):
    """The text is the macro, with the given nodes around."""
    kd, p = attempt(M, parse_text, M, text)
    want = expected(M, name, arguments) if arguments is not None else None
    if want is None:
        S.reach("error")
        S.check("a mandatory argument is missing or the list is malformed", kd == "error", text)
        return
    if kd == "error":
        S.fail("a complete macro is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.reach(want[0])
    S.equal("nodes", got, (before or []) + [want] + (after or []))
    node = p.nodes[len(before or [])]
    if want[0] == "macro":
        a, b = show_args(node.arguments), arguments
        S.equal("unnamed arguments", a[0], b[0])
        S.equal("named arguments", [a[1]], [b[1]])
        S.equal("other arguments", a[2:], b[2:])
    else:
        S.equal("arguments belong to the macro", show_args(node.arguments), [[], [], [], [], None])
    for lst, kind in ((p.header_links, "macro-header"), (p.footnote_macros, "macro-footnote")):
        S.check("references are known", sorted(id(x) for x in lst) == sorted(id(x) for x in found(p.nodes, kind)), kind)


WHITE = " \t\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000" + "".join(map(chr, range(0x2000, 0x200b)))
PLAIN = "-,)\"\\=#*@" + WHITE
INNER = "-\"\\"


def built(M, S):
    """Every macro with every way to give each of its values."""
    name = S.choice("macro", S.params["macros"])
    names = NAMES.get(name, ["j", "k"])
    text, unnamed, named = "", [], []
    n = S.choice("arguments", S.params["sizes"])
    for i in range(n):
        how = S.choice("how%d" % i, S.params["hows"])
        if how.startswith("named"):
            k = S.choice("name%d" % i, names + ["other"])
            S.assume(not any(e[0] == k for e in named))
            pre = k + "="
        else:
            S.assume(not named)
            pre = ""
        if how.endswith("quoted"):
            v = S.str("q%d" % i, S.choice("size%d" % i, [0, 1]) if S.params["n"] == "any" else S.params["n"], INNER)
            if pre:
                S.assume(S.all(v == v.strip()))
            elif len(v):
                S.assume(S.no(v.startswith("#")))
                S.assume(S.no(v.startswith("*")))
                S.assume(S.no(v.startswith("@")))
            src = "\"" + v + "\""
        else:
            v = S.str("v%d" % i, S.choice("size%d" % i, [0, 1]) if S.params["n"] == "any" and pre else 1 if S.params["n"] == "any" else S.params["n"], PLAIN)
            src = v
        if pre:
            named.append([k, v])
        else:
            unnamed.append(v)
        text = text + (S.params["sep"] if i else "") + pre + src
    check(M, S, "[" + name + "](" + text + ")", name, [unnamed, named, [], [], None])


HEADS = ["mailto:", "MAILTO:", "http://", "//", "www.", "U+", "u", "0x", "&#", "&amp;", "<b>", "/", "./", "../", "~/", ".", "text", "None", "0", "http://a.b/?q", "a@b.", "x-"]


def shaped(M, S):
    """Values that look like something: they are kept as they are."""
    name = S.choice("macro", S.params["macros"])
    head = S.choice("head", HEADS)
    c = S.str("c", S.params["n"], "-,)\"\\=#*@ " + WHITE + "`{}%$_^~[]")
    way = S.choice("way", ["plain", "quoted", "named", "second"])
    v = head + c
    if S.choice("turned", [False, True]):
        v = c + head
    src = v
    k = NEEDED.get(name, "k")
    if way == "second":
        unnamed, named, text = ["a", v], [], "a, \"" + src + "\""
    elif way == "named":
        unnamed, named, text = [], [[k, v]], k + "=" + src
    else:
        unnamed, named, text = [v], [], src if way == "plain" else "\"" + src + "\""
    try:
        S.equal("the arguments", expand(*grammar(text), {}), [unnamed, named, [], [], None])
    except Bad:
        S.fail("the arguments", text)
    check(M, S, "[" + name + "](" + text + ")", name, [unnamed, named, [], [], None])


def between(text):
    """The argument text up to the closing bracket, and its end (None: there is none)."""
    out, i, n = "", 0, len(text)
    while i < n and text[i] != ")":
        if text[i] == "\"":
            t = out.rstrip()
            if not len(t) or (t[-1] == "," or t[-1] == "=") and not (len(t) > 1 and t[-2] == "\\"):
                j = i + 1
                while j < n and text[j] != "\"":
                    j += 2 if text[j] == "\\" else 1
                if j >= n:
                    return None, None
                out = out + text[i:j + 1]
                i = j + 1
                continue
        if text[i] == "\\" and i + 1 < n:
            if text[i + 1] != ")":
                out = out + "\\"
            i += 1
        out = out + text[i]
        i += 1
    return (out, i + 1) if i < n else (None, None)


def free(M, S):
    """Any text after the opening bracket: a macro, or ordinary text."""
    name = S.choice("macro", S.params["macros"])
    text = S.params.get("pre", "") + S.str("s", S.params["n"], S.params["dom"]) + S.params.get("post", "")
    args, end = between(text)
    full = "[" + name + "](" + text
    if args is None:
        S.reach("not a macro")
        S.equal("ordinary text", outcome(M, full), outcome(M, "\\" + full))
        S.obs(outcome(M, full))
        return
    # nothing but spaces: no list at all (as in C09)
    S.assume(args == "" or args.strip(" ") != "")
    # trailing spaces are dropped (C05)
    S.assume(text == "" or text[-1] != " ")
    try:
        arguments = expand(*grammar(args), {})
    except Bad:
        arguments = None
    kd, rest = attempt(M, parse_text, M, text[end:])
    S.assume(kd == "ok")
    check(M, S, full, name, arguments, [], dumps(rest.nodes))


def outcome(M, text):
    kd, p = attempt(M, parse_text, M, text)
    return ["error", p.text] if kd == "error" else ["ok", dumps(p.nodes)]


def names(M, S):
    """The name alone decides; what is not a name or has no brackets is text."""
    base = S.choice("base", S.params["bases"])
    i = S.choice("place", range(len(base) + 1))
    how = S.choice("how", ["insert", "replace", "remove"])
    c = S.str("c", 1, "abdegiklmnortuwx_-.:/ A]")
    if how != "insert":
        S.assume(i < len(base))
    name = base[:i] + (c if how != "remove" else "") + (base[i + 1:] if how != "insert" else base[i:])
    S.assume(S.no(name.startswith("if")))
    full = "[" + name + "](a, \"b c\")"
    text = not len(name) or any(x in " ]_" for x in name)
    if text:
        S.reach("not a name")
        kd, p = attempt(M, parse_text, M, full)
        S.check("ordinary text", kd == "ok" and not any(x.type.startswith("macro") for x in p.nodes), full)
        S.equal("same as escaped", outcome(M, full), outcome(M, "\\" + full))
        return
    for k in NAMES:
        if name == k:
            name = k
            break
    check(M, S, full, name, [["a", "b c"], [], [], [], None])


def around(M, S):
    """Macros next to each other and to text."""
    a, b = S.str("a", 1, "-~^_*`()[]\"\\$% "), S.str("b", 1, "-~^_*`()[]\"\\$% ")
    one, two = S.choice("one", S.params["macros"]), S.choice("two", S.params["macros"])
    v = S.str("v", 1, "abXYZ019")
    way = S.choice("way", ["text", "adjacent", "style", "brackets"])
    t1, t2 = "[" + one + "](" + v + ")", "[" + two + "](\"" + v + "\", " + v + ")"
    n1, n2 = expected(M, one, [[v], [], [], [], None]), expected(M, two, [[v, v], [], [], [], None])
    text = {"text": a + t1 + b + t2 + a, "adjacent": t1 + t2, "style": "*" + t1 + "*" + b + "_" + t2 + a + "_", "brackets": "[" + a + "]" + t1 + "(" + t2 + ")"}[way]
    want = {"text": [["text", a], n1, ["text", b], n2, ["text", a]], "adjacent": [n1, n2],
            "style": [["style", "star", [n1]], ["text", b], ["style", "underscore", [n2, ["text", a]]]],
            "brackets": [["text", "[" + a + "]"], n1, ["text", "("], n2, ["text", ")"]]}[way]
    kd, p = attempt(M, parse_text, M, text)
    S.check("well formed", kd == "ok", text)
    S.obs(dumps(p.nodes))
    S.equal("nodes", dumps(p.nodes), want)


def incomplete(M, S):
    """What is not a complete macro stays text."""
    v = S.str("v", 1, "abXYZ019")
    name = S.choice("macro", list(NAMES) + ["other"])
    t = S.choice("text", ["[§](a", "[§] (a)", "[§]a", "[§]", "[§", "[§](\"a)", "[§](a\\)", "[§]]()", "[[§](", "[](a)", "[§ x](a)", "[ §](a)", "[§ ](a)", "\\[§](a)", "[§]\\(a)",
                          "[§\\](a)", "[_§_](a)", "[§](a, \"b)", "[§](k=\"b)"])
    full = v + t.replace("§", name) + v
    kd, p = attempt(M, parse_text, M, full)
    S.check("ordinary text", kd == "ok" and not any(x.type.startswith("macro") for x in p.nodes), full)
    S.obs(dumps(p.nodes))
    if "_" not in t:
        shown = "".join(t.replace("\\", "").replace("§", name).split("\0"))
        S.equal("text", dumps(p.nodes), [["text", v + shown + v]])


def nested(M, S):
    """Macros in the text of macros."""
    v = S.str("v", 1, "-\"\\*_~^`$%[]()#@ ,=")
    inner = S.choice("inner", ["link", "image", "header", "footnote", "raw", "class", "other"])
    outer = S.choice("outer", ["link", "mailto", "class", "header"])
    deep = S.choice("deep", [False, True])
    n = expected(M, inner, [[v, "b"], [], [], [], None])
    t = "[" + inner + "](" + v + ", \\\"b\\\")"
    if deep:
        t = "x *" + t + "* y"
        n = ["style", "star", [n]]
    content = ([["text", "x "], n, ["text", " y"]] if deep else [n])
    text = "[" + outer + "](" + ("" if outer == "class" else "u, ") + "\"" + t + "\"" + (", k" if outer == "class" else "") + ")"
    want = {"link": ["macro-link", "u", content], "mailto": ["macro-link", "mailto:u", content], "class": ["macro-class", ["k"], content],
            "header": ["macro-header", "u", None, content]}[outer]
    kd, p = attempt(M, parse_text, M, text)
    S.check("well formed", kd == "ok", text)
    S.obs(dumps(p.nodes))
    S.equal("nodes", dumps(p.nodes), [want])
    for lst, kind in ((p.header_links, "macro-header"), (p.footnote_macros, "macro-footnote")):
        S.check("references are known", sorted(id(x) for x in lst) == sorted(id(x) for x in found(p.nodes, kind)), kind)


def cases(tier):
    deep = tier != "quick"
    ALL = list(NAMES) + ["other"]
    H = ["plain", "quoted", "named", "named quoted"]
    D = "\"\\),=( abk*#"
    out = [("built1", built, dict(macros=ALL, sizes=[0, 1], hows=H, n=2, sep=", ")), ("built2", built, dict(macros=ALL, sizes=[2], hows=H, n=1, sep=",")),
           ("built4", built, dict(macros=["image"], sizes=[3, 4], hows=["plain", "named"], n=1, sep=", ")),
           ("built3", built, dict(macros=["link", "class", "header", "other"], sizes=[3], hows=["plain", "named quoted"], n=1, sep=", ")),
           ("empty1", built, dict(macros=ALL, sizes=[1, 2], hows=["quoted", "named"], n="any", sep=", ")),
           ("empty4", built, dict(macros=["image"], sizes=[3, 4], hows=["quoted"], n="any", sep=", ")),
           ("free4", free, dict(macros=["link", "raw"], n=4, dom=D)), ("free name", free, dict(macros=["link"], pre="target=", n=3, dom=D, post=")")),
           ("free quoted", free, dict(macros=["class"], pre="\"a", n=4, dom="\"\\),=( a", post="b\")")),
           ("free two", free, dict(macros=["link", "other"], pre="a,", n=3, dom=D, post=") c")),
           ("free after", free, dict(macros=["image"], pre="a)", n=2, dom="line")),
           ("free other", free, dict(macros=["other"], n=3, dom="line", post=")")),
           ("shaped", shaped, dict(macros=ALL, n=1)), ("shaped0", shaped, dict(macros=ALL, n=0)),
           ("names", names, dict(bases=ALL)), ("around", around, dict(macros=["link", "raw", "footnote", "other"])), ("incomplete", incomplete, {}), ("nested", nested, {})]
    if deep:
        out += [("built1b", built, dict(macros=ALL, sizes=[1], hows=H, n=3, sep=", ")), ("built2b", built, dict(macros=ALL, sizes=[2], hows=H, n=2, sep=", ")),
                ("free5", free, dict(macros=["link"], n=5, dom=D)), ("free quoted2", free, dict(macros=["link"], pre="a, \"", n=5, dom="\"\\),= a", post="\")")),
                ("around2", around, dict(macros=ALL))]
    return out
