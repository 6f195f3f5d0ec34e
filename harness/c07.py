"""C07 Variables are replaced by their current value, everywhere, exactly once."""
from harness.common import SRC, attempt, dumps, handler, new_env, parse

BOUNDS = {"quick": "every text of up to 5 characters with two defined variables of symbolic value; every sequence of up to 3 "
                   "definitions and uses of two variables; every place of a document, with values of up to 3 characters",
          "thorough": "texts of up to 7 characters, sequences of up to 5"}
OUTSIDE = ("variables of the reserved mau. namespace, which are configuration; markup in "
           "values (the text is parsed after the replacement: C05)")


class Undefined(Exception):
    pass


class Incomplete(Exception):
    pass


def replaced(text, env):
    """The text after the replacement, by a single scan from the left."""
    out = ""
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == "\\":
            d = text[i + 1] if i + 1 < n else ""
            out = out + (d if d == "{" or d == "}" else "\\" + d)
            i += 2
            continue
        if c == "`":
            # up to the next tick that has no backslash
            j = i + 1
            while j < n and text[j] != "`":
                j += 2 if text[j] == "\\" else 1
            if j < n:
                out = out + text[i:j + 1]
                i = j + 1
                continue
        elif c == "{":
            j, name = i + 1, ""
            while j < n and text[j] != "}":
                if text[j] == "\\":
                    if j + 1 < n:
                        if text[j + 1] != "}":
                            name = name + "\\"
                        name = name + text[j + 1]
                    else:
                        name = name + "\\"
                    j += 2
                else:
                    name = name + text[j]
                    j += 1
            if j < n:
                if name.startswith("{"):
                    if j + 1 < n and text[j + 1] == "}":
                        out = out + name + "}"
                        i = j + 2
                        continue
                    raise Incomplete(name)
                for k, v in env:
                    if name == k:
                        out = out + v
                        break
                else:
                    raise Undefined(name)
                i = j + 1
                continue
        out = out + c
        i += 1
    return out


def scan(M, S):
    """Any text."""
    n = S.params["n"]
    text = S.str("t", n)
    pre, post = S.params["pre"], S.params["post"]
    text = pre + text + post
    S.assume(text.strip(" ") != "")
    a, b = S.str("v", 2), S.str("w", 1)
    env = [("x", a), ("y.z", b)]
    P = M("mau.parsers.preprocess_variables_parser").PreprocessVariablesParser
    kind, p = attempt(M, P.lex_and_parse, text, handler(M), new_env(M, dict(env)), 0, 0, SRC)
    try:
        want = replaced(text, env)
    except Undefined as e:
        S.reach("undefined")
        S.check("an undefined variable is an error", kind == "error", text)
        S.obs(p.text)
        S.check("the error names the variable", p.text.startswith("Variable '" + e.args[0] + "' "), p.text)
        return
    except Incomplete:
        S.reach("braces in a name")
        S.check("a brace in a name is an error", kind == "error", text)
        S.obs(p.text)
        return
    if kind == "error":
        S.fail("a text with defined variables is an error", p.text)
    got = p.get_processed_text().value
    S.obs(got)
    # spaces at the end of a line show nothing
    S.equal("text after the replacement", got.rstrip(" "), want.rstrip(" ") if not len(want) or want[-1] == " " else want)
    if "{" in text:
        S.reach("brace")


def stored(M, S):
    """A definition stores the text with its own variables replaced and nothing else changed."""
    text = S.params["pre"] + S.str("t", S.params["n"]) + S.params["post"]
    a = S.str("v", 1)
    env = [("x", a), ("y.z", "\\*")]
    sign = S.choice("s", ["", "+", "-"]) if S.params["n"] == 1 else ""
    kind, p = attempt(M, parse, M, ":" + sign + "n:" + text, dict(env))
    if sign:
        # the value of a flag does not matter
        if kind == "error":
            S.fail("a flag is an error", p.text)
        S.equal("stored flag", p.environment["n"], "true" if sign == "+" else "false")
        return
    try:
        want = replaced(text, env)
    except (Undefined, Incomplete):
        S.check("an undefined variable is an error", kind == "error", text)
        return
    if want.rstrip(" ") == "":
        # see empty; whether spaces are a value is not claimed
        return
    if kind == "error":
        S.fail("a text with defined variables is an error", p.text)
    got = p.environment["n"]
    S.obs(got)
    S.equal("stored value", got.rstrip(" "), want.rstrip(" ") if want[-1] == " " else want)


SAFE = "-_*^~`$%\\[](){}\""       # no inline markup, no quotes, no variables


def history(M, S):
    """Definitions, redefinitions and uses: each use shows the value of that moment."""
    cur = {"x": S.str("x0", 1, SAFE), "y": S.str("y0", 1, SAFE)}
    text, want = [], []
    for x in cur:
        S.assume(cur[x] != " ")
    init = dict(cur)
    for i in range(S.params["n"]):
        op = S.choice("op%d" % i, ["use", "set x", "set y", "x from y", "true x", "false y", "x twice"])
        if op == "use":
            pass
        elif op == "set x" or op == "set y":
            v = S.str("v%d" % i, 1, SAFE) + "v"
            text.append(":" + op[-1] + ":" + v)
            cur[op[-1]] = v
        elif op == "x from y":
            text.append(":x:{y}" + "q")
            cur["x"] = cur["y"] + "q"
        elif op == "x twice":
            text.append(":x:{x}{x}")
            cur["x"] = cur["x"] + cur["x"]
        elif op == "true x":
            text.append(":+x:")
            cur["x"] = "true"
        else:
            text.append(":-y:")
            cur["y"] = "false"
        text.append("<{x}|{y}>")
        text.append("")
        want.append("<" + cur["x"] + "|" + cur["y"] + ">")
    p = parse(M, "\n".join(text), init)
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("each use shows the current value", got, [["paragraph", [], [["paragraph-line", [], [["text", w]], []]], []] for w in want])
    S.equal("the environment has the last values", [p.environment["x"], p.environment["y"]], [cur["x"], cur["y"]])


def once(M, S):
    """Braces, backslashes and dots in a value are text."""
    v = S.str("v", S.params["n"], "-_*^~`$%\\[]()")
    S.assume(v.strip(" ") != "")
    p = parse(M, "<{x}>{y}{x}", {"x": v, "y": "-"})
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("a value is not scanned again", got[0][2][0][2], [["text", ("<" + v + ">-" + v).rstrip(" ")]])


PLACES = {
    "paragraph": ("a {x} b", lambda n: n[0][2][0][2], lambda v: [["text", "a " + v + " b"]]),
    "second line": ("c\na{x}b", lambda n: n[0][2][1][2], lambda v: [["text", "a" + v + "b"]]),
    "header": ("[internal_id=i]\n= a{x}b", lambda n: n[0][5], lambda v: [["text", "a" + v + "b"]]),
    "label": (".role a{x}b\n---", lambda n: n[0][2][0][1][3], lambda v: [["text", "a" + v + "b"]]),
    "item": ("* c\n* a{x}b", lambda n: n[0][5][1][3], lambda v: [["text", "a" + v + "b"]]),
    "nested item": ("* c\n** a{x}b", lambda n: n[0][5][1][5][0][3], lambda v: [["text", "a" + v + "b"]]),
    "block": ("----\na{x}b\n----", lambda n: n[0][3][0][2][0][2], lambda v: [["text", "a" + v + "b"]]),
    "style": ("*a{x}b*", lambda n: n[0][2][0][2][0][2], lambda v: [["text", "a" + v + "b"]]),
    "argument": ("[a{x}b]\n---", lambda n: n[0][1][0], lambda v: ["a" + v + "b"]),
    "named argument": ("[k=a{x}b]\n---", lambda n: n[0][1][1], lambda v: [["k", "a" + v + "b"]]),
    "tag": ("[#a{x}b]\n---", lambda n: n[0][1][2], lambda v: ["a" + v + "b"]),
    "boxed include": ("[\"a{x}b\"]\n<< image", lambda n: n[0][2], lambda v: "a" + v + "b"),
    "include": ("<< image:a{x}b", lambda n: n[0][2], lambda v: "a" + v + "b"),
    "macro": ("[m](a{x}b)", lambda n: n[0][2][0][2][0][1], lambda v: "m"),
    "class": ("[class](a{x}b,k)", lambda n: n[0][2][0][2][0][2], lambda v: [["text", "a" + v + "b"]]),
    "link": ("[link](a{x}b)", lambda n: n[0][2][0][2][0][1], lambda v: "a" + v + "b"),
    "footnote": ("c[footnote](n)\n\n[footnote=n]\n----\na{x}b\n----", lambda n: n[0][2][0][2][1][2][4][0][2][0][2],
                 lambda v: [["text", "a" + v + "b"]]),
    "definition": (":w:a{x}b\n{w}", lambda n: n[0][2][0][2], lambda v: [["text", "a" + v + "b"]]),
    "condition": ("@if x=={x}\n---", lambda n: [m[0] for m in n], lambda v: ["horizontal-rule"]),
    "verbatim": ("a`{x}`", lambda n: n[0][2][0][2][1], lambda v: ["verbatim", "{x}"]),
    "escaped": ("a\\{x\\}", lambda n: n[0][2][0][2], lambda v: [["text", "a{x}"]]),
    "double": ("a{{x}}b", lambda n: n[0][2][0][2], lambda v: [["text", "a{x}b"]]),
    "raw block": ("[engine=raw]\n----\n{x}\n----", lambda n: n[0][3][0][2], lambda v: "{x}"),
    "source block": ("[@source]\n----\n{x}\n----", lambda n: n[0][4][0][3], lambda v: "{x}"),
}


def place(M, S):
    form, path, want = PLACES[S.params["place"]]
    v = S.str("v", S.params["n"], SAFE + ",=#@!: ")
    kind, p = attempt(M, parse, M, form, {"x": v})
    if kind == "error":
        S.fail("a defined variable is an error", p.text)
    got = path(dumps(p.nodes))
    S.obs(got)
    S.equal("value in place", got, want(v))
    # without the definition it is an error wherever variables are replaced
    kind, p = attempt(M, parse, M, form)
    literal = S.params["place"] in ("verbatim", "escaped", "double", "raw block", "source block")
    S.equal("undefined variable", kind, "ok" if literal else "error")


def order(M, S):
    """A use before the definition is an error; after it shows the value, also when the definition is in a block."""
    v = S.str("v", 2, SAFE + " ")
    parts = S.order("o", ["def", "use", "other"])
    lines = {"def": ":x:" + v, "use": "<{x}>", "other": "---"}
    text = "\n\n".join([lines[p] for p in parts])
    kind, p = attempt(M, parse, M, text)
    if parts.index("use") < parts.index("def"):
        S.reach("before")
        S.check("a use before the definition is an error", kind == "error")
        return
    S.check("a use after the definition", kind == "ok")
    got = [n for n in dumps(p.nodes) if n[0] == "paragraph"]
    S.obs(got)
    S.equal("value", got[0][2][0][2], [["text", "<" + v + ">"]])


def empty(M, S):
    """A definition without a value is an error, whatever its name and its flags."""
    n = S.str("n", S.params["n"], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-")
    S.assume(S.all(n[0] != "+", n[0] != "-"))
    kind, p = attempt(M, parse, M, ":" + n + ":" + S.choice("v", ["", "{e}", "`x`"]), {"e": ""})
    if kind == "error":
        S.reach("error")
        S.equal("error", p.text, "Error in variable definition. Variable '" + n + "' has no value.")
    else:
        S.reach("ok")
        S.equal("literal value", p.environment[n], "`x`")


def names(M, S):
    """Any name made of letters, digits, underscores, dots, plus and minus can be defined and used."""
    n = S.str("n", S.params["n"], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-")
    S.assume(n != "mau")
    v = S.str("v", 1, SAFE + " ")
    # only the first sign makes a flag
    sign = S.choice("s", ["", "+", "-"])
    if sign == "":
        S.assume(S.all(n[0] != "+", n[0] != "-"))
    kind, p = attempt(M, parse, M, ":" + sign + n + ":" + v + "\n\n<{" + n + "}>")
    if kind == "error":
        S.fail("a defined variable is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("value of the name", got[0][2][0][2], [["text", "<" + {"": v, "+": "true", "-": "false"}[sign] + ">"]])


HOMES = {"top": ["", ""], "block": ["====\n", "\n===="], "isolated": ["[isolate=true]\n====\n", "\n===="], "open": ["[isolate=false]\n====\n", "\n===="],
         "deep": ["[isolate=true]\n====\n....\n", "\n....\n===="], "group": ["[group=g, position=§]\n====\n", "\n===="], "footnote": ["[footnote=f§]\n====\n", "\n===="],
         "aside": ["[*aside, #t]\n. label\n++++\n", "\n++++"], "condition": ["@if on==1\n", ""], "after": ["= h\n\n* i\n\n", "\n\n---"]}


def homes(M, S):
    """A definition counts from its place on, whatever block it is in; so does a use."""
    n = S.params["n"]
    cur = {"x": S.str("x0", 1, SAFE)}
    S.assume(cur["x"] != " ")
    init = dict(cur, on="1")
    text, want = [], []
    for i in range(n):
        home = S.choice("home%d" % i, S.params["homes"])
        pre, post = HOMES[home]
        op = S.choice("op%d" % i, ["set", "use", "both", "flag"] if home != "condition" else ["set", "flag"])
        body = []
        if op == "set" or op == "both":
            v = S.str("v%d" % i, 1, SAFE) + "v"
            cur["x"] = v
            body.append(":x:" + v)
        elif op == "flag":
            cur["x"] = "true"
            body.append(":+x:")
        if op == "use" or op == "both":
            body.append("<{x}>")
            # these blocks are not shown where they are
            if home != "group" and home != "footnote":
                want.append("<" + cur["x"] + ">")
        text.append(pre.replace("§", "p%d" % i) + "\n\n".join(body) + post)
        text.append("({x})")
        want.append("(" + cur["x"] + ")")
    p = parse(M, "\n\n".join(text), init)
    shown = []

    def below(nodes):
        for x in nodes:
            if x.type == "paragraph":
                shown.append("".join(y.value for l in x.content for y in l.content))
            elif hasattr(x, "content") and x.type in ("block", "document"):
                below(x.content)
    below(p.nodes)
    S.obs(shown)
    S.equal("each use shows the current value", shown, want)
    S.equal("last value", p.environment["x"], cur["x"])


def types(M, S):
    """Values that are no strings are written as str() does."""
    k = S.choice("k", ["int", "bool", "none", "list"])
    v = {"int": S.int("i", -3, 12), "bool": True, "none": None, "list": ["a"]}[k]
    w = str(S.concretize(v))
    p = parse(M, "<{x}>", {"x": v})
    got = dumps(p.nodes)
    S.equal("value", got[0][2][0][2], [["text", "<" + w + ">"]] if k != "list" else [["text", "<['a']>"]])


def many(M, S):
    """As many variables, definitions and uses as one likes, in any place."""
    n = S.params["n"]
    v = S.str("v", 1, "abcxyz09-.+")
    at = S.choice("at", [0, 1, 9, 10, n - 1])
    shape = S.choice("shape", ["apart", "chain", "again", "dotted"])
    lines, vals = [], []
    for i in range(n):
        own = "w%d" % i + (v if i == at else "")
        if shape == "chain" and i:
            lines.append(":x%d:" % i + own + "{x%d}" % (i - 1))
            vals.append(own + vals[-1])
        elif shape == "again":
            lines.append(":x:" + own)
            lines.append("{x} {x}")
            vals.append(own)
        else:
            lines.append((":ns.x%d:" if shape == "dotted" else ":x%d:") % i + own)
            vals.append(own)
    if shape == "again":
        p = parse(M, "\n\n".join(lines))
        S.obs(dumps(p.nodes))
        S.equal("texts", [x.content[0].content[0].value for x in p.nodes], [x + " " + x for x in vals])
        return
    name = "{ns.x%d}" if shape == "dotted" else "{x%d}"
    text = "-".join(name % i for i in range(n))
    want = "-".join(vals)
    where = S.choice("where", ["paragraph", "header", "item", "argument", "definition"])
    doc = "\n".join(lines) + "\n" + {"paragraph": text, "header": "= " + text, "item": "* " + text, "argument": "[" + text + "]\nx", "definition": ":z:" + text}[where]
    p = parse(M, doc, {"mau.parser.header_internal_id_function": lambda h: "i"})
    S.obs(dumps(p.nodes))
    if where == "definition":
        S.equal("value", p.environment["z"], want)
        return
    node = p.nodes[0]
    got = node.arguments.unnamed_args if where == "argument" else [x.value for x in (node.content[0].content if where == "paragraph" else node.content if where == "header" else node.content[0].content)]
    S.equal("text", got, [want])


def cases(tier):
    deep = tier != "quick"
    out = [("scan%d" % n, scan, dict(n=n, pre="", post="")) for n in range(1, 8 if deep else 6)]
    for pre, post in (("{", "}"), ("{x", "}"), ("`{", "}`"), ("{{", "}}"), ("{x}", "{y.z}"), ("\\{x", "}a"), ("`", "{x}")):
        for n in range(0, 6 if deep else 4):
            out.append(("scan:%s.%s%d" % (pre, post, n), scan, dict(n=n, pre=pre, post=post)))
    for pre, post in (("", ""), ("a\\", "b"), ("{x}", "{y.z}"), ("{", "}"), ("`", "`")):
        for n in range(1, 6 if deep else 4):
            out.append(("stored:%s.%s%d" % (pre, post, n), stored, dict(n=n, pre=pre, post=post)))
    out += [("history%d" % n, history, dict(n=n)) for n in range(1, 6 if deep else 4)]
    out += [("once%d" % n, once, dict(n=n)) for n in range(1, 5)]
    for k in PLACES:
        out += [("place:%s%d" % (k, n), place, dict(n=n, place=k)) for n in ((1, 3) if not deep else (1, 2, 3, 4))]
    out += [("order", order, {}), ("types", types, {})]
    out += [("homes1", homes, dict(n=1, homes=list(HOMES))), ("homes2", homes, dict(n=2, homes=list(HOMES))),
            ("homes3", homes, dict(n=3, homes=list(HOMES) if deep else ["isolated", "footnote", "condition"]))]
    out += [("empty%d" % n, empty, dict(n=n)) for n in (1, 2)]
    out += [("names%d" % n, names, dict(n=n)) for n in ((1, 2) if not deep else (1, 2, 3))]
    out.append(("many", many, dict(n=40 if deep else 12)))
    return out
