"""C24 Command-line settings reach the environment and the right file is written."""
import logging
import os

from harness.common import attempt, handler, new_env, parse

BOUNDS = {"quick": "up to 3 settings of up to 6 arbitrary characters, any namespace of up to 2 characters; files with any key and 7 names; the whole command line "
                   "with 8 input names, 5 output names, 2 visitors, arbitrary text, variables and configuration values of up to 2 characters",
          "thorough": "settings of 9 characters, 4 settings"}
OUTSIDE = ("reading YAML and the command line (argparse), which only move the arbitrary text here; the bytes of an output in YAML; visitors installed as plugins; "
           "an input file whose name ends with the extension of the visitor and of Mau at once")
NAME = "abxyz09_"


def flat(env):
    return [[k, v] for k, v in env.asflatdict().items()]


def conf(M, fn, *a):
    try:
        fn(*a)
    except M("mau").ConfigurationError:
        return "configuration error"
    return "ok"


def put(pairs, k, v):
    for x in pairs:
        if bool(x[0] == k):
            x[1] = v
            return
    pairs.append([k, v])


def variables(M, S):
    """Every setting is stored under its key with exactly the text after the first equal sign."""
    sizes = S.params["sizes"]
    dom = S.params["dom"]
    args = [S.str("v%d" % i, n, dom) for i, n in enumerate(sizes)]
    ns = S.str("ns", S.params["ns"], "ab.=") if S.params.get("ns") else S.choice("ns", [None, "", "other"])
    env = new_env(M, {"mau.keep": "k", "mau.envvars.old": "o"})
    want = flat(env)
    bad = False
    new = []
    for a in args:
        i = 0
        while i < len(a) and bool(a[i] != "="):
            i += 1
        if i == len(a):
            bad = True
            break
        put(new, "mau." + (ns or "envvars") + "." + a[:i], a[i + 1:])
    got = conf(M, M("mau").load_environment_variables, env, args, *([] if ns is None else [ns]))
    S.obs([got, flat(env)])
    S.equal("outcome", got, "configuration error" if bad else "ok")
    if not bad:
        for k, v in new:
            put(want, k, v)
            S.equal("value of the key", env.get(k), v)
    S.equal("environment", flat(env), want)


def used(M, S):
    """A setting is the value of its variable in the text."""
    key, value = S.str("key", S.params["key"], NAME), S.str("value", S.params["value"], "abc=.:,;-+09 ")
    env = new_env(M)
    M("mau").load_environment_variables(env, ["n." + key + "=" + value])
    p = parse(M, "a {mau.envvars.n." + key + "}!", env=env)
    S.obs(p.nodes[0].content[0].content[0].value)
    S.equal("text", p.nodes[0].content[0].content[0].value, "a " + value + "!")


PLAIN = {"zero": ("0", 0), "no": ("false", False), "blank": ("''", ""), "nothing": ("[]", []), "one": ("1", 1), "words": ("[a, b]", ["a", "b"]), "text": ("", None)}
NAMES = {"data.yaml": "data", "d/other.yml": "other", "plain": "plain", "two.dots.yaml": "two.dots", ".hidden": ".hidden", "x y.json": "x y", "e=q.yaml": ""}


def files(M, S):
    """Every file is stored under its key or under its name."""
    value = S.str("value", 2, "abcxyz")
    names = list(NAMES)
    S.files(dict({n: "v: \"%s\"\nl: [1, {k: w}]\nm:\n  k: \"" % n + value + "\"\n" for n in NAMES}, **{"bad.yaml": "a: [", "empty.yaml": "", "text.yaml": "\"" + value + "\""}))
    ns = S.choice("ns", [None, "", "other", "a.b"])
    args, pairs, bad = [], [], False
    for i in range(S.params["n"]):
        name = S.choice("file%d" % i, S.params["names"])
        key = S.str("key%d" % i, S.params["key"], "ab.") if "=" in name or S.choice("with key%d" % i, [True, False]) else None
        args.append(name if key is None else key + "=" + name)
        if name in ("bad.yaml", "missing.yaml", "d"):
            bad = True
        elif not bad:
            put(pairs, NAMES[name] if key is None else key, name)
            if key is None and name == "text.yaml":
                pairs[-1][0] = "text"
    env = new_env(M, {"mau.keep": "k", "mau.envfiles.old": "o"})
    before = flat(env)
    got = conf(M, M("mau").load_environment_files, env, args, *([] if ns is None else [ns]))
    S.obs([got, flat(env)])
    S.equal("outcome", got, "configuration error" if bad else "ok")
    if bad:
        S.equal("environment", flat(env), before)
        return
    want = before
    for k, name in pairs:
        base = "mau." + (ns or "envfiles") + "." + k
        put(want, base + ".v", name)
        put(want, base + ".l", [1, {"k": "w"}])
        put(want, base + ".m.k", value)
        S.equal("value of the key", env.get(base + ".m.k"), value)
    S.equal("environment", flat(env), want)


def plain(M, S):
    """A file may be a value by itself, whatever the value."""
    w = S.str("w", 2, "abcxyz")
    first, second = S.choice("first", list(PLAIN)), S.choice("second", list(PLAIN) + [""])
    S.files({n + ".yaml": x if n != "text" else '"' + w + '"' for n, (x, _) in PLAIN.items()})
    env = new_env(M, {"mau.keep": "k"})
    got = conf(M, M("mau").load_environment_files, env, ["a=" + first + ".yaml"] + (["b=" + second + ".yaml"] if second else []))
    S.obs([got, flat(env)])
    S.equal("outcome", got, "ok")
    for k, f in (("a", first), ("b", second)):
        if f:
            value = w if f == "text" else PLAIN[f][1]
            S.check("the file is there", ("mau.envfiles." + k) in env.asflatdict(), [k, f])
            S.equal("value", env.get("mau.envfiles." + k), value)
    S.equal("nothing else", len(env.asflatdict()), 2 + (second != ""))


def run(M, S, argv):
    S.argv(argv)
    read = S.output()
    try:
        M("mau.cli").main()
    except SystemExit as e:
        return e.code, read()
    return 0, read()


INPUTS = {"a.mau": "a", "d/b.mau": "d/b", "notes": "notes", "notes.txt": "notes.txt", "c.mau.mau": "c.mau", "umau": "umau", "x.mau.d/y": "x.mau.d/y", "a b.mau": "a b"}


def output(M, S):
    """Where the result goes, and what is in it."""
    name = S.choice("input", S.params["inputs"])
    w = S.str("w", *S.params.get("w", (2, "abcXYZ09;+")))
    given = S.choice("output", S.params["outputs"])
    eol = S.choice("eol", ["", "\n"])
    text = "x" + w + eol if S.choice("some text", [True, False]) else eol
    conf = "visitor:\n  templates:\n    custom:\n      document.j2: \"<{{ content }}>\"\n      paragraph.j2: \"{{ content }}\"\n      paragraph-line.j2: \"{{ content }}\"\n" \
           "      text.j2: \"{{ value }}\"\n"
    S.files({name: text, "conf.yaml": conf, "o/old": "old"})
    format = S.choice("format", S.params["formats"])
    argv = ["-i", name, "-t", format, "-c", "conf.yaml"] + ([] if given is None else ["-o", given])
    code, printed = run(M, S, argv)
    S.equal("exit status", code, 0)
    ext = "j2" if "Jinja" in format else "yaml"
    target = given if given is not None else INPUTS[name] + "." + ext
    want = "<x" + w + ">\n" if text != eol else "\n"
    S.equal("input file", S.read_file(name), text)
    S.equal("files written", sorted(found()), sorted({name, "conf.yaml", "o/old"} | ({target} if target != "-" else set())))
    if "Jinja" in format:
        S.equal("printed" if target == "-" else "written", printed if target == "-" else S.read_file(target), want)
        S.obs([target, want])
    elif target != "-":
        S.check("written", ("value: x" if text != eol else "{}") in S.read_file(target))


def found():
    out = []
    for d, _, fs in os.walk("."):
        out += [os.path.relpath(os.path.join(d, f), ".") for f in fs]
    return out


def settings(M, S):
    """All sources of settings are visible in the text, each under its namespace."""
    v, e, c = S.str("v", S.params["n"], S.params["dom"]), S.str("e", 2, "abcxyz"), S.str("c", 2, "abcxyz")
    two = S.choice("two", [False, True])
    nv, nf = S.choice("namespace", [None, "vars"]), S.choice("files namespace", [None, "files"])
    refs = ["mau." + (nv or "envvars") + ".k.j", "mau." + (nf or "envfiles") + ".f.m", "mau.own.x"] + (["mau." + (nv or "envvars") + ".l", "mau." + (nf or "envfiles") + ".two.m"] if two else [])
    text = "|".join("{" + r + "}" for r in refs)
    conf = "own:\n  x: \"" + c + "\"\nvisitor:\n  templates:\n    custom:\n      document.j2: \"<{{ content }}>\"\n      paragraph.j2: \"{{ content }}\"\n" \
           "      paragraph-line.j2: \"{{ content }}\"\n      text.j2: \"{{ value }}\"\n"
    S.files({"in.mau": text, "conf.yaml": conf, "f.yaml": "m: \"" + e + "\"", "g.yaml": "m: g"})
    argv = ["-i", "in.mau", "-t", "core:JinjaVisitor", "-c", "conf.yaml", "-o", "out", "-v", "k.j=" + v, "-e", "f.yaml"]
    argv += ["--environment-variables-namespace", nv] if nv else []
    argv += ["--environment-files-namespace", nf] if nf else []
    argv += ["-v", "l=L", "-e", "two=g.yaml"] if two else []
    code, printed = run(M, S, argv)
    S.equal("exit status", code, 0)
    got = S.read_file("out")
    S.obs(got)
    S.equal("written", got, "<" + "|".join([v, e, c] + (["L", "g"] if two else [])) + ">\n")


def failing(M, S):
    """A document that cannot be processed writes nothing."""
    w = S.str("w", 2, "abcXYZ09")
    kind = S.choice("kind", ["parser", "lexer", "visitor", "no visitor", "lexer only"])
    text = {"parser": "a {" + w + "}", "lexer": "////\n" + w, "visitor": "a" + w, "no visitor": "a" + w, "lexer only": "a {" + w + "}"}[kind]
    S.files({"in.mau": text, "out": "old"})
    argv = ["-i", "in.mau"] + ([] if kind == "no visitor" else ["-t", "core:JinjaVisitor"]) + S.choice("out", [[], ["-o", "out"]]) + (["--lexer-only"] if kind == "lexer only" else [])
    code, printed = run(M, S, argv)
    S.equal("exit status", code, 0 if kind == "lexer only" else 1)
    S.equal("files", sorted(found()), ["in.mau", "out"])
    S.equal("input file", S.read_file("in.mau"), text)
    S.equal("output file", S.read_file("out"), "old")


def configuration(M, S):
    """Any configuration file, also one without settings, and no file."""
    w = S.str("w", 2, "abcXYZ09")
    kinds = {"none": None, "empty": "", "comment": "# nothing\n", "null": "null\n", "document": "---\n", "braces": "{}\n", "other": "own: {x: 1}\n"}
    kind = S.choice("kind", list(kinds))
    S.files(dict({"in.mau": "x" + w}, **({} if kinds[kind] is None else {"conf.yaml": kinds[kind]})))
    out = S.choice("output", [None, "res"])
    argv = ["-i", "in.mau", "-t", "core:YamlVisitor"] + ([] if kinds[kind] is None else ["-c", "conf.yaml"]) + ([] if out is None else ["-o", out])
    argv += S.choice("variables", [[], ["-v", "k=v"]])
    code, printed = run(M, S, argv)
    S.equal("exit status", code, 0)
    S.check("written", ("value: x" + w) in S.read_file(out or "in.yaml"))
    S.obs(S.read_file(out or "in.yaml"))


def reset():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)


def options(M, S):
    """The options that make Mau talk leave the result as it is."""
    w = S.str("w", 1, "aX0")
    kind = S.choice("kind", ["page", "empty", "directives"])
    text = {"page": "= T\n\nx" + w + "\n\n* l\n", "empty": "\n", "directives": "#include:/b.mau\n\n:v:x" + w + "\n\n{v}\n"}[kind]
    S.files({"in.mau": text, "b.mau": "inner\n"})
    extra = S.choice("options", [["--verbose"], ["--debug"], ["--lexer-print-output"], ["--debug", "--verbose"], ["--verbose", "--lexer-print-output"]])
    argv = ["-i", "in.mau", "-t", "core:YamlVisitor"]
    reset()
    code, printed = run(M, S, argv + ["-o", "quiet"])
    reset()
    S.equal("exit status", code, 0)
    code, talk = run(M, S, argv + (["-o", "loud"] + extra if S.choice("last", [True, False]) else extra + ["-o", "loud"]))
    reset()
    S.equal("exit status with options", code, 0)
    S.equal("files", sorted(found()), ["b.mau", "in.mau", "loud", "quiet"])
    S.equal("written", S.read_file("loud"), S.read_file("quiet"))
    S.equal("input file", S.read_file("in.mau"), text)
    S.equal("printed without options", printed, "")
    S.obs(S.read_file("loud"))


def stopping(M, S):
    """--version and --help print and do nothing else; --lexer-only stops before anything is written."""
    w = S.choice("w", ["aX", "9b"])
    S.files({"in.mau": "x" + w, "out": "old"})
    extra = S.choice("options", [["--version"], ["--help"], ["--lexer-only"], ["--lexer-only", "--lexer-print-output"]])
    reset()
    code, printed = run(M, S, ["-i", "in.mau", "-t", "core:YamlVisitor"] + S.choice("out", [[], ["-o", "out"]]) + extra)
    reset()
    S.equal("exit status", code or 0, 0)
    S.equal("files", sorted(found()), ["in.mau", "out"])
    S.equal("output file", S.read_file("out"), "old")
    if extra == ["--version"]:
        S.check("version", M("mau").__version__ in printed)
    if "--lexer-print-output" in extra:
        S.check("the tokens are printed", ("x" + w) in printed)
    S.obs(code or 0)


def cases(tier):
    deep = tier != "quick"
    D = "ab=. "
    out = [("variables1", variables, dict(sizes=[6], dom="line")), ("variables ns", variables, dict(sizes=[3], dom=D, ns=2)),
           ("variables2", variables, dict(sizes=[4, 4], dom="ab=.")), ("variables3", variables, dict(sizes=[3, 3, 2], dom="a=\n")),
           ("variables0", variables, dict(sizes=[], dom="a")), ("variables short", variables, dict(sizes=[1, 0, 2], dom="a=")),
           ("used", used, dict(key=3, value=5)),
           ("files", files, dict(n=1, names=list(NAMES) + ["bad.yaml", "missing.yaml", "d"], key=2)),
           ("plain", plain, {}), ("files2", files, dict(n=2, names=["data.yaml", "plain", "bad.yaml"], key=1)),
           ("output", output, dict(inputs=list(INPUTS), outputs=[None, "-", "res", "o/res.x", "o/old"], formats=["core:JinjaVisitor"])),
           ("output yaml", output, dict(inputs=["a.mau", "notes"], outputs=[None, "-", "res"], w=(1, "aX"), formats=["core:YamlVisitor"])),
           ("settings", settings, dict(n=2, dom="abc=.:,;+09 ")), ("failing", failing, {}), ("configuration", configuration, {}), ("options", options, {}), ("stopping", stopping, {})]
    if deep:
        out += [("variables4", variables, dict(sizes=[9], dom="line")), ("variables5", variables, dict(sizes=[3, 3, 3, 3], dom="a=")), ("variables6", variables, dict(sizes=[6, 6], dom="ab=.")),
                ("used2", used, dict(key=5, value=8)), ("settings2", settings, dict(n=4, dom="abc=.:,;+09 "))]
    return out
