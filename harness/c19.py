"""C19 Included files are parsed in place, with their own scope, without loops."""
from harness.common import SRC, attempt, ctx_of, dump, dumps, parse
from harness.corpus import DOCS, FAULTS
from harness.refs import found

BOUNDS = {"quick": "every content of up to 3 characters and 23 documents with an arbitrary line in included files; raw files of up to 4 characters; "
                   "programs of up to 2 included files and 5 definitions with arbitrary 1-character values, every choice of passed values and "
                   "environments; every graph of includes over 3 files with up to 2 includes in each; passed names of 2 characters; other names with up to 2 arbitrary characters; chains of 12 files",
          "thorough": "contents of up to 4 characters, raw files of up to 6, programs over 3 files, graphs over 4 files"}
OUTSIDE = "carriage returns (converted by text files); files that change while they are read; symbolic links"

VALUE = "abcxyzABCXYZ019-_.:!?"


def included(S, node, uri, want):
    S.equal("kind and file", [node.type, node.uri], ["include-mau", uri])
    S.equal("content", dumps(node.content, ctx=ctx_of), want)
    for n in node.content:
        S.check("content linked to the include", n.parent is node)


def place_of(m):
    """Line, column and file of an error."""
    if hasattr(m, "context"):
        return [m.context.start_line, m.context.start_column, m.context.source] if m.context else None
    return list(m.position) + [m.source]


FORMS = {"inline": "<< mau:a.mau", "boxed": "[a.mau]\n<< mau", "named": "[uri=a.mau]\n<< mau", "quoted": "<< mau:\"a.mau\"", "close": "<<mau:a.mau",
         "variable": "[{file}]\n<< mau", "condition": "@if file!=x\n<< mau:a.mau", "with": ". label\n<< mau:a.mau, #t, *s, k=v"}
ARGS = {"with": [[], [["k", "v"]], ["t"], [], "s"]}


def content(M, S):
    """The nodes of an include are those of the file."""
    doc = S.choice("doc", S.params["docs"])
    line = S.str("line", S.params["n"], "line") if S.params["n"] else ""
    where = S.choice("where", S.params.get("where", ["first", "last"]))
    text = [line + "\n" + DOCS[doc], DOCS[doc] + "\n" + line][where == "last"] if doc else line
    form = S.choice("form", S.params["forms"])
    before = S.choice("before", ["", "x\n\n"])
    S.files({"a.mau": text})
    values = {"file": "a.mau", "mau.parser.header_internal_id_function": lambda h: "i"}
    kw, want = attempt(M, parse, M, text, values, source="a.mau")
    kd, p = attempt(M, parse, M, before + FORMS[form] + "\n\n= after", values)
    if kw == "error":
        S.reach("file with an error")
        S.equal("error", [kd, p.text if kd == "error" else "", place_of(p) if kd == "error" else ""], ["error", want.text, place_of(want)])
        return
    S.equal("outcome", kd, "ok")
    S.obs(dumps(p.nodes, ctx=ctx_of))
    nodes = p.nodes[1:] if before else p.nodes
    S.equal("nodes", [n.type for n in p.nodes], (["paragraph"] if before else []) + ["include-mau", "header"])
    included(S, nodes[0], "a.mau", dumps(want.nodes, ctx=ctx_of))
    d = dump(nodes[0])
    S.equal("arguments", d[1], ARGS.get(form, []))
    S.equal("labels", [k for k in nodes[0].labels], ["title"] if form == "with" else [])
    S.equal("following node", dump(nodes[1]), dump(parse(M, "[internal_id=i]\n= after").nodes[0]))
    S.equal("table of contents", [h.level for h in p.output.toc.plain_entries], [1])
    S.equal("include calls", calls(p), [[SRC, "a.mau", []]] + calls(want))
    c = p.output.include_calls[0].info.context
    S.equal("place of the include call", [c.start_line, c.source], [nodes[0].info.context.start_line, SRC])


def calls(p):
    return [[c.caller_uri, c.callee_uri, [[k, c.call_arguments[k]] for k in sorted(c.call_arguments)]] for c in p.output.include_calls]


def raw(M, S):
    """A raw include gives the text of the file, line by line."""
    text = "\n".join(S.str("l%d" % i, n, "line") for i, n in enumerate(S.params["lens"]))
    form = S.choice("form", ["<< raw:a.txt", "[a.txt]\n<< raw", "[a, uri=a.txt, k=v]\n<< raw", ". l\n<< raw:a.txt"])
    block = S.choice("block", ["", "++++\n"])
    S.files({"a.txt": text})
    p = parse(M, block + form + "\n" + block[:4] + "\n\nafter", {"x": "1"})
    S.obs(dumps(p.nodes, ctx=ctx_of))
    n = found(p.nodes, "include-raw")
    S.equal("one include", len(n), 1)
    n = n[0]
    S.equal("file", n.uri, "a.txt")
    S.equal("lines", [[x.type, x.value] for x in n.content], [["raw-line", x] for x in text.split("\n")])
    for x in n.content:
        S.check("line linked to the include", x.parent is n)
    S.equal("other nodes", dump(p.nodes[1]), dump(parse(M, "after").nodes[0]))
    S.equal("no include calls", len(p.output.include_calls), 0)


# ------------------------------------------------------------------ scope
def show(x):
    return "{" + x + "}"


def run(program, files, scope, out, log, caller):
    """Reference interpreter: what every use of a variable shows; None for an undefined one."""
    for op in program:
        if op[0] == "set":
            scope[op[1]] = op[2]
        elif op[0] == "show":
            if op[1] not in scope:
                return False
            out.append(scope[op[1]])
        else:
            _, name, passed, env = op
            inner = dict(scope) if env else {}
            inner.update(passed)
            log.append([caller, name, [[k, passed[k]] for k in sorted(passed)]])
            if not run(files[name], files, inner, out, log, name):
                return False
    return True


def text_of_program(program, S, wrap=""):
    out = []
    for op in program:
        if op[0] == "set":
            t = ":" + op[1] + ":" + op[2]
        elif op[0] == "show":
            t = "{" + op[1] + "}"
        else:
            _, name, passed, env = op
            t = "<< mau:" + name + "".join(", call:" + k + "=" + v for k, v in passed.items()) + ("" if env else ", pass_environment=false")
        out.append(wrap + "\n" + t + "\n" + wrap.split("\n")[-1] if wrap and op[0] == "include" else t)
    return "\n\n".join(out)


def shown(nodes):
    """Texts of the paragraphs, in order, going into the includes."""
    out = []
    for n in nodes:
        if n.type == "paragraph":
            out.append("".join(x.value for l in n.content for x in l.content))
        else:
            out += shown(n.content)
    return out


def scope(M, S):
    """Variables of included files never reach the includer; the includer's and the passed ones are seen as documented."""
    names = S.params["names"]
    v = [S.str("v%d" % i, 1, VALUE) for i in range(4)]
    x = [S.choice("n%d" % i, names) for i in range(4)]
    deep = S.params["deep"]
    env = S.choice("env", [True, False])
    passed = {}
    for i in range(S.choice("passed", range(3))):
        passed[x[2 + i]] = v[2 + i]
    wrap = S.choice("wrap", S.params["wraps"])
    inner = [("show", x[1]), ("set", x[1], v[1]), ("show", x[1])] if S.choice("kind", [0, 1]) else [("set", x[1], v[1]), ("show", x[0])]
    files = {}
    if deep:
        env2 = S.choice("env2", [True, False])
        passed2 = {x[0]: "$"} if S.choice("passed2", [0, 1]) else {}
        files["b.mau"] = [("show", names[0]), ("set", names[0], "%"), ("show", x[1])]
        inner = inner + [("include", "b.mau", passed2, env2), ("show", x[1])]
    files["a.mau"] = inner
    main = [("set", x[0], v[0]), ("include", "a.mau", passed, env), ("show", x[0]), ("include", "a.mau", {}, True), ("show", x[0])]
    S.files({k: text_of_program(f, S) for k, f in files.items()})
    out, log = [], []
    ok = run(main, files, {}, out, log, SRC)
    kd, p = attempt(M, parse, M, text_of_program(main, S, wrap))
    if not ok:
        S.reach("undefined")
        S.equal("outcome", kd, "error")
        S.check("undefined variable", p.text.startswith("Variable"), p.text)
        return
    S.reach("ok")
    S.equal("outcome", kd, "ok")
    S.equal("values", shown(p.nodes), out)
    S.equal("include calls", calls(p), log)


def final(M, S):
    """The environment of the includer after parsing, and the passed values with any text."""
    v = S.str("v", 2, "abzAZ019-_~^<>[]()!?:;.+/&%$'|\u00e8\u4e2d\U0001f600")
    form = S.choice("form", ["call:x=§", "call:x=\"§\"", "call:ns.x=§", "call:call=§", "call:lac.al=§", "call:x=\"§\" "])
    if form.endswith(" "):
        v, form = "", form[:-1]  # passed, and empty
    env = S.choice("env", ["", ", pass_environment=false", ", pass_environment=true"])
    first = S.choice("first", [True, False])
    n = form.split("=")[0][5:]
    S.files({"a.mau": "`a`{" + n + "}\n\n:y:3\n\n:ns.z:4\n\n:w:5"})
    e = M("mau.environment.environment").Environment
    e = e.from_dict({"x": "0", "w": "1", "ns": {"x": "9", "z": "8"}})
    before = {k: x for k, x in e.asflatdict().items()}
    a, b = form.split("§")
    text = "<< mau:a.mau, " + a + v + b + env if first or not env else "<< mau:a.mau" + env + ", " + a + v + b
    p = parse(M, text, env=e)
    S.obs(dumps(p.nodes))
    S.equal("variables of the includer", {k: e.get(k) for k in ("x", "w", "ns.x", "ns.z", "y")}, dict(before, y=None))
    inner = p.nodes[0]
    S.equal("include calls", calls(p), [[SRC, "a.mau", [[n, v]]]])
    S.equal("arguments of the include", dump(inner)[1], [])
    w = M("mau.environment.environment").Environment.from_dict({n: v})
    S.equal("content", dumps(inner.content), dumps(parse(M, "`a`{" + n + "}", env=w).nodes))


def names(M, S):
    """A variable is passed under exactly the name it is given."""
    n = S.str("n", S.params["n"], ":.-_+abZ19@#*!?/$%()[]<>\u00e8")
    v = S.str("v", 1, "abXYZ019")
    env = S.choice("env", ["", ", pass_environment=false"])
    S.files({"a.mau": "{" + n + "}"})
    p = parse(M, "[a.mau, call:" + n + "=" + v + ", other=1" + env + "]\n<< mau\n")
    S.obs(dumps(p.nodes))
    S.equal("include calls", calls(p), [[SRC, "a.mau", [[n, v]]]])
    S.equal("arguments of the include", p.nodes[0].arguments.named_args, {"other": "1"})
    S.equal("values", shown(p.nodes), [v])


def kept(M, S):
    """Only what is written call: is passed; any other argument stays with the include."""
    name = S.choice("head", ["", "c", "call", "call.", "caller", "Call", "acall", "pass", "pass_environment", "uri"]) + S.str("n", S.params["n"], "abcdelruvACELR019_.-:")
    S.assume(S.all(name != "", name != "uri", name != "pass_environment", S.no(name.startswith("call:"))))
    v = S.str("v", 1, "abXYZ019")
    first = S.choice("first", [True, False])
    S.files({"a.mau": "f({z})"})
    text = "<< mau:a.mau, " + (name + "=" + v + ", call:z=q" if first else "call:z=q, " + name + "=" + v)
    p = parse(M, text, {"z": "0"})
    S.obs(dumps(p.nodes))
    S.equal("include calls", calls(p), [[SRC, "a.mau", [["z", "q"]]]])
    S.equal("arguments of the include", p.nodes[0].arguments.named_args, {name: v})
    S.equal("values", shown(p.nodes), ["f(q)"])


def chain(M, S):
    """Many files, one including the next, or all in one."""
    n = S.params["n"]
    w = S.str("w", 1, VALUE)
    kind = S.choice("kind", ["chain", "all", "loop"])
    files = {}
    for i in range(n):
        nxt = "" if kind == "all" or (i == n - 1 and kind == "chain") else "\n\n<< mau:f%d.mau, call:v={v}%d" % (i + 1 if i < n - 1 else n // 2, i % 10)
        files["f%d.mau" % i] = "t%d {v}" % i + nxt
    S.files(files)
    text = "<< mau:f0.mau" if kind != "all" else "\n\n".join("<< mau:f%d.mau" % i for i in range(n))
    kd, p = attempt(M, parse, M, text, {"v": w})
    if kind == "loop":
        S.equal("outcome", [kd, p.text[:18] if kd == "error" else ""], ["error", "To avoid recursion"])
        return
    S.equal("outcome", kd, "ok")
    want, v = [], w
    for i in range(n):
        want.append("t%d " % i + v)
        if kind == "chain":
            v = v + str(i % 10)
    S.obs(shown(p.nodes))
    S.equal("values", shown(p.nodes), want)
    S.equal("include calls", [[a, b] for a, b, c in calls(p)], [[SRC if kind == "all" or i == 0 else "f%d.mau" % (i - 1), "f%d.mau" % i] for i in range(n)])


# ------------------------------------------------------------------ graphs
SPELL = {"a": ["a.mau", "./a.mau", "d/../a.mau"], "b": ["b.mau", "./b.mau"], "c": ["c.mau"], "m": [SRC, "./" + SRC]}
HOLD = {"plain": "§", "block": "++++\n§\n++++", "deep": "++++\n----\nx\n\n§\n----\n++++", "open": "[isolate=false]\n++++\n§\n++++",
        "condition": "@if v==1\n§", "footnote": "[footnote=n§]\n++++\n§\n++++", "group": "[group=g, position=p]\n++++\n§\n++++\n\n<< blockgroup:g"}


def place(hold, text, k):
    return HOLD[hold].replace("n§", "n%d" % k).replace("§", text)


def expand(name, edges, chain, log):
    """Includes in order; the file whose include closes a loop."""
    for t in edges[name]:
        if t in chain:
            return name
        log.append([name, t])
        r = expand(t, edges, chain + [t], log)
        if r:
            return r
    return None


def graph(M, S):
    """Any graph of includes: an error exactly when a file is reached from itself, otherwise every file in its place."""
    names = S.params["files"]
    width = S.params["width"]
    hold = S.choice("hold", S.params["holds"])
    targets = S.params["targets"]
    edges = {}
    text = {}
    for f in ["m"] + names:
        k = S.choice("k" + f, range(1 if f == "m" else 0, width + 1))
        edges[f] = [S.choice("e%s%d" % (f, i), targets) for i in range(k)]
        text[f] = "\n\n".join([f] + [place(hold, "<< mau:" + SPELL[t][S.params.get("spell", 0) % len(SPELL[t])], i) for i, t in enumerate(edges[f])])
        if hold in ("group",) and k > 1:
            text[f] = "\n\n".join([f] + ["++++\n" + place(hold, "<< mau:" + SPELL[t][0], i).replace("+" * 4, "-" * 4) + "\n++++" for i, t in enumerate(edges[f])])
    S.files(dict({SPELL[f][0]: text[f] for f in names}, **{SRC: text["m"], "d/x": ""}))
    log = []
    loop = expand("m", edges, ["m"], log)
    kd, p = attempt(M, parse, M, text["m"], {"v": "1"})
    if loop:
        S.reach("loop")
        S.equal("outcome", kd, "error")
        S.check("recursion", p.text.startswith("To avoid recursion"), p.text)
        S.equal("file with the last include", place_of(p)[2][-5:], SPELL[loop][0][-5:])
        return
    S.reach("no loop")
    S.equal("outcome", kd, "ok")
    S.equal("include calls", [[c[0][-5:], c[1][-5:]] for c in calls(p)], [[SPELL[a][0][-5:], SPELL[b][0][-5:]] for a, b in log])
    if hold not in ("footnote", "group"):
        S.equal("texts", shown_tree(p.nodes), tree_of("m", edges, hold))


def shown_tree(nodes):
    out = []
    for n in nodes:
        if n.type == "paragraph":
            out.append(n.content[0].content[0].value)
        elif n.type == "include-mau":
            out.append([n.uri[-5:], shown_tree(n.content)])
        else:
            out += [x for x in shown_tree(n.content) if not S_is_x(x)]
    return out


def S_is_x(x):
    return isinstance(x, str) and x == "x"


def tree_of(f, edges, hold):
    return [f] + [[SPELL[t][0][-5:], tree_of(t, edges, hold)] for t in edges[f]]


def paths(M, S):
    """A file that includes itself through paths that are always different."""
    a, b = S.choice("a", ["./", "d/../", ".//", "../w/"]), S.choice("b", ["", "./", "d/../"])
    w = S.str("w", 1, VALUE)
    S.files({"w/a.mau": w + "\n\n<< mau:w/" + a + "{u}, call:u=" + a + "{u}", "w/d/x": ""})
    kd, p = attempt(M, parse, M, "<< mau:w/" + b + "a.mau", {"u": "a.mau"})
    S.equal("outcome", [kd, p.text[:18] if kd == "error" else ""], ["error", "To avoid recursion"])


def faults(M, S):
    """A fault in an included file is the fault of parsing it, at its place in that file."""
    name = S.choice("fault", [k for k in FAULTS])
    text, at = FAULTS[name]
    lead = S.choice("lead", ["", "x\n\n"])
    deep = S.choice("deep", [0, 1])
    w = S.str("w", 1, VALUE)
    text = lead + w + "\n\n" + text
    S.files({"a.mau": text, "b.mau": "y\n\n<< mau:a.mau"})
    env = {"x": "1"}
    kw, want = attempt(M, parse, M, text, env, source="a.mau")
    kd, p = attempt(M, parse, M, "z\n\n<< mau:" + ["a", "b"][deep] + ".mau\n\nafter", env)
    S.equal("outcomes", [kw, kd], ["error", "error"])
    S.equal("error", p.text, want.text)
    S.equal("place", place_of(p), place_of(want))


def cases(tier):
    deep = tier != "quick"
    keys = list(DOCS)
    out = [("content0", content, dict(docs=keys, n=0, forms=["inline"])),
           ("content1", content, dict(docs=["two", "toc", "footnotes", "variables"], n=1, forms=["inline", "with"])),
           ("content2", content, dict(docs=[""], n=2, forms=list(FORMS), where=["first"])),
           ("content3", content, dict(docs=[""], n=3, forms=["inline"], where=["first"]))]
    if deep:
        out += [("content4", content, dict(docs=[""], n=4, forms=["inline"], where=["first"])), ("content5", content, dict(docs=keys, n=1, forms=["boxed"]))]
    for lens in ((0,), (2,), (1, 1), (0, 2, 0), (2, 0)) + (((4,), (2, 2, 2), (0, 0, 0)) if deep else ()):
        out.append(("raw %s" % "-".join(map(str, lens)), raw, dict(lens=lens)))
    out += [("scope1", scope, dict(names=["x", "y"], deep=False, wraps=["", "++++"])), ("scope2", scope, dict(names=["x", "n.y"], deep=True, wraps=[""])),
            ("final", final, {}), ("names", names, dict(n=3 if deep else 2)), ("kept0", kept, dict(n=0)), ("kept1", kept, dict(n=1)), ("kept2", kept, dict(n=3 if deep else 2)),
            ("chain", chain, dict(n=25 if deep else 12)), ("faults", faults, {}), ("paths", paths, {})]
    if deep:
        out += [("scope3", scope, dict(names=["x", "y", "x.y"], deep=True, wraps=["", "[isolate=false]\n++++"]))]
    out += [("graph1", graph, dict(files=["a", "b"], width=1, targets=["a", "b", "m"], holds=list(HOLD))),
            ("graph2", graph, dict(files=["a", "b"], width=2, targets=["a", "b", "m"], holds=["plain"])),
            ("graph3", graph, dict(files=["a", "b"], width=1, targets=["a", "b", "m"], holds=["plain", "block"], spell=1)),
            ("graph4", graph, dict(files=["a", "b", "c"], width=1, targets=["a", "b", "c", "m"], holds=["plain"]))]
    if deep:
        out += [("graph5", graph, dict(files=["a", "b", "c"], width=2, targets=["a", "b", "c"], holds=["plain"])),
                ("graph6", graph, dict(files=["a", "b"], width=2, targets=["a", "b", "m"], holds=["block", "open"], spell=2))]
    return out
