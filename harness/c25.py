"""C25 Processing is deterministic and leaves no trace behind."""
from harness.c22 import jinja, norm
from harness.common import FIELDS, attempt, ctx_of, dump, dumps, handler, new_env
from harness.corpus import DOCS, FAULTS
from harness.refs import BLOCKS, INLINE, put

BOUNDS = {"quick": "each of 23 documents and 51 faulty texts with an arbitrary line of 1 character, twice, with each of 74 texts processed in between "
                   "(and the same parser classes, visitors and environments); arguments and documents under 3 iteration orders of sets; each text under 3 values of hash() and id(); 5 kinds of settings and 16 template configurations in between; every field of each document before and after visits",
          "thorough": "lines of up to 3 characters; pairs of documents in between"}
OUTSIDE = "iteration orders of sets other than any order, its reverse and a rotation; addresses and hashes seen by other means than hash() and id()"
TEXTS = dict({"doc " + k: v for k, v in DOCS.items()}, **{"fault " + k: v[0] for k, v in FAULTS.items()})
VALUES = {"v": "1", "e": "", "a.b": "x", "mau.parser.aliases": {"my": {"args": {"x": "1", "y": "2"}, "subtype": "sub", "names": ["n1"]}}}


def result(M, text, env=None, visitor=True, source="main.mau"):
    """Everything that can be seen of the processing of a text."""
    env = new_env(M, VALUES) if env is None else env
    H = handler(M)
    P = M("mau.parsers.document_parser").DocumentParser
    kd, p = attempt(M, P.lex_and_parse, text, H, env, source_filename=source)
    if kd == "error":
        c = getattr(p, "context", None)
        q = getattr(p, "position", None)
        return ["error", type(p).__name__, p.text, c and c.asdict(), q, flat(env), len(H.seen)]
    o = p.output
    out = ["ok", dumps(p.nodes, ctx=ctx_of), dump(o.document, ctx=ctx_of) if o.document else None, dump(o.toc, ctx=ctx_of) if o.toc else None,
           sorted(p.footnotes_manager.footnotes_dict), flat(env), len(H.seen)]
    if visitor:
        B = M("mau.visitors.base_visitor").BaseVisitor
        v = B(H, env)
        one = norm(v.process(o.document))
        two = norm(v.process(o.document))
        out += [one, one == two or two, dump(o.document, ctx=ctx_of) == out[2] if o.document else None]
    return out


def flat(env):
    return sorted([[k, v] for k, v in env.asflatdict().items()], key=lambda x: x[0])


def make(S, name, line, where):
    t = TEXTS[name]
    if where == 2:
        return t
    return t + "\n\n" + line + "\n" if where else line + "\n\n" + t


def twice(M, S):
    """Same text, same result, whatever happens in between."""
    a = S.choice("text", S.params["texts"])
    line = S.str("line", S.params["n"], S.params.get("dom", "line"))
    where = S.choice("where", [0, 1])
    text = make(S, a, line, where)
    first = result(M, text)
    S.obs(first)
    for b in S.params["between"]:
        result(M, TEXTS[b])
    S.equal("same again", result(M, text), first)


def between(M, S):
    a, b = S.choice("text", S.params["texts"]), S.choice("between", S.params["between"])
    line = S.str("line", 1, "abXYZ019.,;+-")
    text = make(S, a, line, S.choice("where", [0, 1]))
    first = result(M, text)
    S.obs(first)
    result(M, make(S, b, "z" + line, 1))
    S.equal("same again", result(M, text), first)


ALL = ("[@source, python]\n----\nimport a:1:\ndef x():@:\ny:@add:\nz:@new:\nt:@§:\n----\n\n[@my, §]\npar\n\n[@quote, \"q §\"]\n----\nx\n----\n\n[@admonition, a, b]\n----\n----\n\n"
       "[name=n]\n= h\n\n[footnote=f]\n----\nx\n----\n\n[footnote](f) [header](n)\n\n<< toc\n\n<< footnotes\n\n[a]\n. l\n* b")


def configured(M, S):
    """What an environment configures ends with it."""
    w = S.str("w", 1, "abXYZ019")
    k = S.choice("style", ["add", "new", "", "§", "remove"]).replace("§", w)
    v = S.str("v", 1, "abXYZ019")
    N = M("mau.nodes.document").DocumentNode if S.params["wrapper"] else None
    other = S.choice("other", S.params["others"])
    values = {"styles": {"mau.parser.source_highlight_style_aliases": {k: v}},
              "aliases": {"mau.parser.aliases": {"my": {"args": {"x": v}, "subtype": "z" + w, "names": ["x", "y"]}, "source": {"args": {"q": w}, "names": ["l"]},
                                                 "quote": {"subtype": "none"}, "admonition": {"args": {}}}},
              "functions": {"mau.parser.header_internal_id_function": lambda h: "H" + w, "mau.parser.footnote_unique_id_function": lambda f: "F" + w},
              "variables": {"v": w, "e": w, "a.b": w, "mau.other": w, "mau": {"parser": {"x": v}}}}
    if N is not None:
        values["wrapper"] = {"mau.parser.document_wrapper": N}
    conf = values[S.choice("configured", list(values))]
    text = ALL.replace("§", w)
    first = result(M, text)
    S.obs(first)
    # the same text or another one, with other settings
    again = (TEXTS[other] if other else text)
    one = result(M, again, new_env(M, dict(VALUES, **conf)))
    S.equal("same again", result(M, text), first)
    S.equal("same again with the settings", result(M, again, new_env(M, dict(VALUES, **conf))), one)


def environments(M, S):
    """An environment used before only keeps what the documents define."""
    w = S.str("w", 1, "abXYZ019.,;+-")
    a = S.choice("text", S.params["texts"])
    E = M("mau.environment.environment").Environment
    env = new_env(M, VALUES)
    before = flat(env)
    text = TEXTS[a] + "\n\n{v}" + w
    mine = E.from_environment(env)
    first = result(M, text, mine)
    S.obs(first)
    S.equal("source of the environment", flat(env), before)
    S.equal("same with an equal environment", result(M, text, E.from_environment(env)), first)
    other = new_env(M)
    S.equal("new environment is empty", flat(other), [])


def aliases(M, S):
    """The arguments an alias gives do not build up."""
    w = S.str("w", 1, "abXYZ019")
    k = S.choice("arguments", ["@my", "@my, §", "§, @my", "#§, @my", "@my, #t1", "@my, k=§", "@source, §", "@source", "@my, *§"])
    first = None
    text = "[" + k.replace("§", w) + "]\n++++\nx" + w + "\n++++\n\n[" + k.replace("§", w) + "]\npar"
    env = new_env(M, VALUES)
    for i in range(3):
        got = result(M, text, env if S.params["shared"] else None)
        if first is None:
            first = got
            S.obs(first)
        S.equal("same again", got, first)
        result(M, "[@my, 1, 2, #q, a=b]\n++++\n++++\n")


def sets(M, S):
    """No order of a set shows in the result."""
    a = S.choice("text", S.params["texts"])
    w = S.str("w", 1, "abXYZ019")
    args = "[#t" + w + ", #u, #zz, #" + w + ", *s, p, " + w + "q, @my, k=v, l=" + w + ", classes=\"c1,c2," + w + "3\"]\n"
    text = args + "++++\n" + TEXTS[a] + "\n++++\n\n[#a, #b, #c" + w + ", one, two]\npar [class](\"t\", k1, k2, " + w + "k)\n\n. one\n.r2 two\n.r3 three\n" + args + "<< other"
    got = S.orders(lambda: result(M, text))
    for x in got[1:]:
        S.check("same for every order", x == got[0])


def machine(M, S):
    """Nothing depends on the values of hash() and id(), that change from a run to the next one."""
    import os
    a = S.choice("text", S.params["texts"])
    w = S.str("w", 1, "abXYZ019")
    text = make(S, a, w, S.choice("where", [0, 1])) + "\n\n= !?\n\n[name=n" + w + "]\n= h\n\n[header](n" + w + ")\n\n[@source]\n++++\n" + w + "\n++++\n\n<< toc\n"
    first = result(M, text)
    S.obs(first)
    root = os.path.dirname(M("mau").__file__)
    names = ["mau." + os.path.relpath(os.path.join(d, f[:-3]), root).replace("/", ".") for d, _, fs in os.walk(root) for f in fs if f.endswith(".py") and f != "__init__.py"]
    names = [x for x in names if x.split(".")[1] in ("parsers", "nodes", "lexers", "visitors", "environment", "text_buffer", "token", "message")]
    for k in (0x5bd1e995, 12345):
        for x in names:
            m = M(x)
            S.patch(m, "hash", lambda v, k=k: hash(S.concretize(v)) ^ k)
            S.patch(m, "id", lambda v, k=k: id(v) ^ k)
        S.equal("same on another machine", result(M, text), first)


def templates(M, S):
    """The same template whatever the order of tags."""
    w = S.str("w", 1, "abXYZ019")
    E = M("mau.environment.environment").Environment
    env = E()
    env["mau.visitor.templates.custom"] = {"document.j2": "{{ content }}", "paragraph.j2": "-", "paragraph.tg_a.j2": "A", "paragraph.tg_b.tg_a.j2": "AB",
                                           "paragraph.tg_b.tg_a.tg_c.j2": "ABC", "paragraph.s.j2": "S", "paragraph-line.j2": "", "text.j2": ""}
    tags = S.order("order", ["#a", "#b", "#c", "#" + w + "d"])
    n = S.choice("n", range(5))
    text = "[" + ", ".join(tags[:n] + ["p"]) + "]\nx" + w

    def run():
        P = M("mau.parsers.document_parser").DocumentParser
        p = P.lex_and_parse(text, handler(M), new_env(M), source_filename="main.mau")
        return M("mau.visitors.jinja_visitor").JinjaVisitor(handler(M), env).process(p.output.document)
    got = S.orders(run)
    for x in got[1:]:
        S.check("same for every order", x == got[0])


def rendering(M, S):
    """A visitor used before gives what a new one gives."""
    a, b = S.choice("text", S.params["texts"]), S.choice("between", S.params["between"])
    w = S.str("w", 1, "abXYZ019")
    P = M("mau.parsers.document_parser").DocumentParser
    docs = [P.lex_and_parse(TEXTS[k] + "\n\n" + w, handler(M), new_env(M, VALUES), source_filename="main.mau").output.document for k in (a, b)]
    for make in (lambda: M("mau.visitors.base_visitor").BaseVisitor(handler(M), new_env(M, VALUES)), lambda: jinja(M)):
        first = norm(make().process(docs[0]))
        v = make()
        S.equal("new visitor", norm(v.process(docs[0])), first)
        v.process(docs[1])
        S.equal("visitor used before", norm(v.process(docs[0])), first)
    S.obs(first)


def untouched(M, S):
    """Visiting a document changes nothing in it."""
    a = S.choice("text", S.params["texts"])
    w = S.str("w", 1, "abXYZ019")
    text = "[#zz, #a, #m" + w + ", z, b, " + w + ", y=1, k=2, a=" + w + "]\nfirst\n\n" + TEXTS[a] + "\n\n[#z, #b, y, c]\npar [class](\"t\", z, k2, " + w + "k) *_x_ _" + w + "_*"
    P = M("mau.parsers.document_parser").DocumentParser
    env = new_env(M, VALUES)
    p = P.lex_and_parse(text, handler(M), env, source_filename="main.mau")
    o = p.output
    first = [[dump(n, ctx=ctx_of) if n else None for n in (o.document, o.toc)], dumps(p.nodes, ctx=ctx_of), flat(env)]
    S.obs(first[0])
    nodes = list(p.nodes)
    state = [everything(n) for n in nodes]
    for v in (M("mau.visitors.base_visitor").BaseVisitor(handler(M), env), jinja(M)):
        for n in (o.document, o.toc):
            if n:
                v.process(n)
        for n in p.nodes:
            v.visit(n)
            v.visit(n)
        S.equal("nodes after a visit", [[dump(n, ctx=ctx_of) if n else None for n in (o.document, o.toc)], dumps(p.nodes, ctx=ctx_of), flat(env)], first)
        S.equal("fields of nodes after a visit", [everything(n) for n in nodes], state)


def everything(node, done=None):
    """All fields of a node, its parts included."""
    done = {} if done is None else done
    if isinstance(node, (list, tuple)):
        return [everything(x, done) for x in node]
    if isinstance(node, dict):
        return [[k, everything(v, done)] for k, v in node.items()]
    if hasattr(node, "__dict__") and type(node).__module__.startswith("mau."):
        if id(node) in done:
            return ["again", done[id(node)]]
        done[id(node)] = len(done)
        return [type(node).__name__] + [[k, everything(v, done)] for k, v in node.__dict__.items()]
    return node


def visitors(M, S):
    """Templates of a visitor are not those of another one."""
    w = S.str("w", 1, "abXYZ019")
    J, B = M("mau.visitors.jinja_visitor").JinjaVisitor, M("mau.visitors.base_visitor").BaseVisitor

    class D(J):
        default_templates = M("mau.environment.environment").Environment.from_dict({"document.j2": "D{{ content }}", "text.j2": "D" + w, "paragraph-line.j2": "{{ content }}"})
    sets = [{}, {"text.j2": "1{{ value }}" + w, "paragraph.j2": "1{{ content }}"}, {"text.s.j2": "2", "paragraph.tg_t.j2": "2T{{ content }}", "paragraph.pf_p.j2": "P{{ content }}"},
            {"paragraph": {"j2": "3{{ content }}"}, "document.j2": "3{{ content }}", "paragraph-line.j2": "3{{ content }}", "text.j2": "3"}]
    P = M("mau.parsers.document_parser").DocumentParser
    docs = [P.lex_and_parse("[#t]\nx" + x, handler(M), new_env(M), source_filename="main.mau").output.document for x in (w, "other")]

    def render(i):
        cls, k, prefixes = kinds[i]
        h = handler(M)
        env = new_env(M, dict({"mau.visitor.templates.custom": sets[k]} if sets[k] else {}, **({"mau.visitor.templates.prefixes": ["p"]} if prefixes else {})))
        kd, r = attempt(M, lambda: cls(h, env).process(docs[0]))
        return [kd, r if kd == "ok" else [r.text, r.node_type]], flat(env)
    kinds = [(c, k, f) for c in (J, D) for k in range(len(sets)) for f in (False, True)]
    a, b = S.choice("a", range(len(kinds))), S.choice("b", range(len(kinds)))
    first = render(a)
    S.obs(first[0])
    second = render(b)
    S.equal("same again", render(a), first)
    S.equal("same again, the other", render(b), second)


def cases(tier):
    deep = tier != "quick"
    T = list(TEXTS)
    docs = [k for k in T if k.startswith("doc")]
    out = [("twice", twice, dict(texts=T, n=1, between=["doc styles"])),
           ("between", between, dict(texts=["doc header-args", "doc footnotes", "doc variables"], between=T)),
           ("between2", between, dict(texts=T, between=["doc labels", "doc source", "fault unclosed block"])),
           ("environments", environments, dict(texts=T)), ("aliases", aliases, dict(shared=False)), ("aliases shared", aliases, dict(shared=True)),
           ("configured", configured, dict(wrapper=False, others=[None, "doc source"])), ("configured2", configured, dict(wrapper=True, others=[None, "doc header-args", "doc footnotes", "fault undefined header"])),
           ("sets", sets, dict(texts=docs)), ("machine", machine, dict(texts=T)), ("templates", templates, {}), ("visitors", visitors, {}), ("untouched", untouched, dict(texts=docs)),
           ("rendering", rendering, dict(texts=docs, between=["doc footnotes"])), ("rendering2", rendering, dict(texts=["doc toc", "doc group"], between=docs))]
    if deep:
        out += [("twice2", twice, dict(texts=T, n=2, between=["doc labels", "fault unclosed block"], dom="-\"[`")), ("between3", between, dict(texts=T, between=T)),
                ("twice3", twice, dict(texts=["doc two"], n=3, between=docs))]
    return out
