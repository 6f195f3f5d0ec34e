"""C22 Visitors render every part of every node once and in order."""
from harness.c20 import below, classes, full, children, fresh
from harness.common import FIELDS, attempt, handler, new_env, parse
from harness.corpus import DOCS
from harness.refs import BLOCKS, INLINE, put

BOUNDS = {"quick": "31 types of nodes with arbitrary fields (2 characters), arguments, positions and up to 2 children, with each visit option; 23 documents and "
                   "18 places of lines with 15 kinds of inline text; arbitrary separators of 1 character for every type; 12 parts of each of 12 kinds",
          "thorough": "3 children, 3 levels; 40 parts of each of 12 kinds"}
OUTSIDE = "the text of templates (Jinja) and of YAML documents (PyYAML); the separators of types that have no children"

# visit functions give these names to the fields; everything else keeps its own
SKIP = {("macro-footnote", "name"), ("blockgroup-item", "group")}
REFERENCES = {("macro-header", "header"), ("macro-footnote", "footnote"), ("toc-item", "header"), ("footnotes-item", "footnote")}
SEPARATORS = {"document": "\n", "source": "\n", "paragraph": " "}


class Expected:
    """What a visit of a tree gives, as nested dictionaries or as the text of templates."""

    def __init__(self, context=True, parent=True, template=None, separators=None):
        self.context, self.parent, self.template, self.separators = context, parent, template, separators
        self.stack = []
        self.visited = 0

    def own(self, node):
        if node is None:
            return {}
        a = node.arguments
        out = {"_type": node.type, "args": list(a.unnamed_args), "kwargs": {k: a.named_args[k] for k in a.named_args}, "tags": list(a.tags),
               "internal_tags": list(a.internal_tags), "subtype": a.subtype}
        if self.context:
            c = node.info.context
            out["_context"] = {"start_line": c.start_line, "start_column": c.start_column, "end_line": c.end_line, "end_column": c.end_column,
                               "source": c.source}
        return out

    def data(self, node, bare=False):
        if node is None:
            return {}
        t = node.type
        out = self.own(node)
        if self.parent:
            out["parent"] = self.own(node.parent)
        for f in FIELDS[t]:
            if (t, f) in SKIP:
                continue
            v = getattr(node, f)
            if (t, f) in REFERENCES:
                out[f] = self.reference(v)
            elif f in ("labels", "items"):
                out[f] = {} if bare else {k: self.visit(v[k]) for k in v}
            elif isinstance(v, list) and f != "classes":
                out[f] = self.join(t, [] if bare else [self.visit(x) for x in v])
            elif f == "block":
                out["block_data"] = self.reference(v)
                out[f] = self.visit(v)
            elif f == "marker":
                out[f] = self.visit(v)
            elif f == "classes":
                out[f] = list(v)
            else:
                out[f] = v
        return out

    def visit(self, node):
        if node is None:
            return {} if self.template is None else ""
        self.visited += 1
        d = self.data(node)
        return d if self.template is None else self.template(d)

    def reference(self, node):
        if node is None:
            return {}
        if any(node is x for x in self.stack):
            return self.data(node, bare=True)
        self.stack.append(node)
        out = self.data(node)
        self.stack.pop()
        return out

    def join(self, t, parts):
        if self.template is None:
            return parts
        sep = self.separators.get(t, "")
        out = ""
        for i, x in enumerate(parts):
            out = out + (sep if i else "") + x
        return out


def norm(d, every=False):
    if isinstance(d, dict):
        keys = list(d)
        return [[k, norm(d[k], every)] for k in (sorted(keys) if "_type" in keys or every else keys)]
    if isinstance(d, (list, tuple)):
        return [norm(x, every) for x in d]
    return d


def check_visit(M, S, node, **opts):
    v = M("mau.visitors.base_visitor").BaseVisitor(handler(M), new_env(M))
    before = full(node)
    got = norm(v.visit(node, **opts))
    S.obs(got)
    want = Expected(opts.get("add_context", True), opts.get("add_parent", True)).visit(node)
    S.equal("visited", got, norm(want))
    S.equal("node unchanged", full(node), before)
    S.equal("visited again", norm(v.process(node, **opts)), got)
    yaml_too(M, S, node, want, opts)


def yaml_too(M, S, node, want, opts):
    """The YAML visitor writes the same data."""
    Y = M("mau.visitors.yaml_visitor")
    written = []

    def dump(data, *args, **kwargs):
        written.append(data)
        return "text"
    v = Y.YamlVisitor(handler(M), new_env(M))
    S.equal("visited for YAML", norm(v.visit(node, **opts)), norm(want))
    import yaml
    S.patch(yaml, "dump", dump)
    if hasattr(Y, "dump"):
        S.patch(Y, "dump", dump)
    S.equal("YAML document", v.process(node, **opts), "text")
    S.equal("written as YAML", norm(written), norm([want]))


def yaml_text(M, S):
    """What is written as YAML reads back as the same data."""
    import yaml
    doc = S.choice("doc", list(DOCS))
    p = parse(M, DOCS[doc], {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    Y = M("mau.visitors.yaml_visitor").YamlVisitor(handler(M), new_env(M))
    text = Y.process(p.output.document)
    S.obs(text)
    S.equal("YAML read back", norm(yaml.safe_load(text), True), norm(Expected().visit(p.output.document), True))


def tree_of(M, S):
    cls = classes(M)
    t = S.choice("type", [x for x in FIELDS if x not in ("value", "wrapper", "condition")])
    C = M("mau.text_buffer").Context
    ctx = C(1, 2, 3, 4, S.str("src", 1)) if S.params.get("fixed") else C(S.int("a"), S.int("b"), S.int("c"), S.int("d"), S.str("src", 1))
    return fresh(M, S, cls, t, "", S.params["depth"], S.params["kids"], ctx), cls


def link(cls, node, root):
    for x in below(node):
        for _, y in children(x):
            y.parent = x
    node.parent = root


def types(M, S):
    node, cls = tree_of(M, S)
    top = S.choice("parent", S.params["parents"])
    link(cls, node, cls[top]() if top else None)
    check_visit(M, S, node, **S.choice("options", S.params["options"]))


def documents(M, S):
    doc = S.choice("doc", list(DOCS))
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    p = parse(M, DOCS[doc] + "\n\n. k" + w + "\n[" + w + ", #t, *s, k=v, classes=\"k,l\"]\n++++\n* a" + w + "\n** b\n++++",
              {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    check_visit(M, S, S.choice("node", ["document", "toc"]) == "toc" and p.output.toc or p.output.document)


CYCLES = {
    "header to itself": "[name=a, internal_id=i]\n= A § [header](a)",
    "header to itself in a body": "[name=a, internal_id=i]\n= A § [header](a, \"§\")\n\nsee [header](a)\n\n<< toc",
    "two headers": "[name=a, internal_id=i]\n= A [header](b, \"§ to b\")\n\n[name=b, internal_id=j]\n== B [header](a, \"§ to a\")\n\n<< toc",
    "three headers": "[name=a, internal_id=i]\n= A [header](b, \"§\")\n\n[name=b, internal_id=j]\n== B [header](c, \"§\")\n\n. § [header](c)\n[name=c, internal_id=k]\n== C [header](a, \"§\")",
    "footnote to itself": "x[footnote](n)\n\n[footnote=n, isolate=false]\n++++\nbody § [footnote](n)\n++++\n\n<< footnotes",
    "two footnotes": "x[footnote](n)\n\n[footnote=n, isolate=false]\n++++\nn § [footnote](m)\n++++\n\n[footnote=m, isolate=false]\n++++\nm § [footnote](n)\n++++\n\n<< footnotes",
    "header and footnote": "[name=a, internal_id=i]\n= A §[footnote](n)\n\n[footnote=n, isolate=false]\n++++\nn [header](a, \"§\")\n++++\n\n<< footnotes\n\n<< toc",
    "group": "[group=g, position=p]\n++++\n[name=a, internal_id=i]\n= § [header](a, \"§\")\n++++\n\n<< blockgroup:g",
}


def cycles(M, S):
    """Circular references end."""
    k = S.choice("cycle", CYCLES)
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    p = parse(M, w.join(CYCLES[k].split("§")))
    v = M("mau.visitors.base_visitor").BaseVisitor(handler(M), new_env(M))
    got = norm(v.visit(p.output.document))
    S.obs(got)
    S.equal("visited", got, norm(Expected().visit(p.output.document)))
    S.equal("visited again", norm(v.visit(p.output.document)), got)


# ------------------------------------------------------------------ templates
LISTS = ("content", "plain_entries", "nested_entries", "entries", "footnotes")


def source_of(t):
    """A template that shows everything it is given."""
    out = "<" + t + "{% for x in args %}({{ x }}){% endfor %}{% for k, x in kwargs.items() %}({{ k }}={{ x }}){% endfor %}" \
        "{% for x in tags %}#{{ x }}{% endfor %}{{ subtype }}^{{ parent._type }}"
    for f in FIELDS[t]:
        if (t, f) in SKIP:
            continue
        if (t, f) in REFERENCES:
            out += "|" + f + " {{ " + f + ".name }}{{ " + f + ".internal_id }} {{ " + f + ".content }}"
        elif f in ("labels", "items"):
            out += "{% for k, x in " + f + ".items() %}|{{ k }}:{{ x }}{% endfor %}"
        elif f == "classes":
            out += "{% for x in classes %}.{{ x }}{% endfor %}"
        elif f == "block":
            out += "|{{ block }}|{{ block_data.content }}"
        else:
            out += "|{{ " + f + " }}"
    return out + ">"


def show(d):
    def s(x):
        return x if isinstance(x, str) or hasattr(x, "strip") else str(x)
    t = d["_type"]
    out = "<" + t
    for x in d["args"]:
        out = out + "(" + x + ")"
    for k in d["kwargs"]:
        out = out + "(" + k + "=" + d["kwargs"][k] + ")"
    for x in d["tags"]:
        out = out + "#" + x
    out = out + s(d["subtype"]) + "^" + d["parent"].get("_type", "")
    for f in FIELDS[t]:
        if (t, f) in SKIP:
            continue
        if (t, f) in REFERENCES:
            r = d[f]
            out = out + "|" + f + " " + (s(r["name"]) if "name" in r else "") + (s(r["internal_id"]) if "internal_id" in r else "") + " " + s(r.get("content", ""))
        elif f in ("labels", "items"):
            for k in d[f]:
                out = out + "|" + k + ":" + d[f][k]
        elif f == "classes":
            for x in d[f]:
                out = out + "." + x
        elif f == "block":
            out = out + "|" + d[f] + "|" + d["block_data"].get("content", "")
        else:
            out = out + "|" + s(d[f])
    return out + ">"


def jinja(M, seps=None, hidden=""):
    J = M("mau.visitors.jinja_visitor").JinjaVisitor
    E = M("mau.environment.environment").Environment
    t = E()
    t["mau.visitor.templates.custom"] = {k + J.extension: "" if k == hidden else source_of(k) for k in FIELDS}
    cls = J
    if seps is not None:
        class V(J):
            join_with = seps
            join_with_default = seps[""]
        cls = V
    return cls(handler(M), t)


def templates(M, S):
    doc = S.choice("doc", list(DOCS))
    w = S.str("w", 1, "abcXYZ09+.,;:<>{%")
    text = DOCS[doc] + "\n\n. k\n[a, #t, *s, k=v, classes=\"k,l\"]\n++++\nx `" + w + "`\ny\n\n* a`" + w + "`\n** b\n++++"
    p = parse(M, text, {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    v = jinja(M)
    before = full(p.output.document)
    got = v.visit(p.output.document)
    S.obs(got)
    S.equal("rendered", got, Expected(template=show, separators=SEPARATORS).visit(p.output.document))
    S.equal("document unchanged", full(p.output.document), before)
    S.equal("rendered again", v.process(p.output.document), got)


def places(M, S):
    block, inline = S.choice("block", BLOCKS), S.choice("inline", INLINE)
    w = S.str("w", 1, "abcXYZ09+.,;:<>")
    text = put(BLOCKS[block], put(INLINE[inline], "z" + w + " [link](u, \"k\")"))
    p = parse(M, text + "\n\n[name=hh, internal_id=i]\n= H\n\n<< toc\n\n[footnote](ff)" + ("" if block == "footnote body" else "\n\n[footnote=ff]\n++++\n. l\nx\n++++") +
              "\n\n<< footnotes", {"v": "1", "e": ""})
    check_visit(M, S, p.output.document)
    got = jinja(M).visit(p.output.document)
    S.equal("rendered", got, Expected(template=show, separators=SEPARATORS).visit(p.output.document))


def separators(M, S):
    """The parts of a node are joined with the separator of the type of the node."""
    doc = S.choice("doc", S.params["docs"])
    p = parse(M, DOCS[doc] + "\n\n++++\na\nb *c* d\n\ne\n++++\n\nx\n\n* y\n* z", {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    types = ["document", "block", "paragraph", "paragraph-line", "list", "source", "raw", "style", "footnote", "toc", "header"]
    size = S.choice("size", [1, 0])
    seps = {t: S.str(t, size, "-\0") for t in types if t not in S.params["skip"]}
    other = S.str("other", S.choice("size of other", [1, 0]), "-\0")
    hidden = S.choice("shown as nothing", ["", "text", "paragraph-line", "verbatim"])
    v = jinja(M, dict(seps, **{"": other}), hidden)
    got = v.visit(p.output.document)
    S.obs(got)
    want = Expected(template=lambda d: "" if d["_type"] == hidden else show(d), separators={t: seps.get(t, other) for t in FIELDS}).visit(p.output.document)
    S.equal("rendered", got, want)


def rendered(M, S):
    """Single nodes with arbitrary fields."""
    node, cls = tree_of(M, S)
    link(cls, node, cls["block"]())
    v = jinja(M)
    got = v.visit(node)
    S.obs(got)
    S.equal("rendered", got, Expected(template=show, separators=SEPARATORS).visit(node))


def repeat(n, w, form):
    return [("e%d" % i + (w if i == n - 2 else "")).join(form.split("§")) for i in range(n)]


MANY = {"paragraphs": ("\n\n", "p§"), "lines": ("\n", "l§"), "words": (" ", "_§_"), "items": ("\n", "* §"), "numbers": ("\n", "# §"),
        "headers": ("\n\n", "== h§"), "levels": ("\n\n", "= §\n\n== §\n\n=== §"), "blocks": ("\n\n", "++++\n§\n++++"), "labels": ("\n", ". § § "),
        "footnotes": ("\n\n", "[footnote=§, engine=raw]\n----\n§\n----"), "rules": ("\n\n", "[§]\n---"), "group": ("\n\n", "[group=g, position=§]\n++++\n§\n++++")}


def many(M, S):
    """As many parts as one likes are visited, all in their order."""
    n = S.params["many"]
    k = S.choice("parts", S.params["parts"])
    w = S.str("w", 1, "abcXYZ09")
    sep, form = MANY[k]
    parts = repeat(n if k != "levels" else n // 3, w, form)
    if k == "labels":
        parts = [".e%d%s §" % (i, w) for i in range(n)] + ["x"]
    head = "[name=hh, internal_id=i]\n= H\n\n" if k in ("headers", "blocks") else ""
    if k == "rules":
        parts = ["[" + ", ".join(repeat(n, w, "§") + ["#t%d" % i for i in range(n)] + ["k%d=%d" % (i, i) for i in range(n)]) + "]\n---",
                 "a [class](b, " + ", ".join(repeat(n, w, "c§")) + ")"]
        sep = "\n\n"
    doc = head + sep.join(parts) + ("\n\n<< blockgroup:g" if k == "group" else "\n\n<< footnotes\n\n<< toc")
    p = parse(M, doc, {"mau.parser.header_internal_id_function": lambda h: "i%d" % h.level})
    check_visit(M, S, p.output.document)
    got = jinja(M).visit(p.output.document)
    S.equal("rendered", got, Expected(template=show, separators=SEPARATORS).visit(p.output.document))
    check_visit(M, S, p.output.toc)


def nothing(M, S):
    for V in (M("mau.visitors.base_visitor").BaseVisitor(handler(M)), M("mau.visitors.base_visitor").BaseVisitor(handler(M), None)):
        S.equal("no node", V.visit(None), {})
        S.equal("no node processed", V.process(None), {})
    S.equal("no node rendered", jinja(M).visit(None), "")


def bare(M, S):
    """Visitors work without an environment."""
    w = S.str("w", 1, "abcXYZ09+.,;:<>{%")
    J = M("mau.visitors.jinja_visitor").JinjaVisitor
    B = M("mau.visitors.base_visitor").BaseVisitor
    doc = parse(M, "x `" + w + "`").output.document

    class V(J):
        default_templates = M("mau.environment.environment").Environment.from_dict({k + ".j2": source_of(k) for k in FIELDS})
    how = S.choice("how", ["left out", "none", "empty"])
    args = {"left out": [], "none": [None], "empty": [new_env(M)]}[how]
    S.equal("rendered", V(handler(M), *args).process(doc), Expected(template=show, separators=SEPARATORS).visit(doc))
    S.equal("visited", B(handler(M), *args).process(doc), Expected().visit(doc))
    S.obs(how)


def config(M, S):
    """A template reaches the whole configuration under the name config."""
    w = S.str("w", 2, "abcXYZ09+.,;:<>")
    k = S.choice("key", ["mau.own.x", "own", "mau.visitor.x.y"])
    where = S.choice("template", ["text", "paragraph", "document", "header"])
    E = M("mau.environment.environment").Environment
    J = M("mau.visitors.jinja_visitor").JinjaVisitor
    ref = "{{ config." + k + " }}"
    t = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}", "header.j2": "{{ content }}"}
    t[where + ".j2"] = "<" + ref + ">" + t[where + ".j2"]
    env = E()
    env[k] = w
    env["mau.visitor.templates.custom"] = t
    # what the text defines is not part of the configuration of the visitor
    p = parse(M, "= a\n\n:own2:x\nb", {"mau.parser.header_internal_id_function": lambda h: "i"})
    got = J(handler(M), env).process(p.output.document)
    S.obs(got)
    parts = ["a", "b"]
    if where == "text":
        parts = ["<" + w + ">" + x for x in parts]
    elif where == "header":
        parts[0] = "<" + w + ">a"
    elif where == "paragraph":
        parts[1] = "<" + w + ">b"
    S.equal("rendered", got, ("<" + w + ">" if where == "document" else "") + parts[0] + "\n" + parts[1])


def cases(tier):
    deep = tier != "quick"
    A = [{}, {"add_context": False}, {"add_parent": False}, {"add_context": False, "add_parent": False}]
    P = ["", "document", "block"]
    out = [("types0", types, dict(n=2, depth=0, kids=0, role="r", options=A, parents=P)),
           ("types1", types, dict(n=2, depth=1, kids=2, role="r", options=A[:1], parents=P[:2])),
           ("types2", types, dict(n=1, depth=2, kids=2, role="r", options=[A[0], A[3]], parents=P[2:])),
           ("documents", documents, {}), ("cycles", cycles, {}), ("templates", templates, {}),
           ("places", places, {}), ("types2b", types, dict(n=2, depth=2, kids=1, role="r", options=A, parents=P)),
           ("separators", separators, dict(docs=list(DOCS), skip=())),
           ("separators2", separators, dict(docs=list(DOCS), skip=("block", "list", "document"))),
           ("rendered1", rendered, dict(fixed=True, n=1, depth=1, kids=2, role="r")), ("rendered2", rendered, dict(fixed=True, n=1, depth=2, kids=1, role="r")),
           ("mix", types, dict(n=1, depth=1, kids=1, role="r", mix=True, options=A[:1], parents=P[1:])),
           ("rendered-mix", rendered, dict(fixed=True, n=1, depth=1, kids=1, role="r", mix=True)),
           ("config", config, {}), ("nothing", nothing, {}), ("bare", bare, {}), ("yaml", yaml_text, {}),
           ("many1", many, dict(many=12, parts=list(MANY)[:6])), ("many2", many, dict(many=12, parts=list(MANY)[6:]))]
    if deep:
        out += [("many " + k, many, dict(many=40, parts=[k])) for k in MANY]
        out += [("types3", types, dict(n=1, depth=3, kids=1, role="r", options=A, parents=P)), ("types4", types, dict(n=1, depth=2, kids=3, role="r", options=A[:1], parents=P[:1])),
                ("rendered3", rendered, dict(fixed=True, n=1, depth=3, kids=1, role="r")), ("rendered4", rendered, dict(fixed=True, n=1, depth=2, kids=3, role="r"))]
    return out
