"""C29 Errors are reported once, with their place, and stop the processing."""
from harness.c19 import place_of
from harness.c20 import below
from harness.common import FIELDS, attempt, ctx_of, handler, new_env, parse
from harness.corpus import DOCS, FAULTS

BOUNDS = {"quick": "51 faulty elements in 10 places after 9 kinds of documents and arbitrary text, from arbitrary file names; pairs of faulty elements; "
                   "every text of up to 4 characters out of 11 kinds and every short line; 23 documents with each template missing or broken; template providers that do not exist",
          "thorough": "every faulty element after every document; texts of 5 characters"}
OUTSIDE = "errors of the configuration (templates that are not well formed); the columns of errors (C03)"

WORD = "abcXYZ019+.,;: -"
# text around the faulty element, the lines before it
PLACES = {"top": ("", "", 0), "block": ("====\n", "\n====", 1), "open block": ("[isolate=false]\n====\n", "\n====", 2),
          "deep": ("====\nx\n\n[isolate=false]\n!!!!\n", "\n!!!!\n====", 5), "footnote": ("[footnote=q]\n====\n", "\n====\n\n[footnote](q)", 2),
          "group": ("[group=w, position=1]\n====\n", "\n====\n\n<< blockgroup:w", 2), "comment": ("////\n{nope}\n////\n", "", 3),
          "file": None, "file in a block": None, "file in a file": None}
LEADS = {"nothing": "", "text": "x\n\n", "comments": DOCS["comments"] + "\n\n", "blocks": DOCS["block"] + "\n\n", "source": DOCS["source"] + "\n\n", "lists": DOCS["list"] + "\n\n",
         "footnotes": DOCS["footnotes"].replace("\n\n<< footnotes", "") + "\n\n", "includes": "<< mau:ok.mau\n\n[raw.txt]\n<< raw\n\n",
         "one of each": "[group=gg, position=1]\n~~~~\nin\n~~~~\n\n<< blockgroup:gg\n\n[group=gg, position=2]\n~~~~\nin\n~~~~\n\n<< blockgroup:gg\n\n[footnote=k]\n~~~~\nf\n~~~~\n\n"
                        "[name=n1]\n= n\n\n[header](n1) [footnote](k) [link](a) [if:x==1](b)\n\n:y:1\n\n@if y==1\n{y}\n\n<< image:b\n\n<< toc\n\n<< footnotes\n\n<< other:x\n\n"
                        "[@source]\n~~~~\nx:1:\n~~~~\n\n[engine=raw]\n~~~~\n////\n~~~~\n\n[start=2]\n# i\n\n"}
OK = {"ok.mau": "= in\n\n\n\n[footnote=o]\n----\nof\n----\n", "raw.txt": "a\n{nope}\n"}


class Seen:
    """The stages of a run that were started, and what the visitor was given."""

    def __init__(self):
        self.visits = []


def run(M, text, source, values=None, visitor=None, templates=None):
    """(outcome, messages, visits): the outcome is the result or the error."""
    h = handler(M)
    m = M("mau")
    visits = []
    base = visitor or M("mau.visitors.base_visitor").BaseVisitor

    class V(base):
        def process(self, node, **kwargs):
            visits.append(node)
            return base.process(self, node, **kwargs)
    env = new_env(M, values)
    if templates is not None:
        env["mau.visitor.templates.custom"] = templates
    mau = m.Mau(h, env)
    try:
        return ["ok", mau.process(V, text, source)], h.seen, visits, mau
    except M("mau.message").MauException as e:
        return ["error", e.message], h.seen, visits, mau


KINDS = {"error-lexer": "lexer", "error-parser": "parser", "error-visitor": "visitor", "debug-visitor": "debug"}


def reported(M, S, got, seen, visits):
    """Exactly the error that reaches the caller is reported, and nothing is visited."""
    S.equal("one message", len(seen), 1)
    S.check("the message is the error", seen[0][1] is got[1], seen[0][0])
    S.equal("the kind of the message", seen[0][0], KINDS[got[1].type.value])
    S.check("the error tells what is wrong", got[1].text != "")
    S.check("the visitor runs only on a document", len(visits) == (1 if seen[0][0] == "visitor" else 0), len(visits))


def fault(M, S):
    """One faulty element: its error, once, with its place."""
    name, place, lead = S.params["fault"], S.choice("place", S.params["places"]), S.choice("lead", S.params["leads"])
    w = S.str("w", 1, WORD)
    # files are looked for next to the file that includes them
    src = "s.mau" if lead == "includes" or PLACES[place] is None or FAULTS[name][0].startswith("<<") else "\u00a7" + S.str("src", 1, "-\n")
    text, at = FAULTS[name]
    before = LEADS[lead] + ("x" + w + "\n\n" if lead != "nothing" else "")
    if PLACES[place] is None:
        # the line in the file
        inner = before + text
        S.files(dict(OK, **{"f.mau": inner, "g.mau": "y\n\n<< mau:f.mau"}))
        full = {"file": "z\n\n<< mau:f.mau\n\nend", "file in a block": "====\n<< mau:f.mau\n====", "file in a file": "[g.mau]\n<< mau"}[place]
        line, source = before.count("\n") + at, "f.mau"
    else:
        S.files(OK)
        pre, post, n = PLACES[place]
        # at the top the faulty element is the last one or has others behind it
        full = before + pre + text + post
        line, source = before.count("\n") + n + at, src
    got, seen, visits, _ = run(M, full, src, {"x": "1"})
    if got[0] != "error":
        S.fail("a faulty element is no error", name)
    S.reach(seen[0][0] if seen else "none")
    reported(M, S, got, seen, visits)
    m = got[1]
    if hasattr(m, "position"):
        S.equal("place of the error", [m.position[0], m.source], [line, source])
    else:
        c = m.context
        S.check("the place is known", c is not None)
        S.check("place of the error", S.all(c.start_line <= line, line <= c.end_line, c.source == source, c.end_line - c.start_line <= 2),
                [c.start_line, c.end_line, line, c.source, source])
    S.obs([m.text, place_of(m)[0]])
    logged(M, S, m, line, source)


def log_of(M, m, **k):
    """(level, text) of the lines the log handler writes for a message."""
    lines = []

    class L:
        def error(self, t):
            lines.append((40, t))

        def log(self, level, t):
            lines.append((level, t))
    M("mau.message").LogMessageHandler(L(), **k).process(m)
    return lines


def logged(M, S, m, line, source):
    """The log has the message, the file, the line (counted from 1) and the help."""
    lines = log_of(M, m)
    S.check("everything is logged as an error", all(x[0] == 40 for x in lines), lines)
    lines = [x[1] for x in lines]
    S.check("the message is logged", any(m.text in x for x in lines), lines)
    S.check("the file is logged", any(source in x for x in lines), lines)
    S.check("the line is logged", any(str(first) + "," in x or "(" + str(first) + "," in x for first in [(m.position[0] if hasattr(m, "position") else m.context.start_line) + 1] for x in lines), lines)
    if getattr(m, "help_text", None):
        S.reach("help")
        S.check("the help is logged", any(m.help_text in x for x in lines), lines)


def log(M, S):
    """Any message is logged with all it says, whatever is missing."""
    X = M("mau.message")
    C = M("mau.text_buffer").Context
    w = [S.str("w%d" % i, 1, WORD) for i in range(4)]
    kind = S.choice("kind", ["lexer", "parser", "visitor", "debug"])
    context = S.choice("context", [None, C(3, 1, 4, 2, "f" + w[1]), C(0, 0, 0, 0, "f" + w[1])])
    shown = ["t" + w[0]]
    if kind == "lexer":
        position = S.choice("position", [None, (3, 1), (0, 0)])
        m = X.MauLexerErrorMessage(text="t" + w[0], source="f" + w[1], position=position)
        shown.append("f" + w[1])
        if position:
            shown.append("(%d, %d)" % (position[0] + 1, position[1]))
    elif kind == "parser":
        help_text = S.choice("help", [None, "h" + w[2]])
        m = X.MauParserErrorMessage(text="t" + w[0], context=context, help_text=help_text)
        if help_text:
            shown.append(help_text)
        if context:
            shown += ["f" + w[1], "%d," % (context.start_line + 1)]
    else:
        data = S.choice("data", [None, {}, {"k": w[2], "l": "m" + w[3]}])
        info = S.choice("info", [None, {"i": "j" + w[3]}, {"info i": "", "info l": [], "info z": None}])
        node_type = S.choice("type", [None, "paragraph"])
        m = (X.MauVisitorErrorMessage if kind == "visitor" else X.MauVisitorDebugMessage)(text="t" + w[0], context=context, node_type=node_type, data=data, additional_info=info)
        if context:
            shown += ["f" + w[1], "%d," % context.start_line]
        if node_type:
            shown.append("paragraph")
        for k in (data or {}):
            shown += [k, data[k]]
        for k in (info or {}):
            shown += [k, info[k]] if info[k] else [k]
    level = S.choice("level", [None, 10, 20, 30])
    lines = log_of(M, m) if level is None else log_of(M, m, debug_logging_level=level)
    want = 40 if kind != "debug" else 20 if level is None else level
    S.obs(lines)
    S.check("level of the log", all(x[0] == want for x in lines), lines)
    for x in shown:
        S.check("everything is shown", any(x in y[1] for y in lines), [x, lines])
    if kind in ("lexer", "parser"):
        S.check("what is missing is not shown", not any("None" in str(y[1]) for y in lines), lines)


def two(M, S):
    """Two faulty elements: one error, that of one of them alone."""
    a, b = S.choice("a", S.params["a"]), S.choice("b", S.params["b"])
    w = S.str("w", 1, WORD)
    S.files(OK)
    ta, tb = FAULTS[a][0].replace("z", "q"), FAULTS[b][0]
    text = "x" + w + "\n\n" + ta + "\n\n" + tb + "\n\nend"
    S.assume("unclosed" not in a or not FAULTS[a][0].startswith(tb[:4]))
    got, seen, visits, _ = run(M, text, "s", {"x": "1"})
    if got[0] != "error":
        S.fail("a faulty element is no error", [a, b])
    reported(M, S, got, seen, visits)
    first = 2
    second = first + ta.count("\n") + 2
    line = place_of(got[1])[0]
    S.obs([got[1].text, line])
    alone = []
    for t, at in ((ta, first), (tb, second)):
        g, s, v, _ = run(M, "x" + w + "\n\n" + "-" * 0 + "\n" * (at - 2) + t + "\n\nend", "s", {"x": "1"})
        alone.append([g[1].text, g[1].type.value, place_of(g[1])[0]])
    S.check("the error of one of them", any([got[1].text, got[1].type.value, line] == x for x in alone), [got[1].text, line, alone])


def free(M, S):
    """Any text: a result and no message, or one error with a place in the text."""
    n = S.params["n"]
    text = S.params.get("pre", "") + S.str("t", n, S.params["dom"]) + S.params.get("post", "")
    S.files(OK)
    got, seen, visits, mau = run(M, text, "s.mau", {"x": "1", "mau.parser.header_internal_id_function": lambda h: "i"})
    S.obs([got[0], [k for k, _ in seen]])
    if got[0] == "ok":
        S.reach("ok")
        S.equal("no message", len(seen), 0)
        S.equal("visited once", len(visits), 1)
        return
    S.reach("error")
    reported(M, S, got, seen, visits)
    m = got[1]
    place = place_of(m)
    S.check("the place is known", place is not None, m.text)
    S.check("the place is in the text", 0 <= place[0] <= text.count("\n") + 1 and place[-1] == "s.mau", [place, m.text])


def fine(M, S):
    """A document without faults: no message, whatever visitor."""
    doc, place, lead = S.choice("doc", list(DOCS)), S.choice("place", ["top", "block", "open block", "deep", "group", "comment"]), S.choice("lead", S.params["leads"])
    S.assume(place in ("top", "comment") or not DOCS[doc].startswith("===="))
    w = S.str("w", 1, WORD)
    S.files(OK)
    pre, post, n = PLACES[place]
    text = LEADS[lead].replace("footnote=n", "footnote=nn").replace("footnote](n)", "footnote](nn)").replace("footnote=m", "footnote=mm").replace("footnote](m)", "footnote](mm)")
    text = text + "x" + w + "\n\n" + pre + DOCS[doc].replace("====", "~~~~" if doc == "empty-block" else "====") + post
    # quick: one visitor for each document and place
    kind = S.choice("visitor", ["base", "yaml", "jinja"] if S.params["deep"] else [["base", "yaml", "jinja"][(list(DOCS).index(doc) + len(place)) % 3]])
    cls = {"base": None, "yaml": M("mau.visitors.yaml_visitor").YamlVisitor, "jinja": M("mau.visitors.jinja_visitor").JinjaVisitor}[kind]
    got, seen, visits, mau = run(M, text, "s", None, cls, {k + ".j2": "<" + k + ">" for k in FIELDS} if kind == "jinja" else None)
    S.check("a document without faults is no error", got[0] == "ok", got[1].text if got[0] != "ok" else "")
    S.equal("no message", len(seen), 0)
    S.equal("visited once", len(visits), 1)
    S.obs([doc, kind])


def template(M, S):
    """A type without a template, or with one that fails: one error of the visitor."""
    doc = S.params["doc"]
    w = S.str("w", 1, "abcXYZ019+.,;:")
    S.files(OK)
    text = "x" + w + "\n\n" + DOCS[doc]
    J = M("mau.visitors.jinja_visitor").JinjaVisitor
    p = parse(M, text, source="s")
    nodes = {}
    for n in [p.output.document] + list(below(p.output.document)):
        nodes.setdefault(n.type, []).append(n)
    kind = S.choice("type", sorted(nodes))
    how = S.choice("how", ["missing", "other subtype", "broken"])
    t = {k + ".j2": "{{ content }}{{ labels }}{{ items }}{{ footnotes }}{{ nested_entries }}" for k in FIELDS}
    del t[kind + ".j2"]
    if how == "other subtype":
        t[kind + ".never.j2"] = "x"
    if how == "broken":
        t[kind + ".j2"] = "{{ nope.x }}"
    got, seen, visits, mau = run(M, text, "s", None, J, t)
    S.obs([kind, got[0]])
    if got[0] == "ok":
        # only visited as the data of something else
        S.check("nothing of this type is rendered", kind in ("toc-item", "header", "block", "footnote", "source-marker", "blockgroup-item", "condition", "wrapper"), kind)
        S.equal("no message", len(seen), 0)
        return
    S.reach("error")
    reported(M, S, got, seen, visits)
    m = got[1]
    S.equal("kind of the error", seen[0][0], "visitor")
    S.equal("type of the node", m.node_type, kind)
    S.check("place of the node", m.context is None or any(ctx_of(n)[1:2] + ctx_of(n)[3:] == [m.context.start_column, m.context.end_column, "s"] and
                                                                n.info.context.start_line + 1 == m.context.start_line for n in nodes[kind]) or kind in ("toc-item", "footnotes-item", "label", "blockgroup-item"), [kind, str(m.context), [str(n.info.context) for n in nodes[kind]]])
    # also when nothing is asked about the places
    if S.params["deep"] or how == "missing":
        h = handler(M)
        v = J(h, new_env(M, {"mau.visitor.templates.custom": t}))
        k, r = attempt(M, v.process, p.output.document, add_context=False)
        S.equal("the same error without contexts", [k, getattr(r, "text", r)], ["error", m.text])
    if how == "broken":
        S.check("the template is named", (kind) in m.text, m.text)


def again(M, S):
    """After an error the same object works; each run reports its own error only."""
    m = M("mau")
    h = handler(M)
    w = S.str("w", 1, "abcXYZ019+.,;:")
    steps = [S.choice("s%d" % i, ["fine", "lexer", "parser", "visitor"]) for i in range(S.params["n"])]
    mau = m.Mau(h, new_env(M, {"mau.visitor.templates.custom": {k + ".j2": "<{{ content }}{{ value }}>" for k in ("document", "paragraph", "paragraph-line", "text")}}))
    text = {"fine": "x" + w, "lexer": "x" + w + "\n\n////", "parser": "x" + w + "\n\n{nope}", "visitor": "x" + w + "\n\n---"}
    want = []
    for s in steps:
        try:
            r = ["fine", mau.process(M("mau.visitors.jinja_visitor").JinjaVisitor, text[s], "s")]
        except M("mau.message").MauException as e:
            r = [KINDS[e.message.type.value], e.message]
            want.append(e.message)
        S.equal("outcome", r[0], s)
        if s == "fine":
            S.equal("result", r[1], "<<<<x" + w + ">>>>")
        S.check("messages", len(h.seen) == len(want) and all(a[1] is b for a, b in zip(h.seen, want)), steps)
    S.obs(steps)


def provider(M, S):
    """A visitor that cannot be created is an error of the visitor, whatever the document."""
    m = M("mau")
    w = S.str("w", 1, "abcXYZ019+.,;:")
    name = "nope" + S.str("p", 1, "abcXYZ019+.,;:")
    J = M("mau.visitors.jinja_visitor")
    S.patch(J, "_load_available_template_providers", lambda: {"good": type("P", (), {"templates": {k + ".j2": "{{ content }}{{ value }}" for k in FIELDS}})})
    names = S.choice("providers", [["good"], ["good", name], [name], [name, "good"]])
    h = handler(M)
    mau = m.Mau(h, new_env(M, {"mau.visitor.templates.providers": names}))
    text = S.choice("text", ["x" + w, ""])
    try:
        r = ["ok", mau.process(J.JinjaVisitor, text, "s")]
    except M("mau.message").MauException as e:
        r = ["error", e.message]
    S.obs([r[0], r[1] if r[0] == "ok" else r[1].text])
    S.equal("outcome", r[0], "ok" if names == ["good"] else "error")
    if r[0] == "ok":
        S.equal("no message", len(h.seen), 0)
        S.equal("result", r[1], text)
        return
    S.equal("one message", [k for k, _ in h.seen], ["visitor"])
    S.check("the message is the error", h.seen[0][1] is r[1], h.seen)
    S.check("the provider is named", name in r[1].text, r[1].text)


def debug(M, S):
    """The tag for debugging gives one message for its node, which is no error."""
    w = S.str("w", 1, "abcXYZ019")
    n = S.choice("n", [0, 1, 2, 3])
    texts = ["x" + w + "%d" % i for i in range(3)]
    text = "\n\n".join(("[#mau:debug]\n" if i < n else "[#debug, " + w + "]\n") + t for i, t in enumerate(texts))
    kind = S.choice("visitor", ["base", "jinja"])
    got, seen, visits, mau = run(M, text, "s", None, M("mau.visitors.jinja_visitor").JinjaVisitor if kind == "jinja" else None,
                                 {k + ".j2": "<{{ content }}>" for k in FIELDS} if kind == "jinja" else None)
    S.equal("accepted", got[0], "ok")
    S.equal("messages", [[k, m.node_type, m.context.start_line] for k, m in seen], [["debug", "paragraph", 3 * i + 2] for i in range(n)])
    for i, (k, m) in enumerate(seen):
        S.equal("what is shown of the node", [m.data["_type"], m.data["internal_tags"], m.data["parent"]["_type"]], ["paragraph", ["debug"], "document"])
        if kind == "jinja":
            S.equal("templates", [list(m.additional_info[x]) for x in ("Available templates", "Matching templates", "Prefixes")], [["paragraph"], ["paragraph"], []])
            S.equal("the lines of the node", m.data["content"], "<<>>")


def cases(tier):
    deep = tier != "quick"
    out = []
    leads = list(LEADS) if deep else ["nothing", "blocks", "includes"]
    for i, f in enumerate(FAULTS):
        # quick: every place after nothing, every kind of document for a place that depends on the fault
        out.append(("fault:" + f, fault, dict(fault=f, places=list(PLACES), leads=list(LEADS) if deep else [list(LEADS)[i % len(LEADS)]])))
        if not deep:
            out.append(("leads:" + f, fault, dict(fault=f, places=[list(PLACES)[i % len(PLACES)]], leads=list(LEADS))))
    some = [f for i, f in enumerate(FAULTS) if i % 3 == 0]
    out.append(("two", two, dict(a=list(FAULTS) if deep else some, b=list(FAULTS) if deep else [f for i, f in enumerate(FAULTS) if i % 3 == 1])))
    D = "\n=*#[]:<{}a"
    out += [("free%d" % n, free, dict(n=n, dom=D)) for n in ((1, 2, 3) if not deep else (1, 2, 3, 4))]
    out += [("free line%d" % n, free, dict(n=n, dom="line")) for n in ((1, 2) if not deep else (1, 2, 3))]
    out += [("free comment", free, dict(n=2, dom=D + "/-", pre="///")), ("free open", free, dict(n=2, dom=D + "/-", pre="---")), ("free block", free, dict(n=2, dom=D, pre="a\n----\n", post="\n----\nb")), ("free after", free, dict(n=2, dom="line", pre="[a]\n. b\n")),
            ("free include", free, dict(n=2, dom=":= a.,\"\\\n", pre="b\n<< mau", post="ok.mau\n"))]
    out += [("fine", fine, dict(leads=list(LEADS) if deep else ["text"], deep=deep))]
    out += [("template:" + d, template, dict(doc=d, deep=deep)) for d in DOCS]
    out += [("again%d" % n, again, dict(n=n)) for n in ((2, 3) if not deep else (2, 3, 4))] + [("debug", debug, {}), ("log", log, {}), ("provider", provider, {})]
    return out
