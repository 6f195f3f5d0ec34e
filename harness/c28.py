"""C28 Inline conditions render exactly one of their cases."""
from harness.c09 import Bad, expand, grammar
from harness.common import SRC, attempt, dumps, handler, new_env, parse, parse_text
from harness.c27 import between
from harness.refs import BLOCKS, INLINE, found, put

BOUNDS = {"quick": "every value and comparison text of up to 3 characters; every condition text of up to 5 characters out of 10 kinds; every operator of "
                   "up to 3 characters after \"if\"; up to 3 cases given by position, name or in quotes; 20 kinds of case text with an arbitrary "
                   "character, each selected or not; every inline and block position",
          "thorough": "values and texts of up to 5 characters; condition texts of 6"}
OUTSIDE = "a colon in the compared text (it separates the operator); characters that are no part of macro names (blanks and style markers) in conditions"

# what can be part of a name of a macro and is no variable
PLAIN = "-\\`{} :~^_*()[]\"$%"
VAR = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.+-_"


def run(M, text, values):
    return attempt(M, parse_text, M, text, values)


def shows(M, S, label, kd, p, text, values=None):
    """The nodes are those of the text."""
    if kd == "error":
        S.fail(label + ": a complete condition is an error", p.text)
    want = parse_text(M, text, values)
    S.obs(dumps(p.nodes))
    S.equal(label, dumps(p.nodes), dumps(want.nodes))
    for kind, a, b in (("header", p.header_links, want.header_links), ("footnote", p.footnote_macros, want.footnote_macros)):
        S.equal("references", [kind, dumps(a, refs=False)], [kind, dumps(b, refs=False)])
        S.check("references are those shown", sorted(id(x) for x in a) == sorted(id(x) for x in found(p.nodes, "macro-" + kind)), kind)


def decision(M, S):
    """== holds exactly for equal texts, != exactly for different ones."""
    n, m = S.params["n"], S.params["m"]
    v, t = S.str("v", n, "all"), S.str("t", m, PLAIN)
    op, name = S.choice("op", ["==", "!="]), S.choice("name", ["if", "ifeval"])
    text = "[" + name + ":x" + op + t + "](" + S.choice("cases", ["yes, no", "\"yes\", \"no\"", "true_case=yes, false_case=no", "false_case=\"no\", true_case=yes",
                                                                "yes, false_case=no"]) + ")"
    kd, p = run(M, text, {"x": v, "yes": "*Y*", "no": "_N_"})
    same = v == t
    S.reach("equal" if same else "different")
    shown = same if op == "==" else not same
    if name == "if":
        shows(M, S, "the case", kd, p, "yes" if shown else "no")
    else:
        shows(M, S, "the value", kd, p, "*Y*" if shown else "_N_")


def kinds(M, S):
    """Values that are no strings equal no text; as results they are shown as text."""
    v = S.choice("v", [1, True, None, 1.5, ["1"], "", "1"])
    op, t = S.choice("op", ["==", "!="]), S.choice("t", ["1", "True", "None", "", "1.5"])
    kd, p = run(M, "[if:x" + op + t + "](`a`, _b_)", {"x": v})
    shows(M, S, "the case", kd, p, "`a`" if (v == t) == (op == "==") else "_b_")
    if v is not None:
        kd, p = run(M, "[ifeval:y==](x, y)", {"x": v, "y": ""})
        shows(M, S, "the value", kd, p, str(v))


def condition(M, S):
    """Any condition text: operator:variable comparison value."""
    s = S.str("s", S.params["n"], S.params["dom"])
    text = S.params["pre"] + s + S.params["post"]
    kd, p = run(M, "[if" + text + "](`a`, _b_)", {"x": "1", "y.z": "", "b": "="})
    want = meaning(text)
    S.obs(want)
    if want is None:
        S.reach("malformed")
        S.check("a malformed condition is an error", kd == "error", text)
        return
    op, var, cmp, val = want
    values = {"x": "1", "y.z": "", "b": "="}
    for k in values:
        if var == k:
            break
    else:
        S.reach("undefined")
        S.check("an undefined variable is an error", kd == "error", text)
        S.equal("error", p.text, "Variable '" + var + "' has not been defined.")
        return
    holds = (values[k] == val) if cmp == "==" else values[k] != val
    if op == "ifeval":
        S.check("an undefined variable is an error", kd == "error", text)
        S.equal("error", p.text, "Variable '" + ("`a`" if holds else "_b_") + "' has not been defined.")
    else:
        shows(M, S, "the case", kd, p, "`a`" if holds else "_b_")


def meaning(text):
    """(operator, variable, comparison, value) of what follows "if", or None."""
    parts = [i for i in range(len(text)) if text[i] == ":"]
    if len(parts) != 1:
        return None
    op, cond = "if" + text[:parts[0]], text[parts[0] + 1:]
    if op == "if":
        op = "if"
    elif op == "ifeval":
        op = "ifeval"
    else:
        return None
    i, n = 0, len(cond)
    while i < n and cond[i] in VAR:
        i += 1
    if i == 0 or i + 1 >= n or cond[i + 1] != "=":
        return None
    if cond[i] == "=":
        cmp = "=="
    elif cond[i] == "!":
        cmp = "!="
    else:
        return None
    return op, cond[:i], cmp, cond[i + 2:]


def cases_given(M, S):
    """Cases by position, name, in quotes, missing; arbitrary argument text."""
    s = S.str("s", S.params["n"], S.params["dom"])
    text = S.params["pre"] + s
    S.assume(text == "" or text.strip(" ") != "")
    source = text
    text, end = between(text + ")")
    # the whole text is that of the macro (C27)
    S.assume(end == len(source) + 1)
    holds = S.choice("holds", [True, False])
    name = S.choice("name", ["if", "ifeval"])
    kd, p = run(M, "[" + name + ":x" + ("==" if holds else "!=") + "1](" + source + ")", {"x": "1", "a": "A", "b": "B", "c": "C"})
    try:
        unnamed, named, _, _, _ = expand(*grammar(text), {})
    except Bad:
        S.check("malformed arguments are an error", kd == "error", text)
        return
    got = {}
    for k in ("true_case", "false_case"):
        for e in named:
            if e[0] == k:
                got[k] = e[1]
                break
        else:
            if unnamed:
                got[k] = unnamed.pop(0)
    S.obs(sorted(got))
    if "true_case" not in got:
        S.reach("no true case")
        S.check("a missing true case is an error", kd == "error", text)
        return
    chosen = got.get("true_case" if holds else "false_case")
    if name == "if":
        if chosen is None:
            S.reach("no false case")
            S.equal("nothing is shown", [kd, len(p.nodes)], ["ok", 0])
        else:
            shows(M, S, "the case", kd, p, chosen)
        return
    for k, v in (("a", "A"), ("b", "B"), ("c", "C"), ("x", "1")):
        if chosen is not None and chosen == k:
            shows(M, S, "the value", kd, p, v)
            return
    S.reach("ifeval without a value")
    S.check("a missing case or variable is an error", kd == "error", text)
    if chosen is not None:
        S.equal("error", p.text, "Variable '" + chosen + "' has not been defined.")


# texts of a case; § is arbitrary
TEXTS = ["§", "a § b", "~*§*~", "`§`", "[link](u§, t)", "[link](u, \\\"a *§* b\\\")", "[footnote](f§)", "[header](h§)", "[class](\\\"[footnote](f§)\\\", c)",
         "[if:x==1](§, n)", "[if:x!=1](\\\"a§\\\", \\\"_b_\\\")", "[ifeval:x==1](y, nope)", "[§](a)", "\\*§*", "a*§", "[raw](§)", "[image](u, §)"]
# texts that are no text
BROKEN = ["[link]()", "[if](a)", "[if:nope==1](a)", "[ifeval:x==1](nope)", "[footnote]()", "[if:x](a)"]


def exactly(M, S):
    """The selected case is shown, the other one is not looked at."""
    c = S.str("c", 1, "-\"\\,=#@*() []")
    i = S.params["text"]
    text = TEXTS[i].replace("§", c)
    plain = TEXTS[i].replace("\\\"", "\"").replace("§", c)
    other = S.choice("other", ["plain", "footnote", "same", "quoted"] + list(range(len(BROKEN))))
    o = {"plain": "o", "footnote": "[footnote](g)", "same": text, "quoted": "a, b"}[other] if isinstance(other, str) else BROKEN[other]
    first = S.choice("first", [True, False])
    pair = [text, o] if first else [o, text]
    op = S.choice("op", ["==", "!="])
    # the text is the true case when it comes first
    body = "[if:x" + op + ("1" if (op == "==") == first else "2") + "](\"" + pair[0] + "\", \"" + pair[1] + "\")"
    values = {"x": "1", "y": "*Y*"}
    kd, p = run(M, body, values)
    want = run(M, plain, values)
    if want[0] == "error":
        S.equal("error", [kd, p.text], ["error", want[1].text])
        return
    S.reach("text")
    shows(M, S, "the case", kd, p, plain, values)
    # in some text and in a style
    where = S.choice("where", [("", ""), ("a ", " b"), ("*", "*"), ("_q *", "* w_")])
    if i not in (2, 5, 10, 14):
        kd, q = run(M, where[0] + body + where[1], values)
        r = run(M, where[0] + "[other](1)" + where[1], values)[1]
        S.check("well formed", kd == "ok", body)
        S.equal("in place", dumps(q.nodes), swap(dumps(r.nodes), dumps(p.nodes)))


def swap(nodes, new):
    out = []
    for n in nodes:
        if n[0] == "macro":
            out.extend(new)
        elif n[0] == "style":
            out.append([n[0], n[1], swap(n[2], new)])
        else:
            out.append(n)
    return out


def broken(M, S):
    """A selected case that is no text is an error."""
    b = S.choice("b", BROKEN)
    first = S.choice("first", [True, False])
    body = "[if:x==" + ("1" if first else "2") + "](\"" + (b if first else "o") + "\", \"" + ("o" if first else b) + "\")"
    kd, p = run(M, body, {"x": "1"})
    want = run(M, b, {"x": "1"})
    S.equal("error", [kd, p.text], [want[0], want[1].text])


def evaluated(M, S):
    """ifeval shows the value of the variable, parsed as text, whatever the other case names."""
    v = S.str("v", S.params["n"], S.params["dom"])
    k = S.str("k", 1, "uvwxyz.")
    values = {"x": "1", "y": v, "n.z": "N"}
    first = S.choice("first", [True, False])
    other = S.choice("other", ["", "nope", "x", "~*", "n", "{", None])
    S.assume(not (other is None and not first))
    pair = [k] if other is None else [k, "\"" + other + "\""] if first else ["\"" + other + "\"", k]
    body = "[ifeval:x==" + ("1" if first else "2") + "](" + ", ".join(pair) + ")"
    kd, p = run(M, body, values)
    if k == "y":
        S.reach("shown")
        w = run(M, v, values)
        if w[0] == "error":
            S.equal("error", [kd, p.text], ["error", w[1].text])
        else:
            shows(M, S, "the value", kd, p, v, values)
    elif k == "x":
        shows(M, S, "the value", kd, p, "1", values)
    else:
        S.check("an undefined variable is an error", kd == "error", body)
        S.equal("error", p.text, "Variable '" + k + "' has not been defined.")


def namespace(M, S):
    """A namespace is no variable."""
    k = S.str("k", S.params["n"], "xyn.z")
    values = {"x": "1", "n.z": "*N*", "y.z.x": "Y"}
    name = S.choice("name", ["if", "ifeval"])
    kd, p = run(M, "[if:" + k + "==1](a, b)" if name == "if" else "[ifeval:x==1](" + k + ")", values)
    for d in values:
        if k == d:
            shows(M, S, "the variable", kd, p, ("a" if d == "x" else "b") if name == "if" else values[d])
            return
    S.check("an undefined variable is an error", kd == "error", name)
    S.equal("error", p.text, "Variable '" + k + "' has not been defined.")


def places(M, S):
    """In a document, wherever text can be, with the value at that place."""
    w = S.str("w", 1, "abcdefgh")
    t = S.choice("t", list(BLOCKS))
    i = S.choice("i", list(INLINE))
    op = S.choice("op", ["==", "!="])
    name = S.choice("name", ["if", "ifeval"])
    holds = (w == "c") if op == "==" else w != "c"
    tail = "\n\n[footnote=ff]\n----\nF\n----\n\n[footnote=gg]\n----\nG\n----\n"
    head = ":v:" + w + "\n:yes:[footnote](ff)\n:no:[link](u)\n\n"
    macro = "[" + name + ":v" + op + "c](" + ("`a`, ~b~" if name == "if" else "yes, no") + ")"
    kd, p = attempt(M, parse, M, head + put(BLOCKS[t], put(INLINE[i], macro)) + tail)
    kw, q = attempt(M, parse, M, head + put(BLOCKS[t], put(INLINE[i], ("`a`" if holds else "~b~") if name == "if" else "[footnote](ff)" if holds else "[link](u)")) + tail)
    S.obs([t, i, kd])
    S.equal("accepted", kd, kw)
    if kd == "ok":
        S.equal("document", dumps(p.nodes), dumps(q.nodes))
        S.equal("footnotes", [f.name for f in p.output.footnotes] if hasattr(p.output, "footnotes") else None,
                [f.name for f in q.output.footnotes] if hasattr(q.output, "footnotes") else None)


def history(M, S):
    """The value is the current one."""
    vals = [S.str("v%d" % i, 1, "abc") for i in range(3)]
    t = S.str("t", 1, "abc")
    kind = S.choice("kind", ["same", "block", "open block", "include"])
    S.files({"f.mau": ":v:" + vals[1] + "\n"})
    m = "[if:v==" + t + "](~y~, _n_)"
    mid = {"same": ":v:" + vals[1], "block": "----\n:v:" + vals[1] + "\n\n" + m + "\n----", "open block": "[isolate=false]\n----\n:v:" + vals[1] + "\n\n" + m + "\n----",
           "include": "<< mau:f.mau"}[kind]
    kd, p = attempt(M, parse, M, ":v:" + vals[0] + "\n\n" + m + "\n\n" + mid + "\n\n" + m + "\n\n:v:" + vals[2] + "\n\n" + m)
    S.check("well formed", kd == "ok", kind)
    y, n = ["style", "tilde", [["text", "y"]]], ["style", "underscore", [["text", "n"]]]
    got = [x[2] for x in styles(dumps(p.nodes))]
    S.obs(got)
    inside = [vals[1]] if "block" in kind else []
    after = vals[1]
    q = parse(M, ":v:" + vals[0] + "\n\n" + mid + "\n\nx {v}")
    after = dumps(q.nodes)[-1]
    want = [[["text", "y" if x == t else "n"]] for x in [vals[0]] + inside]
    S.equal("at each place", got[:len(want)], want)
    text = after_text(after)
    S.equal("after", got[len(want)], [["text", "y" if text == t else "n"]])
    S.equal("at the end", got[len(want) + 1:], [[["text", "y" if vals[2] == t else "n"]]])


def after_text(node):
    """The value shown by "x {v}"."""
    for x in node:
        if isinstance(x, list):
            if x and x[0] == "text":
                return x[1][2:]
            r = after_text(x)
            if r is not None:
                return r


def styles(nodes):
    out = []
    for n in nodes:
        if isinstance(n, list):
            if n and isinstance(n[0], str) and n[0] == "style":
                out.append(n)
            else:
                out.extend(styles(n))
    return out


def cases(tier):
    deep = tier != "quick"
    out = []
    for n, m in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 3), (3, 2)) + (((5, 5), (4, 4), (4, 5)) if deep else ()):
        out.append(("decision%d%d" % (n, m), decision, dict(n=n, m=m)))
    out.append(("kinds", kinds, {}))
    out += [("condition:%d" % n, condition, dict(n=n, pre=":", post="", dom="x1=!:.b" if n < 5 else "x1=!:")) for n in (1, 2, 3, 4, 5)]
    out += [("condition value", condition, dict(n=1, pre=":x=", post="", dom=PLAIN.replace(":", ""))), ("condition any", condition, dict(n=1, pre=":x", post="=1", dom=PLAIN.replace(":", ""))),
            ("condition variable", condition, dict(n=1, pre=":", post="==1", dom=PLAIN.replace(":", ""))),
            ("condition variable2", condition, dict(n=1, pre=":x", post="==1", dom=PLAIN.replace(":", "")))]
    out += [("operator %d%s" % (n, post), condition, dict(n=n, pre="", post=post, dom=dom)) for n, post, dom in
            ((0, ":x==1", "a"), (1, ":x==1", PLAIN.replace(":", "")), (2, ":x==1", "aeflv:x"), (0, "eval:x==1", "a"), (1, "eval:x==1", "e:a1"), (1, "eva:x!=1", "l:a1"), (1, "eval", ":a1="))]
    out += [("cases%d" % n, cases_given, dict(n=n, pre="", dom="ab,=\" \\")) for n in (0, 1, 2, 3)]
    out += [("cases t", cases_given, dict(n=2, pre="true_case=", dom="ab,=\" \\")), ("cases f", cases_given, dict(n=2, pre="false_case=b", dom="ab,=\" \\")),
            ("cases ab", cases_given, dict(n=2, pre="a, b", dom="ab,=\" \\")), ("cases ft", cases_given, dict(n=1, pre="false_case=b,true_case=", dom="line" if deep else "abx,=\" \\"))]
    out += [("exactly%d" % i, exactly, dict(text=i)) for i in range(len(TEXTS))]
    out += [("broken", broken, {}), ("evaluated1", evaluated, dict(n=1, dom="line")), ("evaluated3", evaluated, dict(n=3, dom="a*`\\[] ")), ("namespace1", namespace, dict(n=1)),
            ("namespace3", namespace, dict(n=3)), ("places", places, {}), ("history", history, {})]
    if deep:
        out += [("condition:6", condition, dict(n=6, pre=":", post="", dom="x1=!:")), ("cases4", cases_given, dict(n=4, pre="", dom="ab,=\" ")),
                ("evaluated4", evaluated, dict(n=4, dom="a*`\\[]")), ("namespace5", namespace, dict(n=5))]
    return out
