"""C06 Escaped text is always literal."""
from harness.common import attempt, dumps, parse, parse_text

BOUNDS = {"quick": "every text of up to 6 characters, escaped, alone and in 9 places of a document (up to 3 characters), "
                   "next to and inside every marker; every text of up to 4 characters between literal markers, with any "
                   "neighbours",
          "thorough": "texts of up to 8 characters alone, up to 4 in the places"}
OUTSIDE = "text inside macro arguments (C09, C27)"

INLINE = "_*^~`$%\\[]()\""
MARKUP = INLINE + "{}"


def escape(S, t, markup):
    """Put a backslash in front of every markup character."""
    out = ""
    for c in t:
        out = out + ("\\" + c if c in markup else c)
    return out


def inline(M, S):
    """The text parser on an escaped text."""
    t = S.str("t", S.params["n"])
    S.assume(t.strip(" ") != "")
    kind, p = attempt(M, parse_text, M, escape(S, t, INLINE))
    if kind == "error":
        S.fail("an escaped text is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("escaped text", got, [["text", t.rstrip(" ")]])


PLACES = {
    "paragraph": ("ab{}", lambda n: n[0][2][0][2]),
    "second line": ("b\nab{}", lambda n: n[0][2][1][2]),
    "header": ("[internal_id=i]\n= ab{}", lambda n: n[0][5]),
    "label": (". ab{}\n---", lambda n: n[0][2][0][1][3]),
    "item": ("* b\n* ab{}", lambda n: n[0][5][1][3]),
    "block": ("----\nab{}\n----", lambda n: n[0][3][0][2][0][2]),
    "footnote": ("b[footnote](n)\n\n[footnote=n]\n----\nab{}\n----", lambda n: n[0][2][0][2][1][2][4][0][2][0][2]),
    "style": ("*ab{}*", lambda n: n[0][2][0][2][0][2]),
    "styles": ("_b*ab{}*_", lambda n: n[0][2][0][2][0][2][1][2]),
}


def place(M, S):
    """The same in a document: braces are escaped too."""
    form, path = PLACES[S.params["place"]]
    t = S.str("t", S.params["n"])
    e = escape(S, t, MARKUP)
    kind, p = attempt(M, parse, M, form.replace("{}", e))
    if kind == "error":
        S.fail("an escaped text is an error", p.text)
    got = path(dumps(p.nodes))
    S.obs(got)
    full = "ab" + t
    S.equal("escaped text", got, [["text", full if S.params["place"].startswith("style") else full.rstrip(" ")]])


def neighbours(M, S):
    """An escaped character between any two characters: neighbours keep their own meaning."""
    a = S.str("a", 1, "-`$%\\[]{}")
    b = S.str("b", 1, "-`$%\\[]{}")
    c = S.choice("c", list(INLINE))
    d = S.choice("d", list(INLINE))
    S.assume(a != " ")
    S.assume(b != " ")
    t = a + "\\" + c + "m\\" + d + b
    kind, p = attempt(M, parse_text, M, t)
    if kind == "error":
        S.fail("an escaped text is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    lit = c + "m" + d
    if a in "_*^~" and a == b:
        S.reach("style")
        name = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}[a]
        S.equal("a style around escaped text", got, [["style", name, [["text", lit]]]])
    else:
        S.reach("text")
        S.equal("escaped text between others", got, [["text", a + lit + b]])


def literal(M, S):
    """Between a pair of % or $ or backticks everything is literal; the same marker only when escaped."""
    m = S.choice("m", ["%", "$", "`"])
    n = S.params["n"]
    body = S.str("t", n, "-\\")
    S.assume(S.all(*[c != m for c in body]))
    pre, post = S.choice("pre", ["", "a ", "*", "[", "\\\\"]), S.choice("post", ["", " b", "*", "]", "_"])
    S.assume(S.any(n > 0, post != ""))
    t = pre + m + body + m + post
    if S.params["document"]:
        S.assume(S.all(*[S.all(c != "{", c != "}") for c in body]) if m != "`" else True)
        kind, p = attempt(M, parse, M, "x" + t)
        if kind == "error":
            S.fail("a literal text is an error", p.text)
        got = dumps(p.nodes)[0][2][0][2]
        pre = "x" + pre
    else:
        kind, p = attempt(M, parse_text, M, t)
        if kind == "error":
            S.fail("a literal text is an error", p.text)
        got = dumps(p.nodes)
    S.obs(got)
    lit = ["verbatim" if m == "`" else "text", body]
    pre = pre.replace("\\\\", "\\")
    if pre.endswith("*") and post == "*":
        want = [["text", pre[:-1]]] if len(pre) > 1 else []
        want = want + [["style", "star", [lit]]]
        S.reach("in a style")
    else:
        want = ([["text", pre]] if pre else []) + [lit] + ([["text", post]] if post else [])
    S.equal("literal text", got, want)


def escaped_delimiter(M, S):
    """The marker itself can be inside when escaped; other backslashes are kept."""
    m = S.choice("m", ["%", "$", "`"])
    a, b = S.str("a", 1, "-\\"), S.str("b", 1, "-\\")
    S.assume(S.all(a != m, b != m))
    kind, p = attempt(M, parse_text, M, m + a + "\\" + m + b + m)
    if kind == "error":
        S.fail("a literal text is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("escaped marker", got, [["verbatim" if m == "`" else "text", a + m + b]])


def backslashes(M, S):
    """Between literal markers a backslash only protects the marker, wherever it is."""
    m = S.choice("m", ["%", "$", "`"])
    c = S.str("c", 1, "-\\")
    S.assume(c != m)
    body = want = ""
    for i in range(S.params["n"]):
        k = S.choice("k%d" % i, ["\\\\", "\\m", "\\c", "c", "\\ "])
        k, w = {"\\\\": ("\\\\", "\\\\"), "\\m": ("\\" + m, m), "\\c": ("\\" + c, "\\" + c), "c": (c, c), "\\ ": ("\\ ", "\\ ")}[k]
        body, want = body + k, want + w
    kind, p = attempt(M, parse_text, M, "a" + m + body + m + "b")
    if kind == "error":
        S.fail("a literal text is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    S.equal("backslashes in a literal text", got, [["text", "a"], ["verbatim" if m == "`" else "text", want], ["text", "b"]])


def unmatched(M, S):
    """A marker without its pair is text, and what follows is still markup."""
    m = S.choice("m", ["%", "$", "`", "_", "*", "^", "~"])
    s = S.choice("s", ["_", "*", "^", "~"])
    S.assume(m != s)
    a, b = S.str("a", 1, "-" + INLINE + " "), S.str("b", 1, "-" + INLINE + " ")
    kind, p = attempt(M, parse_text, M, a + m + b + s + "c" + s)
    if kind == "error":
        S.fail("an unmatched marker is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    name = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}[s]
    S.equal("unmatched marker", got, [["text", a + m + b], ["style", name, [["text", "c"]]]])


def braces(M, S):
    """Escaped braces are braces, in every place where variables are replaced."""
    a, b, c = S.str("a", 1, "-" + MARKUP), S.str("b", 1, "-" + MARKUP), S.str("c", 1, "-" + MARKUP)
    S.assume(c != " ")
    p = parse(M, "x" + a + "\\{" + b + "\\}" + c, {"v": "no", "x": "no"})
    got = dumps(p.nodes)[0][2][0][2]
    S.obs(got)
    S.equal("escaped braces", got, [["text", "x" + a + "{" + b + "}" + c]])


def cases(tier):
    deep = tier != "quick"
    out = [("inline%d" % n, inline, dict(n=n)) for n in range(1, 9 if deep else 7)]
    for k in PLACES:
        out += [("place:%s%d" % (k, n), place, dict(n=n, place=k)) for n in range(0, 5 if deep else 4)]
    out += [("neighbours", neighbours, {}), ("escaped delimiter", escaped_delimiter, {}), ("unmatched", unmatched, {}), ("backslashes2", backslashes, dict(n=2)), ("backslashes3", backslashes, dict(n=4 if deep else 3)),
            ("braces", braces, {})]
    for n in range(0, 5 if deep else 4):
        out.append(("literal%d" % n, literal, dict(n=n, document=False)))
        if n < 4:
            out.append(("literal-document%d" % n, literal, dict(n=n, document=True)))
    return out
