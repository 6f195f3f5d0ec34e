"""C05 Inline markup follows one fixed grammar."""
from harness.common import dumps, parse_text, attempt

STYLES = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}
MARKS = "_*^~`$%\\"


def tokens(text):
    """Independent reading of a line: every character stands alone, spaces at the end are dropped."""
    return list(text.rstrip(" "))


def read(toks, i, stops):
    """The grammar: nodes from token i up to an unescaped stop marker.  Returns (nodes, next)."""
    out = []
    while i < len(toks) and toks[i] not in stops:
        t = toks[i]
        if t == "\\":
            # the next character is literal; where nothing follows it is an ordinary character
            out.append(["w", toks[i + 1] if i + 1 < len(toks) else t])
            i += 2
            continue
        if t in ("`", "$", "%"):
            j = i + 1
            while j < len(toks) and toks[j] != t:
                if toks[j] == "\\":
                    j += 1
                j += 1
            if j < len(toks) and toks[j] == t:
                body, k = "", i + 1
                while k < j:
                    if toks[k] == "\\" and k + 1 <= j:
                        if toks[k + 1] == t:
                            body = body + t
                        else:
                            body = body + "\\" + toks[k + 1]
                        k += 2
                    else:
                        body = body + toks[k]
                        k += 1
                out.append(["verbatim" if t == "`" else "text", body])
                i = j + 1
                continue
        elif t in STYLES:
            inner, j = read(toks, i + 1, {t})
            if j < len(toks) and toks[j] == t:
                out.append(["style", STYLES[t], inner])
                i = j + 1
                continue
        out.append(["w", t])
        i += 1
    # neighbouring words make one text
    res = []
    for n in out:
        if n[0] == "w":
            if res and res[-1][0] == "W":
                res[-1] = ["W", res[-1][1] + n[1]]
            else:
                res.append(["W", n[1]])
        else:
            res.append(n)
    return [["text", n[1]] if n[0] == "W" else n for n in res], i


def canon(nodes):
    """An empty text (from "$$") shows nothing."""
    out = []
    for n in nodes:
        if n[0] == "style":
            out.append(["style", n[1], canon(n[2])])
        elif n[0] != "text" or len(n[1]):
            out.append(n)
    return out


def check(M, S, text):
    if len(text):
        S.assume(text.strip(" ") != "")
    kind, p = attempt(M, parse_text, M, text)
    if kind == "error":
        S.obs(["error", p.text])
        S.fail("a line without macros is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    want, _ = read(tokens(text), 0, set())
    S.equal("inline nodes", canon(got), canon(want))
    for n in got:
        S.reach("top " + n[0])
        if n[0] == "style":
            for m in n[2]:
                S.reach("in style " + m[0])


def line(M, S):
    # a macro has five characters at least
    check(M, S, S.str("t", S.params["n"], S.params["dom"]))


PIECES = ["_a_", "*b*", "^", "$c d$", "`*`", "\\_", " ", "%%", "e"]


def pieces(M, S):
    """Longer lines: pieces of markup around any character, alone and inside a style."""
    c = S.str("c", 1, "-[]()")
    t = ""
    for i in range(S.params["n"]):
        t = t + S.choice("p%d" % i, PIECES)
        if i == 0:
            t = t + c
    m = S.choice("style", S.params["styles"])
    check(M, S, m + t + m)


def cases(tier):
    deep = tier != "quick"
    out = []
    for n in range(0, 7 if deep else 5):
        out.append(("line%d" % n, line, dict(n=n, dom="line" if n < 5 else "-[]")))
    # without round brackets there are no macros
    out.append(("brackets1", line, dict(n=5, dom="[]a*_")))
    out.append(("brackets2", line, dict(n=5, dom="]*`$a")))
    # without square brackets neither
    out.append(("brackets3", line, dict(n=5, dom="()*a\\\"")))
    out.append(("literal", line, dict(n=6, dom="$\\a")))
    out.append(("spaces", line, dict(n=7, dom="_ *")))
    out.append(("pieces", pieces, dict(n=3 if deep else 2, styles=["", "~", "*"])))
    out.append(("pieces3", pieces, dict(n=4 if deep else 3, styles=["*"])))
    if deep:
        out.append(("brackets4", line, dict(n=7, dom="[]a*_")))
        out.append(("brackets5", line, dict(n=6, dom="]*`$a\\")))
        out.append(("styles", line, dict(n=8, dom="*_a")))
    else:
        out.append(("styles", line, dict(n=6, dom="*_a")))
    return out


BOUNDS = {"quick": "every line of up to 4 characters (any code point of a line), of 5 characters of three alphabets with brackets of one kind, of 6 over two markers and a letter, of 7 over two markers and a space; 3 pieces of markup around any character, in a style too",
          "thorough": "every line of up to 6 characters (up to 4 with square brackets), 7 with square brackets, 8 over two markers and a letter; 4 pieces of markup"}
