"""C04 Plain text reaches the output verbatim, in paragraphs."""
from harness.common import NOARGS, dumps, attempt, parse

BOUNDS = {"quick": "every text line of up to 4 plain characters (any code point that starts no markup and no block); every "
                   "arrangement of up to 5 text lines, blank lines and lines of spaces, with symbolic text",
          "thorough": "lines of up to 6 characters; arrangements of up to 7 lines"}
OUTSIDE = "characters that can start markup (covered by C05 and C06), longer lines"

PLAIN = "-_*^~`$%\\[]{}"       # no inline markup


def is_text(S, line):
    """The line starts none of the block constructs."""
    S.assume(line.strip(" ") != "")
    t = line.lstrip(" ")
    S.assume(not t.startswith("#"))
    for p in ("//", ":", "@", "<<", ".", "="):
        S.assume(not line.startswith(p))
    S.assume(line != "---")
    if len(line) == 4:
        S.assume(S.no(S.all(line[0] == line[1], line[1] == line[2], line[2] == line[3])))


def paragraphs(lines):
    """The runs of text lines."""
    out, cur = [], []
    for ln in lines:
        if ln is None:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(ln)
    return out + ([cur] if cur else [])


def check(M, S, text, lines):
    kind, p = attempt(M, parse, M, text)
    if kind == "error":
        S.fail("plain text is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    want = []
    for par in paragraphs(lines):
        want.append(["paragraph", [], [["paragraph-line", [], [["text", ln.rstrip(" ")]], []] for ln in par], []])
    S.equal("paragraphs", got, want)
    S.equal("document", [x is y for x, y in zip(p.output.document.content, p.nodes)] if want else p.output.document,
            [True] * len(want) if want else None)


def line(M, S):
    t = S.str("t", S.params["n"], PLAIN)
    is_text(S, t)
    check(M, S, t, [t])


def arrangement(M, S):
    """Lines: text with a symbolic character, blank, spaces."""
    lines, text = [], []
    for i in range(S.params["n"]):
        k = S.choice("k%d" % i, ["text", "blank", "spaces"])
        if k == "text":
            ln = "w" + S.str("c%d" % i, 1, PLAIN) + "x %d" % i
            lines.append(ln)
            text.append(ln)
        else:
            lines.append(None)
            text.append("" if k == "blank" else "  ")
    check(M, S, "\n".join(text), lines)


def spaced(M, S):
    """Spaces inside, in front of and after the words are kept where they can be seen."""
    a, b = S.str("a", 1, PLAIN), S.str("b", 2, PLAIN)
    t = " " * S.choice("x", [0, 1, 3]) + a + " " * S.choice("y", [0, 1, 4]) + b + " " * S.choice("z", [0, 1, 2])
    is_text(S, t)
    u = "next"
    check(M, S, t + "\n" + u, [t, u])


def punctuation(M, S):
    """Quotes, parentheses, commas, colons, digits and letters of any alphabet."""
    t = "a" + S.str("t", S.params["n"], "\"'(),;:!?#=.<>@/|&+-0é\u3042\u0301\u00a0\t\r😀")
    S.assume(t != "---")
    check(M, S, t + "\n\n" + t, [t, None, t])


def long(M, S):
    """Long words and many words around a symbolic character."""
    c = S.str("c", 1, PLAIN)
    t = "word " * 12 + "x" * 40 + c + "y" * 40 + " end" * 10
    check(M, S, t + "\n" + t, [t, t])


def cases(tier):
    deep = tier != "quick"
    out = [("line%d" % n, line, dict(n=n)) for n in range(1, 7 if deep else 5)]
    out += [("arrangement%d" % n, arrangement, dict(n=n)) for n in range(1, 8 if deep else 6)]
    out += [("spaced", spaced, {}), ("punctuation", punctuation, dict(n=3 if deep else 2)), ("long", long, {})]
    return out
