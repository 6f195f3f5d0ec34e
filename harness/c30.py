"""C30 Every line is the element its form says, and nothing else."""
from harness.common import SRC, attempt, handler, new_env, parse

BOUNDS = {"quick": "every line of up to 4 characters (any code point); 24 starts and 14 ends of lines around up to 2 arbitrary characters; every such line "
                   "between 13 kinds of lines and at 4 places of a document",
          "thorough": "every line of up to 5 characters; up to 3 arbitrary characters between the starts and the ends"}
OUTSIDE = ("longer lines; the level of a header without text (a line made only of = and spaces); what follows a name without a separator in includes")

LOWER = "abcdefghijklmnopqrstuvwxyz"
DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def run_of(line, i, chars):
    """End of the longest run of these characters."""
    while i < len(line) and line[i] in chars:
        i += 1
    return i


def spaces(line, i):
    return run_of(line, i, " ")


def kind_of(line):
    """(kind, pieces of the line); pieces is None where only the kind is claimed."""
    n = len(line)
    if line.strip(" ") == "":
        return "blank", []
    if line == "////":
        return "open comment", None
    if line.startswith("//"):
        return "comment", []
    if line == "---":
        return "rule", [["HORIZONTAL_RULE", "---"]]
    if n == 4 and line[0] == line[1] and line[1] == line[2] and line[2] == line[3]:
        return "delimiter", None
    first = line[0]
    if first == "@":
        i = run_of(line, 1, LOWER)
        if i > 1:
            return "control", [["CONTROL", "@"], ["TEXT", line[1:i]], ["TEXT", line[spaces(line, i):]]]
    elif first == "<" and line.startswith("<<"):
        s = spaces(line, 2)
        i = run_of(line, s, LOWER + DIGITS + "_#.")
        if i > s:
            if spaces(line, i) == n:
                return "include", [["INCLUDE", "<<"], ["TEXT", line[s:i]]]
            if line[i] == ":":
                return "include", [["INCLUDE", "<<"], ["TEXT", line[s:i]], ["LITERAL", ":"], ["TEXT", line[i + 1:]]]
            return "include", None
    elif first == ":":
        i = run_of(line, 1, LOWER + UPPER + DIGITS + "_.+-")
        if i > 1:
            if i == n:
                return "variable", [["VARIABLE", ":"], ["TEXT", line[1:]]]
            if line[i] == ":":
                return "variable", [["VARIABLE", ":"], ["TEXT", line[1:i]], ["LITERAL", ":"], ["TEXT", line[i + 1:]]]
            return "variable", None
    elif first == "[":
        if n > 1 and line[-1] == "]":
            return "arguments", [["ARGUMENTS", "["], ["TEXT", line[1:-1]], ["LITERAL", "]"]]
    elif first == ".":
        i = run_of(line, 1, LOWER + DIGITS + "-_")
        return "label", [["LABEL", line[:i]], ["TEXT", line[spaces(line, i):]]]
    elif first == "=":
        i = run_of(line, 1, "=")
        s = spaces(line, i)
        if s == n:
            return ("text" if n == 1 else "header"), None
        return "header", [["HEADER", line[:i]], ["TEXT", line[s:]]]
    else:
        s = spaces(line, 0)
        i = run_of(line, s, "*#")
        if i > s and i < n and line[i] == " ":
            return "list", [["LIST", line[s:i]], ["TEXT", line[spaces(line, i):]]]
    return "text", [["TEXT", line]]


FIRST = {"rule": "HORIZONTAL_RULE", "control": "CONTROL", "include": "INCLUDE", "variable": "VARIABLE", "arguments": "ARGUMENTS", "label": "LABEL",
         "header": "HEADER", "list": "LIST", "text": "TEXT"}


def tokens_of(M, text):
    L = M("mau.lexers.document_lexer").DocumentLexer
    B = M("mau.text_buffer").TextBuffer
    lexer = L(B(text, 0, 0, SRC), handler(M), new_env(M))
    kd, m = attempt(M, lexer.process)
    if kd == "error":
        return None
    return [t for t in lexer.tokens if t.type.value != "EOF"]


def pieces(tokens):
    """Kinds and values of the tokens that have a text; spaces at the end of the line do not matter."""
    out = [[t.type.name, t.value] for t in tokens if t.type.value != "EOL"]
    if out and out[-1][0] == "TEXT":
        out[-1] = ["TEXT", out[-1][1].rstrip(" ")]
    return [x for x in out if x[1] != ""]


def wanted(want):
    out = [list(x) for x in want]
    if out and out[-1][0] == "TEXT":
        out[-1][1] = out[-1][1].rstrip(" ")
    return [x for x in out if x[1] != ""]


def text_line(S):
    p = S.params
    mid = S.str("t", p["n"], p.get("dom", "line"))
    return S.choice("pre", p["pres"]) + mid + S.choice("post", p["posts"])


def alone(M, S):
    """The tokens of a line on its own."""
    line = text_line(S)
    kind, want = kind_of(line)
    S.reach(kind)
    S.obs(kind)
    got = tokens_of(M, line)
    if kind in ("open comment", "delimiter"):
        S.check("a block that is not closed is an error", got is None, line)
        return
    if got is None:
        S.fail("a line on its own is an error", line)
    if want is not None:
        S.equal("pieces of the line", pieces(got), wanted(want))
    elif kind in FIRST:
        S.equal("kind of the line", got[0].type.name, FIRST[kind])


OTHERS = {"text": "word", "list": "* item", "header": "= h", "label": ". l", "arguments": "[a]", "blank": "", "comment": "// c", "rule": "---", "variable": ":a:b",
          "include": "<< a:b", "control": "@if a==b", "block": "++++\nin\n++++", "long comment": "////\nin\n////"}


def between(M, S):
    """The lines around do not matter."""
    line = text_line(S)
    kind, want = kind_of(line)
    S.assume(kind not in ("open comment", "delimiter"))
    S.reach(kind)
    before, after = S.choice("before", S.params["before"]), S.choice("after", S.params["after"])
    a, b = tokens_of(M, OTHERS[before]), tokens_of(M, OTHERS[after])
    me = tokens_of(M, line)
    got = tokens_of(M, OTHERS[before] + "\n" + line + "\n" + OTHERS[after])
    if me is None or got is None:
        S.fail("a line is an error", line)
    # a line without a text is a blank line
    got = [[t.type.name, t.value] for t in got if t.type.value != "EOL"]
    S.obs(got)
    S.equal("tokens", got, [[t.type.name, t.value] for t in a + me + b if t.type.value != "EOL"])


def carried(M, S):
    """In a block a line is nothing but its text, unless it is the delimiter of the block."""
    line = text_line(S)
    d = S.choice("delimiter", ["----", "////", "====", "aaaa"])
    got = tokens_of(M, d + "\n" + line + "\n" + d)
    if line == d:
        S.check("the third delimiter opens another block", got is None, line)
        return
    S.reach("inside")
    S.equal("tokens", [[t.type.name, t.value] for t in got if t.value != ""], [] if d == "////" else [["BLOCK", d]] + ([["TEXT", line]] if line else []) + [["BLOCK", d]])


NODE = {"rule": "horizontal-rule", "header": "header", "list": "list", "text": "paragraph"}
KNOWN = ["mau", "raw", "image", "toc", "footnotes", "blockgroup"]


def shown(M, S):
    """The element a line gives in a document."""
    line = text_line(S)
    kind, want = kind_of(line)
    S.reach(kind)
    where = S.choice("where", S.params["where"])
    pre, post = {"top": ["p\n\n", "\n\nq"], "block": ["====\np\n\n", "\n\nq\n===="], "file": ["p\n\n", "\n\nq"], "rule": ["p\n\n---\n", "\n---\nq"]}[where]
    # what would close the block is no element of it
    S.assume(not (where == "block" and line == "===="))
    text = pre + line + post
    if where == "file":
        S.files({"f.mau": text})
        text = "<< mau:f.mau"
    kd, p = attempt(M, parse, M, text, {"mau.parser.header_internal_id_function": lambda h: "i"})
    if kind == "open comment" or kind == "delimiter":
        S.equal("a block that is not closed is an error", kd, "error")
        return
    if kd == "error":
        # something in the line is wrong
        S.obs([kind, p.text])
        S.check("a line with this form is no error", kind in ("control", "include", "variable", "arguments") or "{" in line or "[" in line or
                # only a blank line ends a list
                (kind == "list" and where == "rule"), [line, p.text])
        return
    S.check("a definition has a second colon", not (kind == "variable" and (want is None or len(want) < 4)), line)
    nodes = p.nodes[0].content if where in ("block", "file") else p.nodes
    S.obs([kind, [n.type for n in nodes]])
    if kind == "control":
        S.check("the only operator is if", line[1:run_of(line, 1, LOWER)] == "if", line)
        return
    if kind == "include":
        s = spaces(line, 2)
        ctype = line[s:run_of(line, s, LOWER + DIGITS + "_#.")]
        if ctype in KNOWN or want is None:
            return
        mine = "include"
    else:
        mine = NODE.get(kind)
    got = [n.type for n in nodes if n.type != "horizontal-rule"] if where == "rule" else [n.type for n in nodes]
    if where == "rule":
        S.equal("rules", [n.type for n in nodes].count("horizontal-rule"), 2 + (mine == "horizontal-rule"))
        mine = None if mine == "horizontal-rule" else mine
    S.equal("elements", got, ["paragraph"] + ([mine] if mine else []) + ["paragraph"])
    if kind == "header" and want is not None:
        S.equal("level of the header", [n.level for n in nodes if n.type == "header"], [len(want[0][1])])
    if kind == "list":
        S.equal("kind of the list", [n.ordered for n in nodes if n.type == "list"], [want[0][1][0] == "#"])
    if kind == "variable":
        name = line[1:run_of(line, 1, LOWER + UPPER + DIGITS + "_.+-")]
        if name[0] in "+-":
            name = name[1:]
        if where in ("top", "rule") and want is not None and name != "" and "." not in name:
            S.check("the variable is defined", p.environment.get(name) is not None, line)


STARTS = ["@", "@i", "@if ", "<", "<<", "<< a", "<<a:", ":", ":a", ":a:", ":+", "[", "[a", ".", ".r", ". ", "=", "= a", "==", " ", " *", "*", "# ", "/"]
ENDS = ["", " ", "]", ":", "a", "x y", "==b", " a", "/", "-", "--", "*", "# a", "."]


def cases(tier):
    deep = tier != "quick"
    one = [""]
    out = [("alone%d" % n, alone, dict(n=n, pres=one, posts=one)) for n in range(0, 6 if deep else 5)]
    m = 3 if deep else 2
    out += [("start%d:%s" % (n, s), alone, dict(n=n, pres=[s], posts=ENDS)) for s in STARTS for n in range(0, m + 1)]
    names = list(OTHERS)
    for n in (0, 1, 2, 3) if deep else (0, 1, 2):
        out.append(("between%d" % n, between, dict(n=n, pres=one, posts=one, before=names, after=names if deep or n < 2 else ["text"])))
    out.append(("between starts", between, dict(n=1, pres=STARTS, posts=ENDS if deep else ["", "a", "]", " a"], before=names if deep else ["text", "list", "label", "arguments", "blank"], after=names if deep else ["text", "list"])))
    for n in (0, 1, 2, 3, 4):
        out.append(("carried%d" % n, carried, dict(n=n, pres=one, posts=one)))
    out.append(("carried starts", carried, dict(n=2 if deep else 1, pres=STARTS, posts=ENDS)))
    where = ["top", "block", "file", "rule"]
    for n in (0, 1, 2, 3, 4) if deep else (0, 1, 2, 3):
        out.append(("shown%d" % n, shown, dict(n=n, pres=one, posts=one, where=where if n < 3 or deep else ["top"])))
    out.append(("shown four", shown, dict(n=4, dom="*#=-/.ab", pres=one, posts=one, where=["top"])))
    for s in STARTS:
        out.append(("shown:" + s, shown, dict(n=2 if deep else 1, pres=[s], posts=ENDS, where=where if deep else ["top", "block"])))
    return out
