"""C10 Labels, arguments and conditions attach to exactly the next block node."""
from harness.common import NOARGS, attempt, dumps, parse

BOUNDS = {"quick": "every sequence of up to 3 attachments (labels of 3 roles, arguments, conditions, with symbolic text and "
                   "values) and of neutral lines between them, in front of 15 kinds of node, followed by 5 kinds",
          "thorough": "sequences of up to 4 attachments, followed by all the kinds"}
OUTSIDE = "attachments at the end of a document; boxed together with inline arguments of an include, which is an error (C01)"

GROUP = "[group=gg, position=p]\n====\nin\n====\n\n"

# kind: the lines, with inline arguments when it has none in a box
KINDS = {
    "rule": "---", "paragraph": "par *b*\nmore", "header": "== head", "list": "* it\n** sub\n* em", "ordered": "# it",
    "block": "++++\npar\n++++", "empty block": "++++\n++++", "image": "<< image", "raw include": "<< raw", "mau include": "<< mau",
    "toc": "<< toc", "footnotes": "<< footnotes", "blockgroup": "<< blockgroup", "other include": "<< thing",
    "raw": "++++\npar\n++++", "source": "++++\npar\n++++",
}
FIRST = {"image": "im.png", "raw include": "raw.txt", "mau include": "inc.mau", "blockgroup": "gg"}
EXTRA = {"raw": "engine=raw", "source": "engine=source", "header": "internal_id=i"}
FILES = {"raw.txt": "one\ntwo", "inc.mau": "included\n\n---"}


class Setup:
    def __init__(self, S, more=()):
        S.files(dict(FILES, **dict(more)))
        self.first = dict(FIRST)

    def plain(self, kind):
        """The node alone: text, dump of it."""
        text = KINDS[kind]
        if kind in self.first:
            return text + ":" + self.first[kind]
        if kind in EXTRA:
            return "[" + EXTRA[kind] + "]\n" + text
        return text


def attached(setup, kind, u, k, t, s):
    """An argument line with everything, and what the node shows of it."""
    parts = ["#" + t, "*" + s]
    unnamed = []
    if kind in setup.first:
        parts.append(setup.first[kind])
    elif kind != "source":
        parts.append(u)
        unnamed = [u]
    parts.append("k=" + k)
    if kind in EXTRA:
        parts.append(EXTRA[kind])
    return "[" + ", ".join(parts) + "]", [unnamed, [["k", k]], [t], [], s]


NAME = "abcdefghijklmnopqrstuvwxyz"


def alone(M, setup, kind):
    """What the node is without any attachment (and with the inline arguments it needs)."""
    p = parse(M, GROUP + setup.plain(kind))
    n = dumps(p.nodes)[0]
    n[1] = []
    return n


def sequence(M, S):
    """Attachments in any order and number, then the node, then another one."""
    setup = Setup(S)
    kind = S.params["kind"]
    after = S.choice("after", S.params["after"])
    lines, labels, args, cond = [], [], None, None
    boxed = False
    for i in range(S.params["n"]):
        op = S.choice("op%d" % i, ["label", "role a", "role b", "arguments", "true", "false", "symbolic", "blank", "comment", "variable"])
        if op in ("label", "role a", "role b"):
            w = S.str("l%d" % i, 1, NAME)
            role = {"label": "title", "role a": "a", "role b": "b"}[op]
            lines.append("." + ("" if role == "title" else role) + " " + w)
            for e in labels:
                if e[0] == role:
                    e[1] = w
                    break
            else:
                labels.append([role, w])
        elif op == "arguments":
            k, t = S.str("k%d" % i, 1, NAME), S.str("t%d" % i, 1, NAME)
            line, args = attached(setup, kind, "u%d" % i, k, t, "s%d" % i)
            lines.append(line)
            boxed = True
        elif op == "true":
            lines.append("@if v==1")
            cond = True
        elif op == "false":
            lines.append("@if v!=1")
            cond = False
        elif op == "symbolic":
            c = S.str("c%d" % i, 1, NAME)
            lines.append("@if w==" + c)
            cond = ("w", c)
        elif op == "blank":
            lines.append("")
        elif op == "comment":
            lines.append("// [x] . y")
        else:
            lines.append(":z%d:1" % i)
    text = setup.plain(kind) if not boxed else KINDS[kind]
    pairs = list(lines)
    pairs.append(text)
    pairs += ["", setup.plain(after)]
    w = S.str("w", 1, NAME)
    shown = True
    if cond is False:
        shown = False
    elif isinstance(cond, tuple):
        shown = w == cond[1]
    kd, p = attempt(M, parse, M, GROUP + "\n".join(pairs), {"v": "1", "w": w})
    if kd == "error":
        S.fail("a node with attachments is an error", p.text)
    got = dumps(p.nodes)
    S.obs(got)
    for n in got:
        if n[-1] and isinstance(n[-1][0], list):
            n[-1] = sorted(n[-1], key=lambda e: e[0])
    a, b = alone(M, setup, kind), alone(M, setup, after)
    want = []
    if shown:
        S.reach("shown")
        a[1] = args if args is not None else []
        a[-1] = sorted([[r, ["label", [], r, [["text", x]]]] for r, x in labels], key=lambda e: e[0])
        want.append(a)
    else:
        S.reach("excluded")
    want.append(b)
    for n in got + want:
        if n[0] == "toc":
            n[2:4] = []
    S.equal("the node has its attachments and the next one none", got, want)


def inside(M, S):
    """Attachments at the end of a block, an included file or in front of a body stay there."""
    setup = Setup(S)
    kind = S.choice("kind", list(KINDS))
    lines = {"label": ". lab", "role": ".r lab", "arguments": "[a, #t, k=v]", "false": "@if v!=1", "true": "@if v==1"}
    ops = [S.choice("op%d" % i, list(lines)) for i in range(S.params["n"])]
    att = "\n".join([lines[o] for o in ops])
    how = S.choice("how", ["in block", "in deep block", "in file", "footnote", "group", "before block"])
    if how == "in block":
        text = "----\npar\n\n" + att + "\n----"
    elif how == "in deep block":
        text = "----\n####\npar\n\n" + att + "\n####\n----"
    elif how == "in file":
        setup = Setup(S, {"a.mau": "par\n\n" + att + "\n"})
        text = "<< mau:a.mau"
    elif how == "footnote":
        text = att + "\n[footnote=nn]\n----\nbody\n----"
    elif how == "group":
        text = att + "\n[group=oo, position=1]\n----\nbody\n----"
    else:
        text = att + "\n----\npar\n\n---\n----"
    kd, p = attempt(M, parse, M, GROUP + text + "\n\n" + setup.plain(kind), {"v": "1"})
    if kd == "error":
        S.fail("attachments elsewhere are an error", p.text)
    got = dumps(p.nodes)
    want = alone(M, setup, kind)
    if kind in ("toc", "footnotes"):
        S.equal("type", got[-1][0], kind)
        S.equal("a clean node", [got[-1][1], got[-1][-1]], [[], []])
        return
    last = got[-1]
    if kind in EXTRA:
        last[1] = []
    S.equal("the next node is clean", last, want)
    if how == "before block" and [o for o in ops if o in ("true", "false")][-1:] != ["false"]:
        S.reach("content")
        S.equal("the content of the block is clean", [[n[1], n[-1]] for n in got[0][3]], [[[], []], [[], []]])


def reset(M, S):
    """The attachments of one node do not come back on a node much later, also of the same kind."""
    setup = Setup(S)
    kind = S.choice("kind", list(KINDS))
    w = S.str("w", 1, NAME)
    line, args = attached(setup, kind, "u", w, "t", "s")
    text = ".r " + w + "\n" + line + "\n@if v==" + S.choice("c", ["1", "2"]) + "\n" + KINDS[kind]
    for i in range(S.params["n"]):
        text += "\n\n" + setup.plain(S.choice("k%d" % i, list(KINDS)))
    p = parse(M, GROUP + text, {"v": "1"})
    got = dumps(p.nodes)
    S.obs(got[0])
    tail = got[len(got) - S.params["n"]:]
    S.equal("later nodes are clean", [n[-1] for n in tail], [[] for n in tail])
    S.equal("no later node has the arguments", [n[1][1:3] for n in tail if n[1] and n[1][2]], [])
    if len(got) > len(tail):
        S.reach("shown")
        S.equal("arguments", got[0][1], args)
        S.equal("labels", got[0][-1], [["r", ["label", [], "r", [["text", w]]]]])


def many(M, S):
    """As many labels, arguments and conditions as one likes, on as many nodes."""
    n = S.params["n"]
    w = S.str("w", 1, NAME)
    at = S.choice("at", [0, 1, 9, 10, n - 1])
    shape = S.choice("shape", ["labels", "arguments", "conditions", "nodes"])
    vals = ["v%d" % i + (w if i == at else "") for i in range(n)]
    env = {"c": "1"}
    if shape == "nodes":
        doc = "\n\n".join(". l" + x + "\n@if c" + ["==", "!="][i % 3 == 2] + "1\n[u" + x + ", #t" + x + "]\n" + ["---", "p"][i % 2] for i, x in enumerate(vals))
        p = parse(M, doc, env)
        S.obs(dumps(p.nodes))
        S.equal("attachments", [[[k, y.content[0].value] for k, y in x.labels.items()] + [x.arguments.unnamed_args, x.arguments.tags] for x in p.nodes],
                [[["title", "l" + x], ["u" + x], ["t" + x]] for i, x in enumerate(vals) if i % 3 != 2])
        return
    if shape == "labels":
        lines = [".r%d " % i + x for i, x in enumerate(vals)]
    elif shape == "arguments":
        lines = ["[" + x + "]" for x in vals]
    else:
        lines = ["@if c==" + ("1" if i == n - 1 else "2") for i in range(n)]
    p = parse(M, "\n".join(lines) + "\n---\n\n---", env)
    S.obs(dumps(p.nodes))
    S.equal("nodes", [x.type for x in p.nodes], ["horizontal-rule"] * 2)
    a = p.nodes[0]
    S.equal("labels", [[k, x.content[0].value] for k, x in a.labels.items()], [["r%d" % i, x] for i, x in enumerate(vals)] if shape == "labels" else [])
    S.equal("arguments", a.arguments.unnamed_args, [vals[-1]] if shape == "arguments" else [])
    S.equal("the next node", [p.nodes[1].labels, p.nodes[1].arguments.unnamed_args], [{}, []])


def cases(tier):
    deep = tier != "quick"
    out = []
    some = ["rule", "paragraph", "header", "list", "block"] if not deep else list(KINDS)
    for k in KINDS:
        for n in (1, 2):
            out.append(("sequence%d:%s" % (n, k), sequence, dict(kind=k, n=n, after=some if n == 1 else some[:2] if not deep else some)))
        if deep or k in ("rule", "source"):
            out.append(("sequence3:%s" % k, sequence, dict(kind=k, n=3, after=["paragraph"])))
    if deep:
        out.append(("sequence4", sequence, dict(kind="paragraph", n=4, after=["block"])))
    out += [("inside%d" % n, inside, dict(n=n)) for n in (1, 2)]
    out += [("reset%d" % n, reset, dict(n=n)) for n in ((1,) if not deep else (1, 2))]
    out.append(("many", many, dict(n=40 if deep else 12)))
    return out
