"""C11 A condition includes or excludes its node exactly."""
from harness.common import attempt, dumps, parse

BOUNDS = {"quick": "every value and comparison text of up to 4 characters, both operators; 26 kinds of controlled pieces, and 43 forms of them (levels, delimiters, lengths), with "
                   "attachments in any order, between every pair of 5 kinds of preceding and 8 kinds of following pieces",
          "thorough": "values of up to 6 characters, two controlled pieces in a row"}
OUTSIDE = ("what the lexer rejects in an excluded node (an unclosed block is an error in any case); a variable that changes "
           "between the condition and its node; variables in the condition (C07)")

PLAIN = "-\\`{}"


def decision(M, S):
    """== holds exactly for equal texts, != exactly for different ones."""
    n, m = S.params["n"], S.params["m"]
    v = S.str("v", n, "all")
    t = S.str("t", m, PLAIN)
    if m:
        S.assume(S.all(t[0] != " ", t[m - 1] != " "))
    op = S.choice("op", ["==", "!="])
    sp = S.choice("sp", [("", ""), (" ", " "), ("  ", "")])
    kd, p = attempt(M, parse, M, "@if" + S.params["gap"] + "x" + sp[0] + op + sp[1] + t + "\n---\n\na", {"x": v})
    if kd == "error":
        S.fail("a condition is an error", p.text)
    got = [x.type for x in p.nodes]
    S.obs(got)
    same = v == t
    if same:
        S.reach("equal")
    else:
        S.reach("different")
    shown = same if op == "==" else not same
    S.equal("node shown exactly when the condition holds", got, ["horizontal-rule", "paragraph"] if shown else ["paragraph"])


def variable(M, S):
    """The variable is the one named, whatever the name, and it must be defined."""
    n = S.str("n", S.params["n"], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-")
    kd, p = attempt(M, parse, M, "@if " + n + "==1\n---", {"x": "1", "y.z": "1", "b": "2"})
    if S.any(n == "x", n == "y.z"):
        S.equal("true condition", [kd, len(p.nodes)], ["ok", 1])
    elif n == "b":
        S.equal("false condition", [kd, len(p.nodes)], ["ok", 0])
    else:
        S.reach("undefined")
        S.check("an undefined variable is an error", kd == "error", n)
        S.equal("error", p.text, "Variable '" + n + "' has not been defined.")


def kinds(M, S):
    """Values that are no strings equal no text."""
    v = S.choice("v", [1, True, None, ["1"], ""])
    op = S.choice("op", ["==", "!="])
    t = S.choice("t", ["1", "True", "None", ""])
    p = parse(M, "@if x" + op + t + "\n---", {"x": v})
    S.equal("shown", len(p.nodes), 1 if (v == t) == (op == "==") else 0)


# pieces: the lines of one block node (an attached argument line may come first)
PIECES = {
    "rule": ("", "---"), "paragraph": ("[#t]", "some [link](x) text\nmore"), "header": ("[name=hh]", "== hid"),
    "plain header": ("", "= top"), "header with id": ("[internal_id=q]", "=== q"), "list": ("", "* a\n** b\n* c"),
    "ordered": ("", "# a\n# b"), "auto": ("[start=auto]", "# a\n## b\n# c"), "ordered 5": ("[start=5]", "# a"), "block": ("", "----\n= in\n\n:v:9\n----"),
    "open block": ("[isolate=false]", "----\n= in\n\nx[footnote](ff)\n----"), "empty block": ("", "----\n----"),
    "deep block": ("[isolate=false]", "----\n[isolate=false]\n++++\n[name=hh]\n= in\n++++\n----"),
    "raw": ("[engine=raw]", "----\n= a\n----"), "source": ("[@source]", "----\na:1:\n----"),
    "footnote": ("[footnote=ff]", "----\nbody\n----"), "grouped": ("[group=gg, position=2]", "----\nb\n----"),
    "reference": ("", "a[footnote](pf)"), "link": ("", "[header](ph)"), "toc": ("", "<< toc"), "footnotes": ("", "<< footnotes"),
    "image": ("", "<< image:a.png, alt"), "include": ("", "<< mau:inc.mau"), "raw include": ("[raw.txt]", "<< raw"),
    "group include": ("", "<< blockgroup:pg"), "defining block": ("", "----\n:z:1\n:+y:\n----"),
}
# pieces that may only be left out
FAULTY = {
    "undefined variable": ("", "a {nope}"), "fault in a header": ("", "= a {nope}"), "fault in an item": ("", "* a\n* {nope}"),
    "fault in a block": ("", "----\n{nope}\n----"), "missing file": ("", "<< mau:none.mau"), "no group": ("", "<< blockgroup:none"),
    "undefined footnote": ("", "[footnote](none)"), "undefined header": ("", "[header](none)"), "duplicate header": ("[name=ph]", "= dup"),
    "duplicate footnote": ("[footnote=pf]", "----\n----"), "duplicate position": ("[group=pg, position=1]", "----\n----"),
    "bad engine": ("[engine=none]", "----\n----"), "bad start": ("[start=none]", "# a"), "no uri": ("", "<< image"),
    "bad macro": ("", "[link]()"), "bad block": ("[isolate=false]", "----\n[name=ph]\n= dup\n----"),
}
PRE = {"nothing": "", "header": "= pre", "ordered": "# p\n# q\n# r", "paragraph": "p", "toc": "<< toc"}
POST = {"nothing": "", "header": "=== post", "auto": "[start=auto]\n# s\n# t", "toc": "<< toc", "footnotes": "<< footnotes",
        "group": "<< blockgroup:pg", "paragraph": "p {v}", "block": "++++\nq\n\n= r\n++++"}
BASE = ("[name=ph]\n= first\n\n[footnote=pf]\n----\nfirst body\n----\n\n[group=pg, position=1]\n----\nfirst in group\n----\n\n")
END = "\n\n[header](ph)[footnote](pf)\n\n<< toc\n\n<< footnotes\n\n<< blockgroup:pg"
FILES = {"inc.mau": "= inc\n\n:v:8\n", "raw.txt": "a"}


def result(M, text):
    """Everything a document leaves behind."""
    kd, p = attempt(M, parse, M, text, {"v": "1", "c": "1"})
    if kd == "error":
        return ["error", p.text], None
    o = p.output
    env = p.environment.asflatdict()
    return ["ok", dumps(p.nodes), dumps(o.toc.plain_entries) if o.toc else None, dumps(o.toc.nested_entries) if o.toc else None,
            [[c.callee_uri, c.call_arguments] for c in o.include_calls],
            [[k, env[k]] for k in sorted(env) if not k.startswith("mau.")]], p


def join(*parts):
    return "\n\n".join([p for p in parts if p])


def piece(S, name, pool, cond):
    args, text = pool[name]
    att = [a for a in (args, ". lab *x*") if a and (a == args or "inline" not in name)]
    if args == "" and text.startswith("<<") and ":" in text:
        att = [". lab"]
    plain = list(att) + [text]
    pos = S.choice("pos", range(len(att) + 1))
    return "\n".join(plain), "\n".join(plain[:pos] + [cond] + plain[pos:])


def exact(M, S):
    """True: as without the condition; false: as without the node."""
    S.files(FILES)
    w = S.str("w", 1, PLAIN)
    S.assume(w != " ")
    op = S.choice("op", S.params["ops"])
    cond = "@if c" + op + w
    pool = PIECES if S.params["piece"] in PIECES else FAULTY
    plain, controlled = piece(S, S.params["piece"], pool, cond)
    pre, post = S.choice("pre", PRE), S.choice("post", POST)
    holds = (w == "1") if op == "==" else (w != "1")
    if pool is FAULTY:
        S.assume(S.no(holds) if not isinstance(holds, bool) else not holds)
    text = BASE + join(PRE[pre], controlled, POST[post]) + END
    got, p = result(M, text)
    S.obs(got[0])
    if holds:
        S.reach("holds")
        want, q = result(M, BASE + join(PRE[pre], plain, POST[post]) + END)
    else:
        S.reach("excluded")
        want, q = result(M, BASE + join(PRE[pre], POST[post]) + END)
    S.equal("the document", got, want)


def double(M, S):
    """Two controlled pieces in a row: each follows its own condition."""
    S.files(FILES)
    names = [S.choice("p%d" % i, S.params["pieces"]) for i in range(2)]
    holds = [S.choice("h%d" % i, [True, False]) for i in range(2)]
    got_parts, want_parts = [], []
    for n, h in zip(names, holds):
        a, t = PIECES[n]
        lines = [x for x in (a, t) if x]
        got_parts.append("\n".join(["@if c" + ("==" if h else "!=") + "1"] + lines))
        if h:
            want_parts.append("\n".join(lines))
    S.assume(not (names[0] == names[1] and all(holds) and PIECES[names[0]][0] not in ("", "[#t]")))
    got, _ = result(M, BASE + join(*got_parts) + END)
    want, _ = result(M, BASE + join(*want_parts) + END)
    S.obs(got[0])
    S.equal("the document", got, want)


FORMS = [("header %d" % i, "", "=" * i + " h") for i in range(1, 9)] + \
    [("named header %d" % i, "[#t, name=n%d, a=b]" % i, "=" * i + " h [header](ph)") for i in (1, 4, 6)] + \
    [("list %d" % i, "", "\n".join("*" * (j % i + 1) + " i%d" % j for j in range(12))) for i in (1, 3, 6)] + \
    [("ordered %d" % i, "[start=%d]" % i, "# a\n## b\n# c") for i in (0, 7, 10)] + \
    [("block " + d, "", d * 4 + "\n= in\n\n[footnote=pf]\n!!!!\n!!!!\n\n[footnote](pf)\n" + d * 4) for d in "-+*=#&%~"] + \
    [("long block", "", "-" * 4 + "\n" + "\n\n".join("p%d" % i for i in range(12)) + "\n" + "-" * 4)] + \
    [("open %d" % n, "[isolate=false]", "----\n" + "\n".join("[isolate=false]\n" + d * 4 for d in "+*&%"[:n]) + "\n==== deep\n\n[footnote=fo]\n!!!!\nb\n!!!!\n\n[footnote](fo)\n" +
      "\n".join(d * 4 for d in "+*&%"[:n][::-1]) + "\n----") for n in (1, 2, 4)] + \
    [("paragraph", "[a, #t, *sub, k=v]", "\n".join("line %d [footnote](pf)" % i for i in range(12)))] + \
    [("labels", "", "\n".join(".r%d x" % i for i in range(12)) + "\n---")] + \
    [("footnote %d" % i, "[footnote=g%d]" % i, "----\nb\n----") for i in (1, 10)] + \
    [("grouped %d" % i, "[group=pg, position=q%d]" % i, "----\nb\n----") for i in (1, 10)] + \
    [("include " + k, "", "<< " + k) for k in ("image:a.png", "image:a.png, alt, k", "raw:raw.txt", "mau:inc.mau", "toc", "toc:a", "footnotes:a", "blockgroup:pg")]


def forms(M, S):
    """Any form of a piece: levels, delimiters, lengths."""
    S.files(FILES)
    name, args, text = S.choice("form", FORMS)
    w = S.str("w", 1, "abcdef0123456789")
    op = S.choice("op", ["==", "!="])
    holds = (w == "1") if op == "==" else (w != "1")
    lines = [x for x in (args, text) if x]
    a, b = S.choice("around", [("= A", "== B"), ("", ""), ("x", "= B")])
    got, _ = result(M, BASE + join(a, "\n".join(["@if c" + op + w] + lines), b) + END)
    want, _ = result(M, BASE + (join(a, "\n".join(lines), b) if holds else join(a, b)) + END)
    S.obs(got[0])
    S.equal("outcome", got[0], "ok")
    S.equal("the document", got, want)


def within(M, S):
    """Conditions on the outside and inside of a block."""
    outer, inner = S.choice("outer", [True, False]), S.choice("inner", [True, False])
    w = S.str("w", 1, "abcdefgh")
    c = lambda h: "@if c" + ("==" if h else "!=") + "1\n"
    iso = S.choice("iso", ["", "[isolate=false]\n"])
    text = c(outer) + iso + "----\nx\n\n" + c(inner) + "= " + w + "\n\ny\n----\n\nz\n\n<< toc"
    want = ""
    if outer:
        want = iso + "----\nx\n\n" + ("= " + w + "\n\n" if inner else "") + "y\n----\n\n"
    got, _ = result(M, text)
    want, _ = result(M, want + "z\n\n<< toc")
    S.obs(got[0])
    S.equal("the document", got, want)


def many(M, S):
    """As many conditions as one likes, each for its own node."""
    n = S.params["n"]
    v = S.str("v", 1, "ab")
    w = S.str("w", 1, "ab")
    kinds = S.choice("kinds", [["rule"], ["paragraph"], ["list", "rule", "block", "paragraph", "header", "toc", "ordered", "raw"]])
    text = {"rule": "---", "paragraph": "p", "list": "* a", "block": "----\nx\n----", "header": "= h", "toc": "<< toc", "ordered": "# a", "raw": "[engine=raw]\n----\n@if x==a\n----"}
    types = {"rule": "horizontal-rule", "paragraph": "paragraph", "list": "list", "block": "block", "header": "header", "toc": "toc", "ordered": "list", "raw": "raw"}
    doc, want = [], []
    for i in range(n):
        k = kinds[i % len(kinds)]
        op = ["==", "!=", "=="][i % 3]
        cond = "@if " + ["x", "y"][i % 2] + op + ["a", "b"][i // 2 % 2]
        doc.append(cond + "\n" + text[k])
        if ([v, w][i % 2] == ["a", "b"][i // 2 % 2]) == (op == "=="):
            want.append(types[k])
        if i % 5 == 4:
            doc.append("p")
            want.append("paragraph")
    p = parse(M, "\n\n".join(doc), {"x": v, "y": w})
    S.obs([x.type for x in p.nodes])
    S.equal("nodes", [x.type for x in p.nodes], want)


def cases(tier):
    deep = tier != "quick"
    out = []
    for n, m in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 2), (4, 4)) + (((6, 6), (5, 6)) if deep else ()):
        out.append(("decision%d%d" % (n, m), decision, dict(n=n, m=m, gap=" ")))
    out.append(("decision gaps", decision, dict(n=1, m=1, gap="   ")))
    out += [("variable%d" % n, variable, dict(n=n)) for n in (1, 2, 3)]
    out.append(("kinds", kinds, {}))
    out += [("exact:" + k, exact, dict(piece=k, ops=["==", "!="] if deep else [["==", "!="][i % 2]])) for i, k in enumerate(list(PIECES) + list(FAULTY))]
    out.append(("double", double, dict(pieces=list(PIECES) if deep else
                                       ["header", "ordered", "auto", "block", "open block", "include", "grouped", "toc"])))
    out.append(("forms", forms, {}))
    out.append(("within", within, {}))
    out.append(("many", many, dict(n=40 if deep else 12)))
    return out
