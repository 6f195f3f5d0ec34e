"""C01 Any input text yields a document or a Mau error."""
from harness.common import FIELDS, attempt, handler, new_env
from harness.corpus import DOCS, FAULTS
from harness.refs import BLOCKS, DEAD, INLINE, put

BOUNDS = {"quick": "every text of up to 4 characters out of 12 kinds and of up to 2 arbitrary characters; arbitrary characters at the ends and in the middle of 40 "
                   "kinds of lines; every pair of 58 lines and every triple of 22, each at the top and in blocks; 23 documents and 51 faulty pieces with one "
                   "character replaced, inserted or removed at every sixth place, and cut at every place; every inline text of up to 5 characters in "
                   "every position; header texts of any letters; three visitors",
          "thorough": "texts of 5 characters; every triple of 58 lines; edits of the documents at every place"}
OUTSIDE = ("lone surrogates (no file contains them); nesting deeper than the recursion of Python allows; texts with hundreds of emphasis marks (backtracking); variables in the \"mau.\" namespace and "
           "templates (configuration)")

DOM = "\n=*#[]:<{}a."
WORD = "abcXYZ019+.,; "
FILES = {"ok.mau": "= in\n\nx {v}", "raw.txt": "a\n", "self.mau": "<< mau:self.mau", "bad.mau": "[", "d/x": ""}


def run(M, S, text, visitor="base", simple=True):
    """Process the text; an error that is not the library's own escapes and is a violation."""
    m = M("mau")
    values = {"v": "1", "w": "*x*", "e": "", "f": "ok.mau"}
    if simple:
        values["mau.parser.header_internal_id_function"] = lambda h: "i"
    env = new_env(M, values)
    if visitor == "jinja":
        env["mau.visitor.templates.custom"] = {k + ".j2": "<{{ content }}{{ value }}{{ labels }}>" for k in FIELDS}
    V = {"base": M("mau.visitors.base_visitor").BaseVisitor, "jinja": M("mau.visitors.jinja_visitor").JinjaVisitor,
         "yaml": M("mau.visitors.yaml_visitor").YamlVisitor}[visitor]
    h = handler(M)
    kd, r = attempt(M, m.Mau(h, env).process, V, text, "s.mau")
    S.obs([kd, r.text if kd == "error" else type(r).__name__])
    if kd == "error":
        S.reach("error")
        S.check("the error carries a message", isinstance(r, M("mau.message").MauMessage) and len(r.text) > 0)
    else:
        S.reach("document")
        S.check("a document is rendered", isinstance(r, dict) if visitor == "base" else r is not None)


def free(M, S):
    """Any text."""
    S.files(FILES)
    text = S.params.get("pre", "") + S.str("t", S.params["n"], S.params["dom"]) + S.params.get("post", "")
    run(M, S, text, S.params.get("visitor", "base"))


# a line with a hole
HOLES = ["§", "§ab", "ab§", "[§]\nx", "[a§]\nx", "[a, k=§]\nx", "[#§]\n---", "[*§, *b]\nx", "[@§]\nx", "[engine=§]\n----\n----", "[start=§]\n# a", "[group=§, position=1]\n----\n----",
         "[isolate=§]\n----\n= a\n----", "[name=§]\n= a", "[internal_id=§]\n= a", "[footnote=§]\n----\n----", "[condition=§]\nx", ". §", ".§ a\nx", "..§\nx", "=§", "== §", "=§a", "*§", "* §\n** b", "# a\n#§b",
         "-§--", "--§-\nx\n----", "----\n§\n----", "----\n§\n----\n----\n§\n----", "////\n§\n////", "//§", ":x:§", ":§:1", ":+§:", ":-§:", ":§", ":x§", "@if v==§\nx", "@if §==1\nx", "@if v§1\nx", "@§ v==1\nx", "@if§",
         "<<§", "<< §", "<< mau:§", "<< raw§", "<< image:§", "<< image:a, §", "<< toc§", "<< toc:§", "<< blockgroup:§", "<< footnotes:§", "[§]\n<< mau", "[§]\n<< raw", "[§]\n<< image", "{§}", "a {v§} b", "{v}§", "`{§}`", "\\{§}",
         "[@source]\n----\na:§:\n----", "[@source]\n----\n:§\n----", "[@source, §]\n----\na\n----", "[@source, marker_delimiter=§]\n----\na:1:\n----", "[@source, highlight_marker=§]\n----\na:@:\n----",
         "[@source, highlight_style_§=x]\n----\na:@:\n----", "[engine=raw]\n----\n§\n----", "[classes=§]\n----\n----", "[classes=§]\n<< image:a"]


def hole(M, S):
    """Arbitrary characters in any part of any construct."""
    S.files(FILES)
    # chars of paths go to the file system
    i = S.params["hole"]
    t = HOLES[i]
    n = S.params["n"]
    path = t.startswith(("<< mau", "<< raw")) or t.endswith(("<< mau", "<< raw")) or t in ("<<§", "<< §")
    s = S.str("s", n, "aA 01-+_.\n\"=,\u0663\u00b2[" if "start=" in t else "ao.mu/:=,\"\\ #*@[{\n" if path else S.params["dom"])
    parts = t.split("§")
    text = parts[0]
    for p in parts[1:]:
        text = text + s + p
    where = S.choice("where", ["", "block", "open block", "after"] if S.params.get("deep") else ["", "open block"])
    text = {"": text, "block": "====\n" + text + "\n====", "open block": "[isolate=false]\n====\n" + text + "\n====", "after": "a\n" + text + "\nb"}[where]
    run(M, S, text)


LINES = ["", "  ", "x", "x {v}", "x {nope}", "{e}", "[a]", "[#t, *s, k=v]", "[", "[]", "[a=1, b]", "[@source]", "[engine=raw]", "[engine=nope]", "[isolate=false]", "[footnote=n]", "[footnote=]", "[group=g]",
         "[group=g, position=1]", "[start=auto]", "[start=x]", "[internal_id=i, name=h]", "[name=]", ". label", ".role label", ".", ". ", "= header", "=", "== ", "=======", "* item", "** item", "*", "# item", "### item",
         "#", "----", "++++", "////", "// c", "---", ":v:2", ":v:", ":+f:", ":-f:", ":", "@if v==1", "@if v==2", "@if", "@if nope==1", "@x v==1", "<< toc", "<< footnotes", "<< blockgroup:g", "<< image:a",
         "<< mau:ok.mau", "<< mau:self.mau", "<< raw:raw.txt", "<<", "<< ", "a[footnote](n)", "[header](h)", "[link](u, \"*x*\")", "[if:v==1](\"[footnote](n)\", b)", "[if](", "`*_", "\\"]
FEW = ["", "x", "[a]", "[footnote=n]", "[isolate=false]", "[engine=raw]", "[group=g, position=1]", ". label", "= header", "* item", "** item", "#", "----", "////", ":v:2", "@if v==1", "@if v==2", "<< toc",
       "<< footnotes", "<< blockgroup:g", "<< mau:ok.mau", "[footnote](n)"]


def lines(M, S):
    """Any sequence of lines, at the top, in a block and unclosed."""
    S.files(FILES)
    parts = [S.params["first"]] if "first" in S.params else []
    parts += [S.choice("l%d" % i, S.params["pool"]) for i in range(S.params["n"])]
    w = S.str("w", 1, WORD)
    at = S.choice("at", range(len(parts) + 1)) if S.params.get("anywhere") else S.params.get("at", 0)
    parts = [p + (w if i == at and p.endswith(("x", "item", "header", "label")) else "") for i, p in enumerate(parts)]
    where = S.choice("where", S.params["where"])
    pre, post = {"top": "", "block": "====\n", "open block": "[isolate=false]\n====\n", "list": "* a\n", "condition": "@if v==1\n", "excluded": "@if v==2\n"}[where], "\n====" if "block" in where else ""
    run(M, S, pre + "\n".join(parts) + post, S.params.get("visitor", "base"))


def edited(M, S):
    """A document with one character replaced, inserted or removed."""
    S.files(FILES)
    text = (DOCS.get(S.params["doc"]) or FAULTS[S.params["doc"]][0])
    step, first = S.params["step"], S.params["first"]
    i = S.choice("place", range(first % min(step, len(text)), len(text) + 1, step))
    how = S.choice("how", ["replace", "insert", "remove"])
    c = S.str("c", 1, S.params["dom"]) if how != "remove" else ""
    text = text[:i] + c + text[i + (how != "insert"):]
    # characters of paths and of header ids go to the file system and to hashes
    run(M, S, text, S.params.get("visitor", "base"))


def cut(M, S):
    """A document cut at any place, in front or at the end."""
    S.files(FILES)
    text = (DOCS.get(S.params["doc"]) or FAULTS[S.params["doc"]][0])
    i = S.choice("place", range(0, len(text) + 1, S.params["step"]))
    part = S.choice("part", ["front", "end", "twice"] if S.params["step"] == 1 else ["front", "end"])
    w = S.str("w", 1, DOM + "x-/" if S.params["step"] == 1 else "\n=x")
    text = {"front": text[:i] + w, "end": w + text[i:], "twice": text[:i] + w + text}[part]
    run(M, S, text)


def inline(M, S):
    """Any inline text in any position of text."""
    S.files(FILES)
    s = S.str("s", S.params["n"], S.params["dom"])
    place = S.params["place"]
    text = put({**INLINE, **BLOCKS, **DEAD}[place], s)
    run(M, S, text)


def mixed(M, S):
    """Every inline position in every block position, in every visitor."""
    S.files(FILES)
    b, i = S.choice("block", list(BLOCKS)), S.choice("inline", list(INLINE) + list(DEAD))
    c = S.str("c", 1, "-\n") if S.params.get("deep") else "-"
    v = S.params["visitor"]
    text = put({**INLINE, **DEAD}[i], c)
    run(M, S, put(BLOCKS[b], text) + "\n", v)


def macros(M, S):
    """Macros with any kind of arguments, also none and too many."""
    name = S.choice("name", ["link", "mailto", "header", "footnote", "class", "image", "unicode", "raw", "other", "if", "ifeval", "if:v==1", "if:", "ifeval:v==2", "if:v", "if:v==1:2", "ifx:v==1", "if:nope==1"])
    s = S.str("s", S.params["n"], "a=,\"\\ )*#@[")
    closed = S.choice("closed", [")", ""])
    run(M, S, "x [" + name + "](" + s + closed + " y")


# everything up to U+03FF that is not changed by lower(), and letters of all kinds that are
SMALL = "".join(c for c in map(chr, range(0x400)) if c.lower() == c and c != "\n") + "AZ\xc9\u0130\u03a3\u1e9e\u4f60\uffff\U0001f600"


def headers(M, S):
    """The default ids of headers work for any text."""
    s = S.str("s", S.params["n"], S.params["dom"])
    run(M, S, "= " + s + "\n\n== " + s + "\n\n<< toc", simple=False)


def cases(tier):
    deep = tier != "quick"
    out = [("free%d" % n, free, dict(n=n, dom=DOM if n < 4 or deep else "\n=*[#-a")) for n in ((0, 1, 2, 3, 4) if not deep else (0, 1, 2, 3, 4, 5))]
    out += [("any%d" % n, free, dict(n=n, dom="all")) for n in ((1, 2) if not deep else (1, 2, 3))]
    out += [("free block", free, dict(n=3, dom="\n-=a[", pre="----\n", post="\n----")), ("free open", free, dict(n=3, dom="\n-+/a", pre="----\n---", post="-\nx")),
            ("free comment", free, dict(n=3, dom="\n-/a ", pre="///", post="/\nx")), ("free list", free, dict(n=3, dom="\n*# a", pre="* a\n", post=" b")),
            ("free yaml", free, dict(n=2, dom=DOM, visitor="yaml")), ("free jinja", free, dict(n=2, dom=DOM, visitor="jinja"))]
    out += [("hole%d:%s" % (i, HOLES[i].replace("\n", "|")), hole, dict(hole=i, n=1, dom="all", deep=deep)) for i in range(len(HOLES))]
    out += [("hole2-%d:%s" % (i, HOLES[i].replace("\n", "|")), hole, dict(hole=i, n=2, dom="=:,\"\\ a*#@[\n" if not deep else "=:,\"\\ a*#@[]{}`()<.\n", deep=deep)) for i in range(len(HOLES)) if deep or i % 4 == 1]
    out += [("lines2", lines, dict(n=2, pool=LINES, where=["top"] if not deep else ["top", "open block"], at=1)), ("lines2 open", lines, dict(n=2, pool=FEW, where=["open block"], at=0)), ("lines1", lines, dict(n=1, pool=LINES, where=["top", "block", "open block", "list", "condition", "excluded"]))]
    out += [("lines3:" + f, lines, dict(n=2, first=f, pool=LINES if deep else FEW, where=["top"] if not deep else ["top", "block"], anywhere=deep)) for f in (LINES if deep else FEW)]
    out += [("lines yaml", lines, dict(n=2, pool=FEW, where=["top"], visitor="yaml")), ("lines jinja", lines, dict(n=2, pool=FEW, where=["top"], visitor="jinja"))]
    for i, d in enumerate(list(DOCS) + list(FAULTS)):
        # the first places are those of the keywords
        out.append(("edited:" + d, edited, dict(doc=d, step=1 if deep else 6, first=i, dom="=*#[]:<{}\"\\\na" if deep else "=*[]:{\"\\\na")))
        out.append(("cut:" + d, cut, dict(doc=d, step=1 if deep else 3)))
    T = "*_`[]()\\\"${"
    out += [("inline:" + k, inline, dict(n=2 if not deep else 4, dom=T, place=k)) for k in list(INLINE) + list(DEAD)[:5] + ["heading", "item", "label", "second line"]]
    out += [("inline5", inline, dict(n=4 if not deep else 6, dom="*_`a\\", place="alone"))]
    out += [("mixed " + v, mixed, dict(visitor=v, deep=deep)) for v in (["base"] if not deep else ["base", "jinja", "yaml"])]
    out += [("macros%d" % n, macros, dict(n=n)) for n in ((0, 1) if not deep else (0, 1, 2, 3))]
    out += [("headers%d" % n, headers, dict(n=n, dom="aZ -.*[]1")) for n in (1, 2)]
    out += [("headers any%d" % n, headers, dict(n=n, dom="aZ1 -\xb2\xdf\xe9\u0130\u4f60\U0001f600" if n > 1 else SMALL)) for n in (1, 2)]
    return out
