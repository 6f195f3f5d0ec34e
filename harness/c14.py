"""C14 Raw and source blocks carry their lines verbatim."""
from harness.common import attempt, ctx_of, dumps, new_env, parse

BOUNDS = {"quick": "raw blocks of up to 3 lines with up to 4 characters each, any character but a newline; source blocks with a line of up "
                   "to 6 characters (any character), 5 delimiters, 3 highlight prefixes; every delimiter character of the block",
          "thorough": "lines of up to 8 characters"}
OUTSIDE = ("delimiters of several characters that overlap with themselves; end column of a line with a highlight style "
           "(its label may or may not be counted); style names with dots in the configuration")

LINES = ["= h", "{v} `x` *b*", "[a, b]", "<< toc", "////", "// c", "* i", ":v:2", "@if v==1", "[footnote](none)", "  s  ", "", "\\", "---", ". l", ":+f:",
         "[header](none)", "\t", "++++", "a:"]


def context(S, what, node, line, text, first, source="main.mau"):
    c = ctx_of(node)
    S.equal(what, [c[0], c[1], c[2], c[4]], [first + line, 0, first + line, source])


def wrap(S, where, block):
    """The block inside other blocks or after other lines; the line its content starts at."""
    pre = {"top": "", "after": "p\n\n. lab\n", "nested": "++++\nx\n\n", "deep": "++++\n[isolate=false]\n~~~~\n"}[where]
    post = {"top": "", "after": "\n\nq", "nested": "\n\ny\n++++", "deep": "\n~~~~\n++++"}[where]
    return pre + block + post, pre.count("\n")


def find(nodes, kind):
    for n in nodes:
        if n.type == kind:
            return n
        if n.type in ("block", "include-mau"):
            r = find(n.content, kind)
            if r is not None:
                return r


def raw(M, S):
    """A raw block has exactly its lines."""
    sizes = S.params["sizes"]
    d = S.choice("d", S.params["delims"])
    lines = [S.str("a%d" % i, n, "line") for i, n in enumerate(sizes)]
    S.assume(S.all(*[x != d * 4 for x in lines]))
    where = S.choice("where", S.params["where"])
    if where != "top":
        S.assume(S.all(*[S.all(x != "++++", x != "~~~~") for x in lines]))
    args = "[#t, engine=raw, k=v]\n"
    text, off = wrap(S, where, args + d * 4 + "\n" + "".join([x + "\n" for x in lines]) + d * 4)
    kd, p = attempt(M, parse, M, text)
    if kd == "error":
        S.fail("a raw block is an error", p.text)
    b = find(p.nodes, "raw")
    S.obs(dumps(p.nodes))
    S.equal("lines", [x.value for x in b.content], lines)
    S.equal("types", [x.type for x in b.content], ["raw-line"] * len(lines))
    for i, x in enumerate(b.content):
        context(S, "position of line %d" % i, x, i, lines[i], off + 2)
        S.equal("end of line %d" % i, x.info.context.end_column, len(lines[i]))
    S.equal("arguments", [b.arguments.unnamed_args, b.arguments.named_args, b.arguments.tags], [[], {"k": "v"}, ["t"]])


def split(line, delim, S):
    """(text, label) of a source line; label None if there is no label."""
    n, k = len(line), len(delim)
    if n < 2 * k or S.no(line[n - k:] == delim):
        return line, None
    for i in range(n - 2 * k, -1, -1):
        if line[i:i + k] == delim:
            if i + k == n - k:
                return line, None
            return line[:i], line[i + k:n - k]
    return line, None


def marks(line, S, delim=":", prefix="@", default="default", aliases=None):
    """(text, style, label) of a source line."""
    if aliases is None:
        aliases = {"+": "add", "-": "remove", "!": "important", "x": "error"}
    text, label = split(line, delim, S)
    if label is None:
        return text, None, None
    k = len(prefix)
    if len(label) >= k and label[:k] == prefix:
        style = label[k:]
        if len(style) == 0:
            style = default
        for a in aliases:
            if style == a:
                return text, aliases[a], None
        return text, style, None
    return text, None, label


def show(x):
    return [x.line_number, x.line_content, x.highlight_style, x.marker.value if x.marker else None]


def source_check(M, S, text, lines, off, env=None, **how):
    kd, p = attempt(M, parse, M, text, env=env or new_env(M))
    if kd == "error":
        S.fail("a source block is an error", p.text)
    b = find(p.nodes, "source")
    S.obs(dumps(p.nodes))
    want = []
    for i, l in enumerate(lines):
        t, style, label = marks(l, S, **how)
        want.append([str(i + 1), t, style, label])
        if label is not None:
            S.reach("label")
        if style is not None:
            S.reach("style")
    S.equal("lines", [show(x) for x in b.content], want)
    for i, x in enumerate(b.content):
        context(S, "position of line %d" % i, x, i, lines[i], off)
        if x.highlight_style is None:
            S.equal("end of line %d" % i, x.info.context.end_column, len(x.line_content))
        if x.marker:
            S.equal("position of marker %d" % i, ctx_of(x.marker), [off + i, len(x.line_content), off + i, len(lines[i]), "main.mau"])
    return b


def source(M, S):
    """The label at the end of a line."""
    n = S.params["n"]
    line = S.str("line", n, S.params["dom"])
    lines = list(S.params["others"])
    lines.insert(S.params["at"], line)
    d = S.choice("d", S.params["delims"])
    S.assume(line != d * 4)
    text, off = wrap(S, S.choice("where", S.params["where"]), "[engine=source]\n" + d * 4 + "\n" + "\n".join(lines) + "\n" + d * 4)
    b = source_check(M, S, text, lines, off + 2)
    S.equal("language", b.language, "text")


def custom(M, S):
    """Configured delimiter, prefix, default style and style names."""
    delim = S.choice("delim", ["|", ":", "#", "|>", ".", "<!>"])
    prefix = S.choice("prefix", ["@", "~", ">>"])
    default = S.choice("default", ["default", "mine", "+"])
    table = S.choice("aliases", [None, {"a": "alpha", "b": "x"}])
    head = "[engine=source" + ("" if delim == ":" else ", marker_delimiter=" + delim) + ("" if prefix == "@" else ", highlight_marker=" + prefix)
    head += "" if default == "default" else ", highlight_default_style=" + default
    form = S.params["form"]
    c = S.str("c", 1, "-\\")
    e = S.str("e", 1, "-\\")
    lab = {"label": e, "style": prefix + e, "bare": prefix, "named": prefix + "xy", "half": e + prefix, "none": None}[form]
    line = c + delim if lab is None else "f" + c + delim + lab + delim
    env = new_env(M, {})
    aliases = {"+": "add", "-": "remove", "!": "important", "x": "error"}
    if table is not None:
        env.dupdate({"mau": {"parser": {"source_highlight_style_aliases": table}}})
        # the given names are added to the default ones
        aliases = dict(aliases, **table)
    S.assume(line != "----")
    source_check(M, S, head + "]\n----\n" + line + "\nz" + delim + "\n----", [line, "z" + delim], 2, env=env,
                 delim=delim, prefix=prefix, default=default, aliases=aliases)


def several(M, S):
    """Lines keep their numbers and their order, whatever the lines around are."""
    n = S.params["n"]
    w = S.str("w", 1, "-\\")
    forms = ["", "a", "a:1:", "::", ":1:", "a:@+:", "a:" + w + ":", "a: :", w + ":@" + w + ":", "b:1:2:", w]
    lines = [S.choice("f%d" % i, forms) for i in range(n)]
    source_check(M, S, "[@source, lang]\n----\n" + "\n".join(lines) + "\n----", lines, 2)


def verbatim(M, S):
    """Nothing in the block is read as Mau, and nothing in it changes the rest of the document."""
    engine = S.choice("engine", ["raw", "source"])
    i, j = S.choice("i", range(len(LINES))), S.choice("j", range(len(LINES)))
    w = S.str("w", 1, "line")
    lines = [LINES[i], LINES[j], "w" + w]
    d = S.choice("d", ["----", "%%%%"])
    block = "[engine=" + engine + "]\n" + d + "\n" + "\n".join(lines) + "\n" + d
    rest = "= h\n\np {v}\n\n[start=auto]\n# a\n\n<< toc"
    kd, p = attempt(M, parse, M, block + "\n\n" + rest, {"v": "1"})
    if kd == "error":
        S.fail("a block is an error", p.text)
    kq, q = attempt(M, parse, M, rest, {"v": "1"})
    got = [x.value if engine == "raw" else x.line_content for x in p.nodes[0].content]
    S.obs(got)
    S.equal("lines", got, lines if engine == "raw" else [marks(x, S)[0] for x in lines])
    S.equal("rest of the document", dumps(p.nodes[1:]), dumps(q.nodes))


def language(M, S):
    """The language, and the arguments left on the node."""
    w = S.str("w", S.params["n"], "abcdefghijklmnopqrstuvwxyzABC0123456789-+.")
    head = S.choice("head", ["[@source, ", "[@source, language=", "[engine=source, language=", "[*sub, engine=source, language="])
    S.assume(len(w) or head.endswith("language="))
    extra = S.choice("extra", ["", ", a=b", ", classes=\"q,r\""])
    ks, p = attempt(M, parse, M, head + w + extra + "]\n----\nx\n----")
    b = p.nodes[0]
    S.obs(dumps(p.nodes))
    S.equal("language", [b.type, b.language, b.arguments.unnamed_args], ["source", w, []])
    S.equal("left", [b.arguments.named_args, b.classes], [{"a": "b"} if "a=b" in extra else {}, ["q", "r"] if "classes" in extra else []])


def shift(M, S):
    """Positions of the lines are shifted by the position of the text."""
    line = S.int("line", 0)
    w = S.str("w", 2, "-\n:")
    S.assume(w != "--")
    P = M("mau.parsers.document_parser").DocumentParser
    from harness.common import handler
    e = S.choice("engine", ["raw", "source"])
    p = P.lex_and_parse("[engine=" + e + "]\n----\n" + w + "\nb:1:\n----", handler(M), new_env(M), start_line=line, start_column=0,
                        source_filename="s.mau")
    c = [x.info.context for x in p.nodes[0].content]
    S.check("first line", S.all(c[0].start_line == line + 2, c[0].end_line == line + 2))
    S.check("second line", S.all(c[1].start_line == line + 3, c[1].end_line == line + 3))
    S.equal("source", [x.source for x in c], ["s.mau", "s.mau"])


def cases(tier):
    deep = tier != "quick"
    out = []
    ds = ["-", "#", "%", "a", "."]
    for sizes in ((), (0,), (1,), (3,), (4,), (2, 2), (0, 0), (0, 3), (1, 0, 1), (4, 4)) + (((6,), (8, 1), (3, 3, 3)) if deep else ()):
        out.append(("raw%s" % "-".join(map(str, sizes)), raw, dict(sizes=sizes, delims=ds, where=["top", "after", "nested", "deep"])))
    for n in range(0, 6 if not deep else 8):
        out.append(("source%d" % n, source, dict(n=n, dom="line", others=[], at=0, delims=["-"], where=["top"])))
    out.append(("source6 few", source, dict(n=6, dom=":@+a", others=[], at=0, delims=["-"], where=["top"])))
    if deep:
        out.append(("source8 few", source, dict(n=8, dom=":@+a", others=[], at=0, delims=["-"], where=["top"])))
    for at in (0, 1, 2):
        out.append(("source3 among %d" % at, source, dict(n=3, dom="line", others=["a:1:", "  b"], at=at, delims=ds, where=["top", "nested", "deep"])))
    out += [("custom " + f, custom, dict(form=f)) for f in ("label", "style", "bare", "named", "half", "none")]
    out += [("several%d" % n, several, dict(n=n)) for n in (1, 2, 3)[:3 if deep else 2]]
    out.append(("verbatim", verbatim, {}))
    out += [("language%d" % n, language, dict(n=n)) for n in (0, 1, 3)]
    out.append(("shift", shift, {}))
    return out
