"""Shared helpers of the harnesses (run both symbolically and natively)."""

SRC = "main.mau"


class Handler:
    """A message handler that only records."""

    def __init__(self, M):
        class H(M("mau.message").BaseMessageHandler):
            type = "record"

            def __init__(self):
                self.seen = []

            def process_lexer_error(self, message):
                self.seen.append(("lexer", message))

            def process_parser_error(self, message):
                self.seen.append(("parser", message))

            def process_visitor_error(self, message):
                self.seen.append(("visitor", message))

            def process_visitor_debug(self, message):
                self.seen.append(("debug", message))
        self.handler = H()


def handler(M):
    return Handler(M).handler


def new_env(M, values=None):
    E = M("mau.environment.environment").Environment
    e = E()
    for k, v in (values or {}).items():
        e[k] = v
    return e


def parse(M, text, values=None, env=None, line=0, column=0, source=SRC):
    """The document parser after parsing text."""
    if env is None:
        env = new_env(M, values)
    P = M("mau.parsers.document_parser").DocumentParser
    return P.lex_and_parse(text, handler(M), env, start_line=line, start_column=column, source_filename=source)


def parse_text(M, text, values=None, line=0, column=0, source=SRC):
    P = M("mau.parsers.text_parser").TextParser
    return P.lex_and_parse(text, handler(M), new_env(M, values), start_line=line, start_column=column,
                           source_filename=source)


def attempt(M, fn, *a, **k):
    """("ok", result) or ("error", message) for the library's own errors; anything else escapes."""
    try:
        return "ok", fn(*a, **k)
    except M("mau.message").MauException as e:
        return "error", e.message


# ------------------------------------------------------------------ nodes as plain data
FIELDS = {
    "text": ("value",), "word": ("value",), "verbatim": ("value",), "value": ("value",), "raw-line": ("value",),
    "macro-unicode": ("value",), "macro-raw": ("value",), "source-marker": ("value",),
    "style": ("style", "content"), "header": ("level", "internal_id", "name", "content", "labels"),
    "paragraph": ("content", "labels"), "paragraph-line": ("content", "labels"),
    "horizontal-rule": ("labels",), "document": ("content",), "label": ("role", "content"),
    "list": ("ordered", "main_node", "start", "content", "labels"), "list-item": ("level", "content"),
    "block": ("classes", "content", "labels"), "raw": ("classes", "content", "labels"),
    "source": ("language", "classes", "content", "labels"),
    "source-line": ("line_number", "line_content", "highlight_style", "marker"),
    "macro": ("name",), "macro-class": ("classes", "content"), "macro-link": ("target", "content"),
    "macro-image": ("uri", "alt_text", "width", "height"), "macro-header": ("target_name", "header", "content"),
    "macro-footnote": ("name", "footnote"), "footnote": ("name", "public_id", "internal_id", "content"),
    "include": ("ctype", "labels"), "include-image": ("uri", "alt_text", "classes", "labels"),
    "include-mau": ("uri", "content", "labels"), "include-raw": ("uri", "content", "labels"),
    "footnotes": ("footnotes", "labels"), "footnotes-item": ("footnote",),
    "toc": ("plain_entries", "nested_entries", "labels"), "toc-item": ("header", "entries"),
    "blockgroup": ("name", "items", "labels"), "blockgroup-item": ("group", "position", "block"),
    "wrapper": ("content",), "condition": ("variable", "comparison", "value"),
}
INLINE = ("text", "word", "verbatim", "style", "macro", "macro-class", "macro-link", "macro-image", "macro-header",
          "macro-footnote", "macro-unicode", "macro-raw")
REFS = {("macro-header", "header"), ("macro-footnote", "footnote"), ("toc-item", "header"),
        ("footnotes-item", "footnote")}


def pairs(d):
    return [[k, d[k]] for k in sorted(d)]


def args_of(node):
    a = node.arguments
    return [list(a.unnamed_args), pairs(a.named_args), list(a.tags), list(a.internal_tags), a.subtype]


NOARGS = [[], [], [], [], None]


def ctx_of(node):
    c = node.info.context
    return [c.start_line, c.start_column, c.end_line, c.end_column, c.source]


def lines_of(node):
    c = node.info.context
    return [c.start_line, c.end_line, c.source]


def dump(node, args=True, ctx=None, refs=True):
    """Plain nested lists: [type, arguments, (context), field, field ...]."""
    if node is None:
        return None
    t = node.type
    out = [t]
    if args and t not in INLINE:
        a = args_of(node)
        out.append(a if a != NOARGS else [])
    if ctx is not None:
        out.append(ctx(node))
    for f in FIELDS[t]:
        v = getattr(node, f)
        if (t, f) in REFS:
            out.append(ref(v) if refs else None)
        elif f == "labels" or f == "items":
            out.append([[k, dump(v[k], args, ctx, refs)] for k in v])
        elif isinstance(v, list) and f != "classes":
            out.append([dump(x, args, ctx, refs) for x in v])
        elif hasattr(v, "accept"):
            out.append(dump(v, args, ctx, refs))
        elif f == "classes":
            out.append(list(v))
        else:
            out.append(v)
    return out


def ref(node):
    """What a reference to a header or a footnote shows."""
    if node is None:
        return None
    if node.type == "header":
        return ["->header", node.level, node.internal_id, node.name, dumps(node.content)]
    return ["->footnote", node.name, node.public_id, node.internal_id, dumps(node.content)]


def dumps(nodes, args=True, ctx=None, refs=True):
    return [dump(n, args, ctx, refs) for n in nodes]


def message_of(m):
    """An error message as plain data."""
    return [type(m).__name__, m.text]


def outcome(M, fn, *a, **k):
    """Parse and dump the whole document, or the error."""
    kind, r = attempt(M, fn, *a, **k)
    if kind == "ok":
        return ["ok", dumps(r.nodes)]
    return ["error"] + message_of(r)


def walk(node):
    """The nodes of a tree, parents first (references are not followed)."""
    yield node
    t = node.type
    for f in FIELDS[t]:
        if (t, f) in REFS:
            continue
        v = getattr(node, f)
        if f == "labels" or f == "items":
            for k in v:
                yield from walk(v[k])
        elif isinstance(v, list) and f != "classes":
            for x in v:
                yield from walk(x)
        elif hasattr(v, "accept"):
            yield from walk(v)


def text_of(nodes):
    """The text a sequence of inline nodes shows."""
    out = ""
    for n in nodes:
        if n.type in ("text", "verbatim", "macro-raw", "macro-unicode"):
            out = out + n.value
        elif "content" in FIELDS[n.type]:
            out = out + text_of(n.content)
    return out
