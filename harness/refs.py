"""Places in a document where a piece of inline text (written §) can stand, shared by several harnesses."""

# inline text around it; at depth two the quotes of the inner text are escaped
INLINE = {
    "alone": "§", "text": "a § b", "style": "*§*", "styles": "_x *§* y_", "adjacent": "`v`§^c^",
    "link": "[link](u, \"x §\")", "class": "[class](\"§ x\", k)", "mailto": "[mailto](a@b.c, \"§\")", "header": "[header](hh, \"y §\")",
    "if": "[if:v==1](\"§\", no)", "else": "[if:v!=1](no, \"x §\")", "style in class": "[class](\"x *§*\", k)",
    "class in class": "[class](\"[class](\\\"§\\\", j)\", k)", "link in if": "[if:v==1](\"[link](u, \\\"x *§*\\\")\")", "variable": "{v}§{e}",
}
# blocks of lines around it
BLOCKS = {
    "paragraph": "§", "second line": "x\n§\ny", "heading": "[internal_id=j]\n= §", "item": "* x\n* §", "deep item": "* x\n** §\n* y",
    "label": ". §\np", "role label": ".role x §\n[a]\n---", "label of toc": ". §\n<< toc", "label of block": ". §\n----\n----",
    "label of list": ". §\n# a", "label of heading": ". §\n[internal_id=j]\n= x", "condition": "@if v==1\ny §",
    "open block": "[isolate=false]\n----\n§\n----", "open in open": "[isolate=false]\n----\nx\n\n[isolate=false]\n++++\n* §\n++++\n----",
    "label in open block": "[isolate=false]\n----\n. §\ny\n----", "grouped": "[group=gg, position=1, isolate=false]\n----\n§\n----\n\n<< blockgroup:gg",
    "heading in open block": "[isolate=false]\n----\n[internal_id=j]\n== §\n----", "footnote body": "[footnote=ff, isolate=false]\n----\n§\n----",
    "label of image": ". §\n<< image:a.png",
}
# places that are no text: nothing in them is a reference
DEAD = {
    "verbatim": "`§`", "escaped": "\\§", "dollar": "$§$", "comment": "// §\nx", "comments": "////\n§\n////\nx", "raw": "[engine=raw]\n----\n§\n----",
    "source": "[@source]\n----\n§\n----", "excluded": "@if v==2\n§", "excluded block": "@if v==2\n[isolate=false]\n----\n§\n----",
    "untaken": "[if:v==2](\"§\", no)", "untaken else": "[if:v==1](no, \"§\")", "alt": "[image](u, \"§\")", "raw macro": "[raw](\"§\")",
    "definition": ":d:§\n\nx", "argument": "[\"§\"]\nx",
}


def put(template, text):
    """The template with the text in the place of its §."""
    a, b = template.split("§")
    return a + text + b


def everything(node):
    """All nodes under a node; copies in tables of contents and references are not followed."""
    from harness.common import FIELDS, REFS
    yield node
    t = node.type
    for f in FIELDS[t]:
        if (t, f) in REFS or t == "toc" and f != "labels":
            continue
        v = getattr(node, f)
        if f == "labels" or f == "items":
            for k in v:
                yield from everything(v[k])
        elif isinstance(v, list) and f != "classes":
            for x in v:
                yield from everything(x)
        elif hasattr(v, "accept"):
            yield from everything(v)


def found(nodes, kind):
    return [x for n in nodes for x in everything(n) if x.type == kind]
