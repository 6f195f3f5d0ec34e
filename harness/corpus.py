"""Concrete documents that together use every construct; harnesses put symbolic pieces around or into them."""

DOCS = {
    "paragraph": "one *two* `three`\nfour [link](https://x.y, \"some _text_\")",
    "two": "first\n\n\nsecond line\nthird",
    "styles": "a _b *c* ^d^_ ~e~ $f*$ %g_% \\*h",
    "header": "= Title *one*\n\n== Second\n=== Third",
    "header-args": "[#tag, name=abc, internal_id=q]\n. label\n= Title\n\nsee [header](abc) and [header](abc, \"other\")",
    "rule": "a\n\n.role lab *x*\n[a, b=c]\n---\n\nb",
    "list": "* a\n** b *c*\n*** d\n* e\n\n[start=3]\n# f\n## g\n# h\n\n[start=auto]\n# i",
    "block": "[#t, *sub, classes=\"k,l\"]\n. title\n----\ninside *x*\n\n++++\ndeep\n++++\n----\n\nafter",
    "empty-block": "----\n----\n\n[engine=raw]\n++++\n++++\n\n[@source]\n====\n====",
    "raw": "[engine=raw]\n----\nx = _1_\n\n  [y]\n----",
    "source": "[@source, python]\n----\nimport a:1:\ndef x():@:\ny:@add:\n\nz\n----",
    "footnotes": "a[footnote](n) b[footnote](m)\n\n[footnote=n]\n----\nbody *n*\n----\n\n[footnote=m]\n----\nbody m\n\nmore\n----\n\n<< footnotes",
    "toc": "= A\n\n== B\n\n<< toc\n\n= C\n\n==== D",
    "group": "[group=g, position=p]\n----\nin p\n----\n\n[group=g, position=q]\n----\nin q\n----\n\n. lab\n<< blockgroup:g",
    "image": "<< image:a.png, \"alt text\", \"k,l\"\n\n[image](b.png, alt, 10, 20) [image](c.png)",
    "macros": "[class](\"text _x_\", k, l) [unicode](1F600) [raw](\"<b>\") [mailto](a@b.c) [mailto](d@e.f, \"m _n_\") [foo](1, b=2)",
    "ifs": ":v:1\n\n[if:v==1](\"yes *y*\", no) [ifeval:v!=1](a, v)\n\n@if v==1\nshown\n\n@if v==2\nhidden\n\n@if v!=2\n= H\n\nend",
    "variables": ":x:foo *bar*\n:+flag:\n\nA {x} `{x}` \\{x\\} {{x}} {flag}\n\n:x:again\n[k={x}]\n{x}",
    "comments": "// c\na\n////\nb\n////\nc\n\n// d\nd",
    "isolate": "= A\n\n[isolate=false]\n----\n== B\n\nx[footnote](n)\n----\n\n[footnote=n]\n++++\nN\n++++\n\n<< toc\n\n<< footnotes",
    "isolated": "= A\n\n----\n== B\n\n<< toc\n----\n\n<< toc",
    "custom": "[a, b, #t, *s, c=d]\n. title\n<< whatever",
    "labels": ". one\n.role two *x*\n. three\nparagraph",
}

# faulty element, text of the lines, line (0 based) of the element in them
FAULTS = {
    "unclosed comment": ("////\nx", 0),
    "unclosed block": ("++++\nx", 0),
    "invalid syntax": (":x", 0),
    "no value": (":x:", 0),
    "undefined variable": ("a {nope}", 0),
    "undefined variable in a header": ("= a {nope}", 0),
    "undefined variable in an item": ("* a\n* {nope}", 1),
    "undefined variable in the second line": ("a\nb {nope}", 1),
    "undefined variable in a definition": (":x:{nope}", 0),
    "undefined variable in arguments": ("[{nope}]\na", 0),
    "undefined condition variable": ("@if nope==1\na", 0),
    "empty condition": ("@if ", 0),
    "bad operator": ("@unless x==1\na", 0),
    "bad condition": ("@if x=1\na", 0),
    "unnamed after named": ("[a=1, b]\nx", 0),
    "two subtypes": ("[*a, *b]\nx", 0),
    "unknown alias": ("[@nope]\nx", 0),
    "unknown engine": ("[engine=nope]\n++++\nx\n++++", 1),
    "no image": ("<< image", 0),
    "no file name": ("<< mau", 0),
    "missing file": ("<< mau:/nonexistent/file", 0),
    "a directory": ("<< mau:.", 0),
    "a raw directory": ("<< raw:.", 0),
    "impossible file": ("<< mau:a\0b", 0),
    "no arguments": ("<< toc:\na", 0),
    "no arguments in an excluded include": (":x:1\n@if x==\n<< toc:\na", 2),
    "missing raw file": ("<< raw:/nonexistent/file", 0),
    "both arguments": ("[a]\n<< image:b", 1),
    "no group": ("<< blockgroup", 0),
    "unknown group": ("<< blockgroup:nope", 0),
    "list and text": ("* a\nb", 1),
    "bad start": ("[start=x]\n# a", 1),
    "duplicate footnote": ("[footnote=z]\n++++\na\n++++\n[footnote=z]\n++++\nb\n++++", 5),
    "undefined footnote": ("a\n[footnote](nope)", 1),
    "undefined header": ("a\n[header](nope)", 1),
    "duplicate header": ("[name=z]\n= a\n[name=z]\n= b", 3),
    "duplicate position": ("[group=z, position=1]\n++++\n++++\n[group=z, position=1]\n++++\n++++", 4),
    "link without target": ("a\n[link]()", 1),
    "header link without target": ("[header]()", 0),
    "mailto without target": ("[mailto]()", 0),
    "image without target": ("[image]()", 0),
    "class without text": ("[class]()", 0),
    "unicode without value": ("[unicode]()", 0),
    "raw without value": ("[raw]()", 0),
    "footnote without name": ("[footnote]()", 0),
    "if without case": ("a\n[if:nope==1](a)", 1),
    "if without condition": ("[if:](a)", 0),
    "if without colon": ("[if](a)", 0),
    "fault in a block": ("++++\na\n\n{nope}\n++++", 3),
    "fault deep in blocks": ("++++\n----\na\n----\n\n----\n[name={nope}]\nb\n----\n++++", 6),
    "unclosed block in a block": ("++++\na\n----\nb\n++++", 2),
}
