"""Writes DESIGN.md from properties.jsonl, the harnesses, known_findings.json, seeded/ and tools/seed_results.json."""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

INTRO = """# Design

One technique decides every property: **bounded symbolic execution of the real Python source of `/repo/mau`, with Z3
deciding path feasibility and assertions**.  Nothing is sampled: characters, integers, choices and orders are symbolic
variables, every feasible path within the bounds is explored, and the assertion on each path is decided for all the values
of the path.  This file is written by `tools/mkdesign.py` (prose in that file, bounds from the harnesses).

## How a check works

`python3 run.py C05 quick` (or `thorough`):

1. **Encoding, regenerated on every run.**  `symx/instrument.py` reads every module of `/repo/mau` from the working tree,
   rewrites its AST and loads the result as a second copy of the package next to the ordinary one.  The rewriting keeps the
   meaning on ordinary values; it routes what C code would do with a symbolic value through `symx/rt.py`: calls to builtins and
   methods, comparisons, `in`, `and/or/not`, subscripts, f-strings, `join`, dictionaries and sets (keys are compared by the
   solver), iteration, `isinstance`, `str`/`int`/`len`, regular expressions (`symx/rex.py` is a backtracking matcher with the
   semantics of `sre`, over symbolic strings), `re.split/sub/findall`, string methods (`symx/core.py`), copy/deepcopy, sorting.
   Nothing of the code under test is modelled by hand: a changed line in `/repo` is the line that is executed.
2. **Symbolic inputs.**  A harness `harness/cNN.py` builds inputs with `S.str(name, n, domain)` (n symbolic code points),
   `S.int` (unbounded unless told), `S.choice`, `S.bool`, `S.order`, puts them into documents, runs the code under test, and states
   the property with `S.equal/S.check`.  Text of different length is a case of its own (length is the bound, content is not).
3. **Forking.**  At a branch on a symbolic condition both outcomes are tried if they are feasible.  Constraints over a single
   variable are kept as exact interval sets, relations go to Z3; an assertion is a query for a model of `path condition and not
   property`.  A result `unknown`, an operation that cannot be encoded, a path over its step limit make the run *incomplete*, which is
   reported (`exhaustive: false`, `INCOMPLETE` line) and never counted as held.
4. **Validation of every path.**  Each finished path is run again on the uninstrumented code with a model of its path condition;
   the observations (`S.obs`), the verdict and the exceptions have to agree (`traces_validated_against_impl`).  A divergence is
   counted and makes the run non exhaustive; many of them fail the run.
5. **Counterexamples.**  A satisfiable negated assertion gives concrete inputs; they are written to `replays/` and replayed in a fresh
   process against the ordinary `/repo/mau`; only what fails there is printed as `VIOLATION property=.. replay=..` (exit 1).  Any
   exception that is not a Mau error and any path that does not end (30 s) is a violation by itself in every harness.
6. **Evidence.**  `evidence/<id>.json`: bounds, what is outside, functions encoded, queries, solver time, paths (`states`), decisions
   (`transitions`), validated paths, per-case table, witnesses (what was reached, so that a case is not vacuous).

### What stands in for the world

* Files: `S.files` gives the process a scratch directory with those files, current directory included; every path starts from it
  again.  Text that reaches `os.path`, `open` or `int()` is enumerated from its domain through the solver (at most 48 values), so those
  cases use small alphabets.
* Hashes are uninterpreted: `hashlib` objects fed with symbolic text give an opaque digest that is equal for equal texts and otherwise
  unconstrained; where the id is the subject (C12 `computed`), `S.digest` gives the digest of an expected text, so the check
  says *which* text is hashed without modelling the hash.  Other harnesses use `internal_id=` or a configured id function.
* State between runs: `symx/state.py` records the mutable state of modules and classes (in both copies of the package) after import
  and puts it back before every path and every replay, so no path sees what another one left; harnesses of C25 look for such traces
  inside one path.
* Iteration order of sets: `S.orders` runs the same thing under insertion order, its reverse and a rotation (C25); a counterexample is
  replayed under other values of PYTHONHASHSEED.
* Jinja2, PyYAML, logging are the real libraries; symbolic text passes through Jinja as concrete representative values where a
  template is rendered (C21, C22, C24, C25, C29), so for what Jinja itself does there is one value per path.
* The command line (C24) runs `main()` with `S.argv` in the scratch directory.

### Why this reaches what the tests cannot

The tests fix some inputs per function.  Here the content of a line, the name of a variable, the order of definitions, the levels of
headers, the offset of the source, the delimiter character, are unknowns; the defects found (below) are all of the kind that needs an
unusual value or combination.  What is outside the bounds is named for each property; nothing is claimed there.

### Is the engine itself right?

* Every path of every run is validated on the ordinary code (step 4), so a wrong encoding shows as a divergence, not as a verdict.
* `selftest/run.py` (not a check of the manifest) runs some 120 small functions, one per Python construct that is routed through `rt.py`
  (string methods, comprehensions, `match`, sorting, sets, dictionaries, formatting, iterators, regular expressions, exceptions ...),
  symbolically over small alphabets and compares them with Python for *every* value.
* Robustness against rewriting: two trees of behaviour-preserving rewrites (some 70: helper functions, comprehensions for loops, dispatch tables,
  `match`, caches, dataclass tricks, `functools`, `operator`, other `re` calls) were checked with all 29 quick checks: all exit 0, and all complete but
  for three that ran into the time limit.

### What was tried and rejected

CrossHair does not get through the lexers within minutes (its strings are Z3 sequences and regexes); CBMC/ESBMC-like tools have no Python
front end here.  Z3 sequences were avoided altogether: a string is a list of integer code points of known length.

## Properties

All 30 properties are claimed; none is listed as not applicable.  Which inputs no solver-based check can settle here is said under
*Outside*.

"""

METHOD = {
"C01": ("Whole documents with symbolic text anywhere: every line of up to n characters, symbolic pieces in every hole of templates that cover every construct, lexer + parser + visitor.",
        "the engine's own: no exception other than MauException (which must carry a message), every path ends. The lexers, the arguments/condition/preprocess parsers and the text parser are entered directly too."),
"C02": ("`DocumentLexer`/`TextLexer`/argument, condition, preprocess lexers on symbolic lines and sequences of lines of all kinds.",
        "each token's recorded position gives back exactly the token's text in the source; the pieces between tokens are only comments, newlines and spaces; positions are offset by symbolic start line and column."),
"C03": ("The same text parsed at (0,0) and at symbolic line/column offsets, inside paragraphs, blocks, source blocks, arguments, macros; spans merged from symbolic corners.",
        "relational: both runs agree except for the shift; every faulty corpus element names its own line."),
"C04": ("Documents of lines of symbolic text without markup characters.", "a paragraph model written independently: runs of lines, one line node per line, trailing spaces dropped."),
"C05": ("`TextLexer`+`TextParser` on symbolic lines over the markup alphabet.", "an independent recursive grammar of the inline language (in the harness) giving the expected node tree."),
"C06": ("Any symbolic text escaped with backslashes, or between `%`, `$`, backticks, in paragraphs, headers, items, labels, arguments of macros.", "the shown text is the text."),
"C07": ("Definitions, redefinitions, uses with symbolic names and values in all places; the preprocess parser on symbolic lines.", "an independent substitution function applied once to the line; scope of definitions in document order."),
"C08": ("Sequences of set/update/merge operations with symbolic keys and values (and dotted keys built from them), then all reads.", "a dictionary model of flat keys."),
"C09": ("`ArgumentsParser` on every symbolic list text, lists built from symbolic items, positional names.", "an independent grammar of the list and of the prefixes and aliases."),
"C10": ("Every order of labels, arguments, conditions, blank lines and comments in front of every kind of block node.", "the node alone has them; the next one has none."),
"C11": ("Every block and inline-bearing element with a true and a false condition; symbolic values on both sides.", "relational: document without the condition line / without the node."),
"C12": ("Managers on headers with unbounded symbolic levels; documents with headers among everything else; computed ids with symbolic text.", "pre-order and closest-lower-header rules stated directly; ids recomputed from a recorder in place of md5."),
"C13": ("Lists with symbolic levels, kinds and texts, interrupted by everything else.", "a stack model of nesting, numbering and `start`."),
"C14": ("Raw and source blocks with symbolic lines, delimiters and markers.", "the lines themselves; an independent rule for the markers; positions."),
"C15": ("Definitions and references with symbolic names in every order and place.", "first-come numbering model, identity of the linked nodes, error exactly when a reference has no body or a name has two."),
"C16": ("Header names and links with symbolic names in every order and place.", "one link, one header: identity; text of the link or of the header; error exactly otherwise."),
"C17": ("Groups, positions with symbolic names, blocks and includes in every order.", "a dictionary model of groups; identity of the blocks; errors exactly on clashes or unknown groups."),
"C18": ("Block content symbolic, any delimiter character (any code point), nesting; isolated or not.", "relational: the content parsed alone at that line; for open blocks the same document with the block opened."),
"C19": ("Scratch trees of files including each other, with symbolic variables, arguments, names.", "relational: the nodes of the file parsed alone; cycle detection model over paths; scope model of variables."),
"C20": ("Every node class with symbolic values and any missing part; documents of the corpus; deep copies, changes after copies.", "tree rules (identity of parents, no shared node), equality and disjointness of copies."),
"C21": ("`Template.from_name`, `match`, selection in `JinjaVisitor` with symbolic conditions and node attributes.", "the conjunction of the claims of the name, as a formula; specificity order as documented."),
"C22": ("Base, YAML and Jinja visitors on every node class and on documents, symbolic values, missing parts, configured join strings.", "an expected structure built from the fields of the node (`Expected`); rendered strings from templates that print their parts."),
"C23": ("`TokensManager`/base parser functions with symbolic tokens, nested attempts, stop tokens, escapes.", "a pointer into the list of tokens."),
"C24": ("`mau.cli.main` and its helpers with symbolic settings, files, options in a scratch directory.", "the model of namespaces and file names from the documentation; the written file compared with the visitor's result."),
"C25": ("The same text processed twice with anything in between, settings included; three orders of all sets.", "relational equality of everything observable."),
"C26": ("Comments with symbolic content in every gap of documents, nearly-comments in paragraphs, unclosed ones.", "relational: the document without the comment."),
"C27": ("Every macro with symbolic values given in every way; any text after the bracket.", "argument grammar of C09 and a table of macros."),
"C28": ("Inline conditions with symbolic variables, values and cases, `ifeval`.", "the text parsed with only the selected case."),
"C29": ("51 faulty elements in 10 places after 9 kinds of text; pairs; any short text; each template missing or broken.", "exactly one message, of the right kind, the same object as the error, with the file and line of the element; no visit after an error."),
"C30": ("`DocumentLexer` and the document parser on every short line and on starts and ends of every form with arbitrary characters between, alone and among other lines.", "an independent classification of a line, character by character, with its parts; the tokens of the line alone."),
}

AFTER = """## Defects found and repaired

Each was a violation reported by a check (or by the mutation-free runs while the check was built), reproduced on the real code
and repaired in a `fix:` commit; every fix that can be reverted alone is reported again by at least one check when it is reverted.

"""

FALSE = """## False alarms met on the way, and what was done

* Several properties were first stated too strongly and are corrected in `properties.jsonl`: loss of spaces at the end of a line (C02, C04),
  spaces around named values (C09), the parent of nodes inside list items and of entries of a table of contents (C20), the isolation of
  included files (C12, C15), block groups local to their document (C17), block variables shared with the document (C18).
* C03: the corpus said that `<< toc:` under a false condition fails at its own line while the text in front defined no variable; the
  corpus was wrong (the condition's own variable was undefined) and was corrected.
* C26 and C27: text that is a block delimiter made of one repeated character, and heads that contain `=` (a name), are not what the case
  is about; the inputs are excluded by assumptions.
* Engine: differences between `sre` and the matcher for empty repetitions, `str.split` on exotic white space and the hash order of
  symbolic keys were found by the validation of paths (divergences) and corrected in `symx/`.

## Behaviour left as it is (quirks the statements do not cover)

"""
QUIRKS = """`[if:a==b:c]` is an error; macro names starting with "if" are control macros
`<<toc foo` without colon leaves " foo" as paragraph text (an existing test needs such a line to be an include)
values of `pass_environment` and `isolate` other than "true" and "false"
whether spaces are a value of a definition is not claimed (C07)
the join string of raw content in Jinja uses a stale key; templates that are not well formed or miss an include are configuration (C01, C29)
variables in the reserved `mau.` namespace are configuration
a list directly followed by a line that is no item is an error
columns of the context of inline conditions are slightly shifted; spans of multi-line nodes are the smallest box
labels, toc items, footnote items and block group items have no position (fixed by existing tests)
nodes in list items and paragraph lines have the list or paragraph as parent, all items and sublists of a list the outermost list, all toc entries the toc node (fixed by existing tests); macro content has no parent
block groups are local to each document; a block group included twice shares its block nodes
footnote blocks lose labels and arguments
four spaces or `////` are no block delimiters
quoted `"call:x=v"` is an unnamed value; macro values (also quoted) that start with `#`, `*` or `@` become tag, subtype or alias
carriage returns in included files are converted
`asflatdict` gives the live data of an Environment; list values are shared
`@ifx` reads the operator "ifx"
`k= "x"` and spaces around quoted values are not treated as quoted; a list of spaces is one value of spaces
a trailing comma in a list is ignored; `a="b` unclosed is an unnamed value
values of template names with `__` or `.` are ambiguous; ties of specificity are resolved by order of loading
`group` of a block group item and `name` of a footnote macro are not in the visit result (fixed by existing tests)
the inline parser is exponential in the number of unclosed markers; long lines of markers are outside the bounds (C01, C05)
messages of visitors count lines from 1; `#mau:debug` gives debug messages, which are no errors"""


def main():
    out = [INTRO]
    kf = json.loads((ROOT / "known_findings.json").read_text())
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        h = importlib.import_module("harness." + p["id"].lower())
        run, oracle = METHOD[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n*Executed symbolically:* {run}\n*Oracle:* {oracle}\n"
                   f"*Bounds, quick:* {h.BOUNDS['quick']}.\n*Bounds, thorough:* {h.BOUNDS.get('thorough', 'the same')}.\n"
                   f"*Outside:* {getattr(h, 'OUTSIDE', '') or 'longer inputs'}.\n\n")
    out.append("Cost: a quick check takes 5 to 60 s on 8 cores, a thorough one up to 13 minutes (780 s budget; what is left unexplored then is reported).\n\n")
    out.append(AFTER)
    for r in kf["fixed"]:
        out.append("* " + (r if isinstance(r, str) else json.dumps(r)) + "\n")
    out.append("\nKnown findings that are not repaired: " + (", ".join(json.dumps(f) for f in kf["findings"]) or "none") + ".\n\n")
    out.append(FALSE)
    out += ["* " + q + "\n" for q in QUIRKS.splitlines()]
    res = ROOT / "tools" / "seed_results.json"
    out.append("\n## Planted bugs\n\nWritten from the statements and the code, without looking at the checks; each builds, passes the existing tests, and has a demonstration. "
               "*Caught* is the result of the quick check of its property.  Those marked *strengthened* were missed first and led to more cases.\n\n| id | property | needs | caught |\n|---|---|---|---|\n")
    res = json.loads(res.read_text()) if res.exists() else {}
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        r = res.get(d.name, "not run")
        if r == "caught" and d.name in STRONGER:
            r = "caught (strengthened)"
        out.append(f"| {d.name} | {m['property']} | {m['needs']} | {r} |\n")
    out.append(MUTATION)
    (ROOT / "DESIGN.md").write_text("".join(out))


STRONGER = {"C03-display", "C07-definition-escape", "C08-copy", "C22-items", "C22-join", "C09-positional", "C12-anchor", "C15-order", "C21-custom-parts", "C25-defaults",
            "C26-inline", "C27-mailto", "C29-context", "C01-latin-header", "C19-call-colon", "C25-default-templates", "C29-visitor-init",
            "C15-ten", "C22-transform", "C17-shared-default", "C07-double-plus", "C07-env-copy", "C19-call-prefix", "C25-hash", "C29-log-help", "C30-control-case",
            "C02-wide-list", "C12-flat-block", "C12-macro-id", "C15-third-list", "C17-open-block", "C18-isolate-case", "C19-included-args", "C20-toc-shared", "C21-any-tag",
            "C23-named-attempt", "C24-file-namespace", "C29-debug-once"}
MUTATION = ("\n## Mutation campaign\n\nSmall mutations of the source (a comparison turned round, a call dropped, a constant changed, an argument left out) that the existing tests do not notice: "
            "793.  A random 225 of them were judged one by one.  Every one that changes what a user can observe is caught by a check, after the cases that the first rounds asked for were added; the rest "
            "are equivalent or cosmetic (text of log lines, defaults that every caller overrides, keyword arguments overwritten later, branches that cannot be reached).\n")

if __name__ == "__main__":
    main()
