"""Writes properties.jsonl (kept as a generator so that the file stays consistent)."""
import json, pathlib
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
L='mau/lexers/'; PR='mau/parsers/'; DP=PR+'document_processors/'; V='mau/visitors/'; MG=PR+'managers/'; N='mau/nodes/'
p('C01','Any input text yields a document or a Mau error',
  'Whatever text is given, lexing, parsing and visiting it terminates and either produces a document or raises the library\'s own error type carrying a message. No other exception ever escapes and no input makes the processing loop.',
  ['inputs'],'every source text, every combination of block elements, arguments and conditions, including malformed and empty pieces',
  'Tests feed a few dozen well-formed snippets and a handful of malformed ones; a crash needs one specific malformed or empty piece in one specific position.',
  [L+'base_lexer.py',L+'document_lexer.py',PR+'base_parser.py',PR+'document_parser.py',DP+'list.py',DP+'header.py',DP+'paragraph.py',DP+'control.py',DP+'include.py'],
  [('loop detection','BaseLexer._process, BaseParser.parse'),('error creation','create_lexer_exception, create_parser_exception')],['Mau.process','DocumentParser.lex_and_parse'])
p('C02','Document lexing is lossless and token positions are exact',
  'Reading the tokens of a source in order gives back the text of every line that is not a comment, dropping nothing but spaces next to markers or at the end of a line; tokens never overlap. The position recorded in each token is exactly where its text is in the source, and the text between block delimiters is carried unchanged.',
  ['inputs'],'every source text',
  'Tests compare token lists of chosen snippets; losslessness is a statement on all lines and every way the line kinds can be confused with each other.',
  [L+'base_lexer.py',L+'document_lexer.py','mau/text_buffer.py','mau/token.py'],
  [('line recognisers','DocumentLexer._process_*'),('cursor','TextBuffer.position/skip/nextline')],['DocumentLexer.process'],
  [('text_buffer.line/column','cursor in the source','mau/text_buffer.py')])
p('C03','Source positions follow the text wherever it is placed',
  'The position of a token, node or error is the place of its text in its source: parsing the same text starting at another line and column moves every line number by the line offset, and the columns of the first line only by the column offset. Merging two spans gives the smallest span that covers both and nothing is altered by computing, copying, merging or displaying a position; positions are displayed counting lines from 1.',
  ['inputs','configurations'],'every pair of offsets (unbounded integers), every span and every source of the bounded shapes',
  'Tests use a few fixed offsets, nearly always (0, 0); the property ranges over all integers.',
  ['mau/text_buffer.py','mau/token.py',L+'base_lexer.py',DP+'paragraph.py',DP+'header.py',DP+'block.py'],
  [('Context arithmetic','Context.merge_contexts, move_to, clone, adjust_context'),('offset handling','TextBuffer.position, nextline')],['Token.context','Node.info.context','MauException.message'])
p('C04','Plain text reaches the output verbatim, in paragraphs',
  'Text without markup characters reaches the document unchanged and in order (apart from spaces at the end of a line): each run of consecutive text lines is one paragraph with one line node per source line, and a blank line (or a line of spaces) separates paragraphs whatever the number of blank lines.',
  ['inputs'],'every text line and every arrangement of text and blank lines within the bounds',
  'Tests sample a few sentences; any character class, spacing pattern or line arrangement may be the one that is lost or merged.',
  [L+'text_lexer.py',PR+'text_parser.py',DP+'paragraph.py',PR+'preprocess_variables_parser.py'],
  [('text grouping','TextParser._parse_sentence'),('paragraph collection','paragraph_processor')],['DocumentParser.nodes'])
p('C05','Inline markup follows one fixed grammar',
  'Inside a line, `text` is verbatim, $text$ and %text% are literal, and a style marker (_ * ^ ~) opens a style only when the same marker closes it later in the line outside a nested construct; styles nest, and a marker that is never closed is ordinary text. Nothing of the line other than the recognised markers is lost, duplicated or reordered.',
  ['inputs'],'every line of text up to the bound, every interleaving of markers, and nested templates',
  'Backtracking makes results depend on markers far away; tests cover a fixed set of about a hundred strings.',
  [L+'text_lexer.py',PR+'text_parser.py',MG+'tokens_manager.py'],
  [('backtracking alternatives','TextParser._parse_text, _parse_style, _parse_verbatim, _parse_escaped'),('savepoints','TokensManager.__enter__/__exit__')],['TextParser.nodes'])
p('C06','Escaped text is always literal',
  'A backslash in front of a markup character makes that character ordinary text, so any text can be written literally by escaping its markup characters; the text between a pair of % or $ or backticks is taken literally whatever markup it contains.',
  ['inputs'],'every text up to the bound, every placement of the escaped text in surrounding markup',
  'Tests try each escape in isolation; the statement is on all texts and all neighbours.',
  [PR+'text_parser.py',PR+'preprocess_variables_parser.py',MG+'tokens_manager.py'],
  [('escape handling','TextParser._parse_backslash_escaped, _parse_escaped; PreprocessVariablesParser._process_escaped_char')],['DocumentParser.nodes','TextParser.nodes'])
p('C07','Variables are replaced by their current value, everywhere, exactly once',
  '{name} is replaced with the value the variable has at that point of the document and the replacement is not scanned again for variables; text in backticks, \\{ \\} and {{name}} are never replaced; an undefined variable is an error. A definition :name:value stores the value with its own variables already replaced (:+name: and :-name: store true and false), later definitions win, and a definition without value is an error.',
  ['inputs','histories'],'every text around and inside the braces, every value, every order of definitions and uses within the bounds',
  'Tests use one or two variables with alphabetic values; values containing braces, quotes, backslashes or redefinition orders are not covered.',
  [PR+'preprocess_variables_parser.py',L+'preprocess_variables_lexer.py',DP+'variable_definition.py',PR+'document_parser.py'],
  [('substitution','PreprocessVariablesParser'),('definition','variable_definition_processor')],['PreprocessVariablesParser.get_processed_text','DocumentParser.environment'])
p('C08','The environment is a faithful dotted-key store',
  'Whatever sequence of settings and merges is applied, reading a key gives the last value written to it (with merges that do not overwrite giving way to values already there), reading a prefix gives exactly the keys under it, and the nested and flat views hold the same data. Nested input under a namespace is found under the dotted name, copies do not share later changes, and an absent key gives the default (or a KeyError with square brackets).',
  ['inputs','histories'],'every sequence of up to the stated number of operations with symbolic keys and values',
  'Tests run single operations on fixed keys; aliasing, prefix collisions (a vs ab vs a.b) and overwrite order only show in histories.',
  ['mau/environment/environment.py','mau/environment/helpers.py'],
  [('flattening','flatten_nested_dict, nest_flattened_dict'),('merge order','Environment.update/dupdate')],['Environment.get','Environment.asdict','Environment.asflatdict'])
p('C09','Argument lists are parsed by one unambiguous grammar',
  'An argument list is split at commas outside quotes into unnamed values and name=value pairs, quoted values keep commas, spaces and equal signs, and escaped quotes are kept as quotes. #tag, *subtype and @alias prefixes are moved to tags, subtype and alias expansion without disturbing the order of the others; an unnamed value after a named one, two subtypes or two aliases, or an unknown alias are errors; positional names are given in order to unnamed values and never override explicit names, and an alias never overrides explicit arguments.',
  ['inputs'],'every argument text up to the bound, and every list of up to the stated number of arguments with symbolic content and kind',
  'Tests cover about fifty fixed lists; quoting, escaping and prefixes interact in every order.',
  [PR+'arguments_parser.py',L+'arguments_lexer.py',N+'node_arguments.py'],
  [('argument grammar','ArgumentsParser._process_named_argument/_process_unnamed_argument'),('prefix isolation','_isolate_tags_and_subtype'),('positional names','set_names')],['ArgumentsParser.arguments'])
p('C10','Labels, arguments and conditions attach to exactly the next block node',
  'Labels, an argument line and a condition written before a block node, in any order and with any blank lines or comments between them, all attach to that node, whatever its type, and to no other. The node receives exactly those labels and arguments (the last one of each role or kind winning) and the following node starts clean, also when the node is excluded by its condition.',
  ['inputs','programs'],'every order and multiplicity of attachments, every kind of node receiving them, every kind of node following',
  'Tests cover one attachment at a time for each node type; leaks appear only when a second node follows and in particular orders.',
  [DP+'label.py',DP+'arguments.py',DP+'control.py',DP+'block.py',DP+'header.py',DP+'list.py',DP+'paragraph.py',DP+'include.py',DP+'horizontal_rule.py',PR+'buffers/label_buffer.py',PR+'buffers/arguments_buffer.py',PR+'buffers/control_buffer.py'],
  [('buffers','ArgumentsBuffer, LabelBuffer, ControlBuffer push/pop'),('pop at node creation','every *_processor')],['DocumentParser.nodes'],
  [('arguments_buffer/label_buffer/control_buffer','pending attachments','mau/parsers/document_parser.py')])
p('C11','A condition includes or excludes its node exactly',
  'With a true condition the document is the same as without the condition line; with a false one the node is absent from the document, the table of contents and the registered headers, and the rest of the document is the same as if the node had not been written. == is true exactly when the current value of the variable equals the text and != exactly otherwise; an undefined variable is an error.',
  ['inputs','programs'],'every value and comparison text up to the bound, both operators, every kind of controlled node and of following node',
  'Tests check true and false on a few node kinds with fixed values.',
  [DP+'control.py',PR+'buffers/control_buffer.py',PR+'condition_parser.py',L+'condition_lexer.py'],
  [('evaluation','Control.process'),('exclusion','every *_processor after popping')],['DocumentParser.nodes','DocumentParser.output.toc'])
p('C12','The table of contents mirrors the headers',
  'Every header of the document (those of isolated blocks and included files have a table of their own) is listed exactly once, in document order, in the flat table of contents; in the nested one each header sits under the closest previous header of lower level (at top level if there is none) and no header is lost or duplicated. A header node carries its level (the number of = signs), its text, and the identifier given by internal_id or computed for it, and all listings refer to that same identifier.',
  ['inputs','programs'],'every sequence of header levels up to the bound (levels are unbounded symbolic integers), with and without forced identifiers, any placement of toc includes',
  'Tests fix a few level sequences; nesting errors depend on the order of rises, falls and skips.',
  [MG+'toc_manager.py',DP+'header.py',N+'include.py',DP+'include.py'],
  [('nesting','add_nodes_under_level'),('registration','TocManager.add_header/process')],['DocumentParser.output.toc','TocNode'])
p('C13','Lists keep items, nesting, kind and numbering',
  'Every list item appears exactly once, in order, with its text and its level (the number of markers); an item deeper than the current level opens a sublist placed after the item it follows, a shallower one returns to the level it names, and a list is ordered exactly when its first marker is #. A list starts at 1, or at the integer given by start; start=auto continues counting from the top-level items of the previous list.',
  ['inputs','programs'],'every sequence of item levels and kinds up to the bound, every start value',
  'Tests fix a few shapes; returning from nested levels and skipping levels multiply.',
  [DP+'list.py',N+'list.py'],
  [('recursive descent','_process_list_nodes'),('numbering','list_processor')],['ListNode'])
p('C14','Raw and source blocks carry their lines verbatim',
  'A raw or source block contains exactly the lines between its delimiters, unparsed, in order and (for source) numbered from 1, and the position of every line is its position in the source. In a source block only a final non-empty :label: of a line (or with the configured delimiter) is removed from the line and becomes its marker, or its highlight style if it starts with the highlight prefix, mapped through the configured style names.',
  ['inputs'],'every block line up to the bound, every number of lines up to the bound, every configured delimiter and prefix character',
  'Tests use a few code lines; lines that end with the delimiter, contain it elsewhere, or are empty are the interesting ones.',
  [DP+'block_engines/source.py',DP+'block_engines/raw.py',N+'source.py',N+'raw.py'],
  [('marker split','parse_source_engine'),('line nodes','parse_raw_engine')],['SourceNode','RawNode'])
p('C15','Footnote references, numbers and lists agree',
  'Footnote bodies are numbered from 1 in order of definition; every reference, wherever it is in the text, is linked to the footnote of that name, whichever comes first, and every footnotes list contains all the footnotes in numbering order. A reference without a body and two bodies with the same name are errors, and a footnote body is not rendered in place.',
  ['inputs','programs'],'every interleaving of references, bodies and lists up to the bound, with symbolic names',
  'Tests define one or two footnotes with fixed names in one order.',
  [MG+'footnotes_manager.py',DP+'block.py',DP+'include.py',PR+'text_parser.py'],
  [('numbering and linking','FootnotesManager.process'),('collection','DocumentParser._parse_text, block_processor')],['MacroFootnoteNode.footnote','FootnotesNode.footnotes'])
p('C16','Header links reach the header of that name',
  'Every header link, before or after its target and wherever it is in the text, is bound to the one header that was given that name, and shows that header\'s own text unless it is given one. A link to a name that no header has, and two headers with the same name, are errors.',
  ['inputs','programs'],'every interleaving of named headers and links up to the bound, with symbolic names',
  'Tests link one header; duplicates, prefixes and order are not explored.',
  [MG+'header_links_manager.py',DP+'header.py',PR+'text_parser.py'],
  [('binding','HeaderLinksManager.process')],['MacroHeaderNode.header'])
p('C17','Block groups collect exactly their blocks',
  'A block with group and position is taken out of the flow, and every include of that group in the same document (or in the same block), before or after it, contains for each position exactly that block; blocks of other groups never mix in. Two blocks for one position of a group, and a group without blocks, are errors.',
  ['inputs','programs'],'every interleaving of grouped blocks and group includes up to the bound, with symbolic group and position names',
  'Tests use one group with fixed names.',
  [MG+'blockgroup_manager.py',DP+'block.py',DP+'include.py'],
  [('collection','BlockGroupManager.add_block/process')],['BlockGroupNode.items'])
p('C18','Block content is parsed as a document of its own',
  'The content of a block is the sequence of nodes obtained by parsing the text between the delimiters as a document, at any nesting depth and whatever the delimiter character. Headers and footnotes inside a block do not appear in the enclosing table of contents and footnotes list unless isolate=false, in which case they appear exactly in document order as if written outside.',
  ['inputs','programs'],'every delimiter character, every content of the bounded shapes, every nesting up to the bound',
  'Tests check a few contents with two delimiters.',
  [DP+'block.py',DP+'block_engines/default.py',L+'document_lexer.py'],
  [('sub-parser','parse_block_content'),('merging','TocManager.update, FootnotesManager.update')],['BlockNode.content','DocumentParser.output.toc'])
p('C19','Included files are parsed in place, with their own scope, without loops',
  'Including a Mau file gives the nodes of parsing that file, with positions naming that file, and variables defined or passed (call:) in it never change those of the includer; the included file sees the includer\'s variables unless pass_environment=false, and the passed ones always, which win. Files that include each other are reported as an error however the includes are nested; raw includes give the lines of the file verbatim, and the list of include calls records every inclusion in order.',
  ['inputs','programs'],'every include graph over the bounded number of files, symbolic variable values and file contents',
  'Tests mock one or two files in a chain.',
  [DP+'include.py',PR+'document_parser.py',DP+'block_engines/default.py'],
  [('scope','_parse_mau environment copy'),('loop detection','forbidden_includes')],['IncludeMauNode','DocumentParserOutput.include_calls'])
p('C20','The document is a proper tree and copies are independent',
  'Every block node is linked to the node that contains it (items and sublists of a list to the whole list, entries of a table of contents to that table), labels are linked to the node they label, and no node occurs in two places of the tree. A deep copy has the same type, values, arguments and structure as the original at every depth, its nodes are linked to the copy, and changing the copy\'s content never changes the original.',
  ['inputs','programs'],'every document of the bounded shapes; every node type with symbolic fields',
  'Tests check parents and copies of single nodes.',
  [N+'node.py',N+'block.py',N+'list.py',N+'header.py',N+'footnote.py',N+'source.py',N+'macro.py',PR+'base_parser.py',PR+'document_parser.py'],
  [('parent links','BaseParser._save, set_parent, pop_labels'),('copies','Node.deepcopy and overrides')],['Node.parent','Node.deepcopy'])
p('C21','The most specific matching template renders a node',
  'A template is used for a node exactly when its type, subtype, prefix, tags, custom fields and parent conditions, as spelled in its name, all agree with the node; among the matching ones the earliest configured prefix wins, then the most specific in the documented order, and if none matches an error is raised. The choice does not depend on the order in which differently specific templates are given, and a template of a later source (defaults, providers, files, custom) replaces one of the same name, and nothing depends on the order in which the system lists the files.',
  ['inputs','configurations'],'every set of up to the stated number of templates with symbolic conditions, every node with symbolic attributes',
  'Tests fix templates and nodes; selection is a statement on all combinations.',
  [V+'jinja_visitor.py'],
  [('name decoding','Template.from_name'),('matching','Template.match, specificity, _find_matching_template')],['JinjaVisitor.visit'])
p('C22','Visitors render every part of every node once and in order',
  'Visiting a node gives its type, arguments, tags, subtype and all of its documented fields unchanged, and the visited form of each child, label, item and entry exactly once, in order and under its own name. The template visitor renders children before parents, passes them to the parent template, and joins siblings with the separator configured for the parent.',
  ['inputs','programs'],'every node type with symbolic fields and up to the stated number of children',
  'Tests visit one fixed instance per node type.',
  [V+'base_visitor.py',V+'jinja_visitor.py'],
  [('per-type visit functions','BaseVisitor._visit_*'),('joining','JinjaVisitor.visitlist')],['BaseVisitor.visit','JinjaVisitor.visit'])
p('C23','A failed parsing attempt leaves the token stream untouched',
  'After a failed attempt the parser continues from exactly the token where the attempt started, however attempts are nested; a successful one consumes exactly the tokens it read, and reading past the end keeps returning the end token. Collecting up to a stop token returns all tokens before it, in order, keeping an escaped stop token as text, and never consumes the stop token.',
  ['histories','inputs'],'every sequence of up to the stated number of peek/get/collect operations and nested attempts on every stream up to the bound',
  'Tests check single operations; restoration is a property of nested histories.',
  [MG+'tokens_manager.py',PR+'base_parser.py'],
  [('savepoints','TokensManager.__enter__/__exit__'),('collection','TokensManager.collect/collect_join')],['TokensManager'])
p('C24','Command-line settings reach the environment and the right file is written',
  'Each key=value setting is stored under its namespace with exactly the text after the first equal sign, a malformed one is reported as a configuration error, and files are stored under their key or their file name. The output goes to the file asked for, and without one to the input name, without a final .mau, followed by the visitor\'s extension, never onto the input file. Options that ask for more messages do not change it, and a failing document, --version, --help and --lexer-only write nothing.',
  ['inputs','configurations'],'every key, value, namespace and file name up to the bound',
  'Tests use simple alphabetic values; equal signs in values and unusual file names are not covered.',
  ['mau/__init__.py','mau/cli.py'],
  [('splitting','load_environment_variables, load_environment_files'),('output naming','cli.main, write_output')],['Environment','output file'])
p('C25','Processing is deterministic and leaves no trace behind',
  'Processing the same text twice in a row, with equal environments, gives equal documents, tables of contents and errors, whatever was processed in between; the result never depends on the iteration order of unordered collections. Visiting a document does not change it.',
  ['inputs','histories'],'every document of the bounded shapes, every iteration order of sets, every interleaving of two documents',
  'Tests run each document once in a fresh parser; shared mutable defaults and module state only show on the second run.',
  [PR+'document_parser.py',PR+'arguments_parser.py','mau/token.py',PR+'text_parser.py',V+'base_visitor.py'],
  [('fresh state per parser','DocumentParser.__init__'),('alias expansion','ArgumentsParser._isolate_tags_and_subtype')],['DocumentParser.output','BaseVisitor.process'])
p('C26','Comments contribute nothing',
  'A comment line, or a closed multi-line comment with whatever lines inside, contributes nothing to the document: between blocks the result is the same as without it apart from line numbers. Markup inside a comment is never interpreted, text inside block delimiters is never a comment of the enclosing document, and an unclosed multi-line comment is an error.',
  ['inputs'],'every comment text up to the bound, every place in documents of the bounded shapes',
  'Tests use fixed comments at the start of a document.',
  [L+'document_lexer.py'],
  [('comment recognisers','DocumentLexer._process_comment, _process_multiline_comment')],['DocumentParser.nodes'])
p('C27','Macros build the node they name from their arguments',
  '[name](arguments) becomes the node of that macro (link, mailto, image, class, header, footnote, unicode, raw, or a generic one) with exactly the given argument values, taken by position or by name; rich text arguments are parsed as text and a missing text falls back to the target. A missing mandatory argument is an error, and what is not a complete macro stays ordinary text.',
  ['inputs','programs'],'every argument value up to the bound, quoted or not, positional or named, with text before and after',
  'Tests use fixed alphabetic arguments.',
  [PR+'text_parser.py',N+'macro.py',PR+'arguments_parser.py'],
  [('dispatch','TextParser._parse_macro'),('argument collection','_collect_macro_args')],['TextParser.nodes'])
p('C28','Inline conditions render exactly one of their cases',
  '[if:variable==value](a, b) renders exactly a when the comparison holds and exactly b (nothing if missing) when it does not, != the opposite, and ifeval renders the value of the variable named by the selected case, without looking at the other one. Undefined variables, malformed conditions and a missing case are errors, and the cases are parsed as text.',
  ['inputs'],'every value, comparison text and case text up to the bound, both operators and both macros',
  'Tests use fixed values.',
  [PR+'text_parser.py',PR+'buffers/control_buffer.py',L+'condition_lexer.py'],
  [('evaluation','TextParser._parse_macro_control, Control.process')],['TextParser.nodes'])
p('C29','Errors are reported once, with their place, and stop the processing',
  'When lexing, parsing or visiting fails, the message handler receives exactly one message, of the kind of that stage, and the same error reaches the caller; without a failure it receives no error. The message of a lexing or parsing error names the source file and the line where the offending element is, and the log handler writes its text, place and help.',
  ['inputs'],'every document of the bounded shapes with one faulty element at every position, every stage',
  'Tests check the message of single faulty snippets on fixed lines.',
  ['mau/__init__.py','mau/message.py',L+'base_lexer.py',PR+'base_parser.py',V+'base_visitor.py'],
  [('reporting','Mau.run_lexer/run_parser/run_visitor, BaseMessageHandler.process')],['BaseMessageHandler','MauException'])
p('C30','Every line is the element its form says, and nothing else',
  'What a line is (blank, comment, rule, delimiter, condition, include, definition, arguments, label, list item, header or text) depends only on the characters of that line, by one fixed grammar, not on the lines around it; a line that has none of the forms is text. Each line gives exactly the element of its kind with its parts, and inside a block it is carried as text until the block is parsed.',
  ['inputs'],'every line up to the bound, at every place of a document and between any two kinds of lines',
  'Tests use well formed lines; what is almost an element, or becomes one by a single character, is not enumerated.',
  [L+'document_lexer.py',L+'base_lexer.py',PR+'document_parser.py'],
  [('line forms','DocumentLexer._process_functions and the patterns of each')],['DocumentLexer.tokens','DocumentParser.nodes'])
out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x, ensure_ascii=False)+'\n' for x in P))
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2, x['id']
print(len(P))
