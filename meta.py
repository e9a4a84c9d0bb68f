"""What the properties say: mkmeta.py writes properties.jsonl and MANIFEST.json."""

S = "typst/syntax/"

# id: title, statement, over, quantifier, why tests cannot, files, mechanism, technique, level note
P = {}

def p(ident, title, statement, over, quant, why, files, mech, technique, note):
    P[ident] = dict(title=title, statement=statement, over=over, quant=quant, why=why,
                    files=files, mech=mech, technique=technique, note=note)

TXT = "all valid UTF-8 texts"

p("C01", "Parsing any text terminates and loses nothing",
  "Parsing accepts every valid UTF-8 text without a panic, well-formed or not. The texts of the leaves of the tree, errors included, joined in order, are exactly the source; printing a tree writes the source again.",
  ["inputs"], TXT + ", including malformed, deeply nested, and unusual Unicode ones",
  "The parse tests run the parser on a few sample files and print the tree; the rest of the input space, above all malformed text, is never seen.",
  [S+"parser.go", S+"lexer.go", S+"node.go", "internal/scanner/scanner.go"],
  [("the lexer returns every byte as a token, and the parser puts every token in the tree", S+"lexer.go Lexer.next; "+S+"parser.go Parser.eat"),
   ("errors keep the text they cover", S+"node.go into_text, convert_to_error")],
  "property-based testing: random, grammar-based and mutated texts; round-trip oracle (leaves and printer against the source)",
  "Searches generated texts up to a few kB; a failure is an exact counterexample, passing is no proof. Nesting is kept to what upstream's depth limit allows; C15 goes deeper.")

p("C02", "Lengths, descendant counts and error flags of nodes add up",
  "In every tree, after parsing and after any history of edits, each inner node's length is the sum of its children's, its descendant count is one more than the sum of its children's, and it is erroneous exactly if a child is.",
  ["inputs", "histories"], TXT + "; all sequences of edits and replacements of a source",
  "Tests look at trees printed by kind and text; the counters are not printed, and go wrong only after conversions to errors or after incremental edits.",
  [S+"node.go", S+"reparser.go"],
  [("inner nodes compute the counters from their children", S+"node.go newInnerNode"),
   ("replacing children and changing kinds updates the counters upward", S+"node.go replace_children, update_parent, convert_to_error")],
  "property-based testing: recomputed counters as the oracle on generated texts and edit histories",
  "Each inner node of each generated tree is recomputed. Histories of up to 6 edits.")

p("C03", "Editing a source gives the tree that parsing the new text gives",
  "After any history of edits and replacements, the tree of a source equals the tree of a fresh parse of its text: same kinds, texts, errors and hints, in the same structure.",
  ["histories", "inputs"], "all starting texts, and all sequences of edits with ranges on character boundaries and any inserted text",
  "The incremental reparse tests are a table of single edits; the equivalence is over all histories, where a reused piece of an old tree may depend on text far away.",
  [S+"reparser.go", S+"source.go", S+"parser.go"],
  [("reparse only where the old and the new text agree on what is around it", S+"reparser.go try_reparse, reparse_block, reparse_markup"),
   ("fall back to a whole parse", S+"reparser.go reparse")],
  "stateful property-based testing: edit histories, differential oracle (fresh parse)",
  "150000 histories of up to 8 edits in quick; grammar-based and soup texts, edits near each other, delimiters overweighted. Non-trivial cases are those where a changing edit was in fact reparsed incrementally.")

p("C04", "An edit keeps text, lines and tree in step and returns what changed",
  "After an edit or a replacement, a source holds the spliced text, line and column queries answer for that text, and the tree covers it. The range which the edit returns is valid in the new text, and everything outside of it has the same leaves as before the edit.",
  ["histories", "inputs"], "all sequences of edits and replacements of a source",
  "The tests check the returned range of a few edits, and not what was outside of it.",
  [S+"source.go", S+"lines.go", S+"reparser.go"],
  [("one edit goes to text, lines and tree", S+"source.go Source.Edit, Source.Replace"),
   ("a replacement is an edit between the common prefix and suffix", S+"lines.go ReplacementRange")],
  "stateful property-based testing: edit histories against a text model; leaves outside of the returned range compared before and after",
  "30000 histories of up to 8 edits in quick.")

p("C05", "Spans of a source are unique, ordered, and lead back to their nodes",
  "In a source, fresh or edited in any way, every node has a span of that source's file; spans are distinct and ascend in tree order, parents before their children. Looking up a span finds its node, the byte range it gives is where the node's text is, and spans which no node has find nothing.",
  ["histories", "inputs"], "all texts and all sequences of edits and replacements, including those which use up the numbers between neighbours",
  "Numbering tests build three small trees; renumbering after edits has many cases which depend on how full the number space is.",
  [S+"node.go", S+"span.go", S+"source.go"],
  [("numbers are spread over an interval and made anew if they do not fit", S+"node.go numberize, replace_children"),
   ("search by interval of numbers", S+"node.go LinkedNode.find; "+S+"source.go Source.Find, Source.Range")],
  "stateful property-based testing: edit histories; invariant over all nodes, and lookups against the tree",
  "Histories up to 8 edits, and long runs of edits at the same place to force renumbering; all nodes are checked.")

p("C06", "Byte, UTF-16, line and column positions convert as a naive count does",
  "For every text, the number of lines, the byte range of each line, and all conversions between byte index, UTF-16 index, line and column are those of a direct count over the text with all of Typst's line breaks. Positions out of bounds are rejected and never crash; so are bytes inside of a character, which have a line but no column and no UTF-16 index. A UTF-16 index between the two units of a character is rejected or taken for the end of it.",
  ["inputs"], "all texts and all positions, valid or not, up to the largest integers",
  "The tests check one text at a few offsets.",
  [S+"lines.go"],
  [("line table with byte and UTF-16 offsets, binary search", S+"lines.go Lines")],
  "property-based testing: naive model of lines over all positions of generated texts",
  "All in-range byte, UTF-16, line and column positions of each generated text, plus far ones.")

p("C07", "Edited line tables equal fresh ones",
  "After any history of edits and replacements, a line table answers as one made from the resulting text, also where an edit splits or joins a CRLF or changes the last line.",
  ["histories"], "all starting texts and all sequences of edits",
  "The tests do four edits on one text.",
  [S+"lines.go"],
  [("lines from the edited one on are dropped and scanned again", S+"lines.go Lines.Edit")],
  "stateful property-based testing: edit histories, differential oracle (fresh table and naive model)",
  "60000 histories in quick, line breaks overweighted.")

p("C08", "Operators group by precedence and associativity",
  "A code expression of unary and binary operators groups as the precedence and associativity of Typst's operators say: multiplicative over additive over `not` and comparisons with `in` and `not in` over `and` over `or` over the right-associative assignments.",
  ["inputs"], "all chains of operands, unary and binary operators and parentheses",
  "Tests see a few expressions; the pairs of operators, with unary ones between them, are many.",
  [S+"parser.go", S+"ast_node.go"],
  [("precedence climbing", S+"parser.go code_expr_prec"), ("tables of precedence and associativity", S+"ast_node.go BinOp, UnOp")],
  "property-based testing: generated operator chains against an independent precedence parser",
  "100000 chains of up to about ten operands in quick.")

p("C09", "Well-formed code parses to the tree its grammar prescribes",
  "Every well-formed code text (literals, calls, arrays, dictionaries, patterns, closures, let, set, show, if, while, for, import, include, blocks, with any whitespace and comments allowed there) parses without errors to the prescribed nesting of nodes, and every token to its prescribed kind.",
  ["programs", "inputs"], "all programs which a generator of Typst's code grammar makes",
  "The tests print the trees of a few documents, without comparing most of them.",
  [S+"parser.go", S+"lexer.go", S+"kind.go"],
  [("recursive descent", S+"parser.go code_expr and what it calls"), ("tokens", S+"lexer.go Lexer.code")],
  "property-based testing: the generator makes tree and text together; the parse must give the tree back",
  "Independent grammar (h/vgen/code.go); covers all code constructs.")

p("C10", "Well-formed markup parses to the structure its rules prescribe",
  "Well-formed markup (paragraphs, strong, emphasis, headings, nested lists, enumerations and terms by indentation, labels, references, links, smart quotes, shorthands, escapes, raw text, embedded code and content blocks) parses without errors to the prescribed nesting, and every token to its prescribed kind.",
  ["programs", "inputs"], "all documents which a generator of Typst's markup rules makes",
  "The tests print the trees of a few documents; nesting by indentation and what may start or end a construct depend on all of the context.",
  [S+"parser.go", S+"lexer.go"],
  [("markup parsing and column tracking", S+"parser.go markup, markup_expr, list_item"), ("tokens", S+"lexer.go Lexer.markup")],
  "property-based testing: the generator makes tree and text together; the parse must give the tree back",
  "Independent rules (h/vgen/markup.go).")

p("C11", "Malformed text is flagged, and where the fault is",
  "A text with a fault (an unclosed or stray delimiter, a missing operand, a misplaced keyword, a duplicate key or parameter, a malformed literal, escape, link, label, statement or equation) gives a tree with at least one error, and its text is kept. A text without faults gives none.",
  ["inputs"], "all single faults put into well-formed programs and documents",
  "The tests have few malformed inputs.",
  [S+"parser.go", S+"lexer.go"],
  [("errors in the tree", S+"parser.go Parser.expected, unexpected, expect"), ("duplicate checks", S+"parser.go collection items, params, pattern")],
  "property-based testing: fault injection into generated well-formed text",
  "Faults from a list and from deleting or inserting delimiters; messages are not compared, except where the fault decides them.")

p("C12", "Spaces and comments between tokens do not change what code means",
  "Changing, adding or removing whitespace and comments between tokens, where the grammar allows it, leaves the tree unchanged apart from them: line breaks in parentheses, block comments between any two tokens of code, spaces inside of brackets.",
  ["programs", "inputs"], "all well-formed programs, with all changes of the trivia between tokens",
  "Metamorphic: no test compares two spellings.",
  [S+"parser.go", S+"lexer.go"],
  [("trivia skipping and newline modes", S+"parser.go AtNewline, Parser.lex, skip_trivia")],
  "property-based testing: metamorphic relation between a program and the same with other trivia",
  "Changes are made only where the layout carries no meaning.")

p("C13", "Literals mean what Typst says they mean",
  "Integers (in all bases), floats, numbers with units, strings, escapes, labels, references, booleans and links decode to the values Typst gives them: strings with all escapes decoded, units recognised, floats too large infinite.",
  ["inputs"], "all spellings of literals",
  "The tests decode a handful of literals.",
  [S+"ast_node.go", S+"lexer.go", "cmd/update-typ/main.go"],
  [("decoding of text to values", S+"ast_node.go Int.get, Float.get, Numeric.get, Str.get, Escape.get, Shorthand.get, Label, Ref")],
  "property-based testing: generated values and spellings, round-trip against the value they were made from",
  "Decimal integers beyond 64 bits decode to zero as in this port (upstream: an error) and are left out.")

p("C14", "Raw text decodes by Typst's rules for blocks, language and dedent",
  "For every raw text, inline or block, with any number of backticks, the language tag, whether it is a block, and the lines of its content are those which Typst's rules give: common indentation removed, first and last lines trimmed, backtick escaping spaces trimmed.",
  ["inputs"], "all raw texts",
  "The tests have few raw blocks.",
  [S+"lexer.go", S+"ast_node.go"],
  [("segmentation of raw text", S+"lexer.go raw, blocky_raw, inline_raw")],
  "property-based testing: naive model of raw text over generated raw texts",
  "100000 raw texts in quick.")

p("C15", "Work stays bounded: no blow-up on nesting or on long text",
  "Parsing, editing, span lookup and line tables take work about linear in the length of the text: four times the text takes no more than about four times the work. Nested parentheses, closures and destructuring, which the parser must try in several ways, do not take exponential work.",
  ["inputs", "histories"], "all repetitions of generated units of text, and all deep nestings",
  "Tests are short; a quadratic or exponential step shows only on long or deep input.",
  [S+"parser.go", S+"lexer.go", "internal/scanner/scanner.go", S+"node.go"],
  [("memoisation of arrows tried in parentheses", S+"parser.go Parser.memo, restore_memo_or_checkpoint"), ("constant-time look around the cursor", "internal/scanner/scanner.go")],
  "property-based testing: generated units repeated; allocation and CPU bounds as the oracle, and a watchdog for hangs",
  "Bounds are generous (16-fold work for 4-fold text is told from linear); CPU excess must repeat in a fresh process. CPU time of linear operations (parsing, line tables and all their positions, highlighting, errors, views) is measured on texts of 8 and 128 KB without garbage collection, best of several runs, with five-fold slack.")

p("C16", "The typed view of a tree gives the parts which the source has",
  "For well-formed text, the typed view finds for each node its parts: operator and operands, callee and arguments, parameters, patterns and their bindings, conditions, bodies, import source, items and new name, selectors and transforms, keys and values; in math bases, attachments, primes, fractions, roots, delimiters and the characters of shorthands; whatever trivia is between them. A node, or its first or last child that can be, is cast to a type exactly if it is of that type, in any tree. The placeholder of a type is an empty node of its kind.",
  ["programs", "inputs"], "all well-formed programs and documents",
  "Few of about a hundred accessors are used by any test, and none with comments between the parts.",
  [S+"ast.go", S+"ast_node.go"],
  [("typed casts", S+"ast.go, "+S+"node.go cast"), ("accessors", S+"ast_node.go")],
  "property-based testing: the generator makes the expected view together with the text",
  "A bridge file exports the view for the test; on erroneous trees accessors give placeholders and are not checked.")

p("C17", "Package specifications and versions survive printing and parsing",
  "Parsing accepts exactly the specifications `@namespace/name:major.minor.patch` and versions which Typst accepts, and gives their parts; printing gives the same text again, and malformed ones are rejected with an error.",
  ["inputs"], "all texts, and all specifications, with version parts up to the largest 32-bit number",
  "The tests parse two specifications.",
  [S+"package.go"],
  [("parsers", S+"package.go ParsePackageSpec, ParseVersionlessPackageSpec, ParsePackageVersion, ParseVersionBound")],
  "property-based testing: round trip, and a reference recogniser on near misses",
  "Names are those Typst calls identifiers.")

p("C18", "Version bounds and manifests decide as the specification of them says",
  "A version matches, or compares with, a bound of one to three parts as if compared part by part on the given parts. A manifest is valid for a specification exactly if name and version agree and the compiler is not older than the manifest demands.",
  ["inputs", "configurations"], "all versions, bounds and manifests",
  "The tests compare some versions.",
  [S+"package.go"],
  [("comparison by parts", S+"package.go PackageVersion.MatchesEq, MatchesGt, MatchesLt, MatchesGe, MatchesLe"), ("validation", S+"package.go PackageManifest.Validate")],
  "property-based testing: reference comparison of parts",
  "Versions near each other are overweighted.")

p("C19", "Manifests read from TOML hold what the file says",
  "A manifest read from TOML holds the name, version, entrypoint, authors, license, description, homepage, repository, keywords, categories, disciplines, compiler bound, exclusions and template of the file, in whichever TOML spelling and order, and nothing of other keys. Malformed TOML, malformed versions, and a file without a package are rejected.",
  ["inputs", "configurations"], "all manifests in all spellings of TOML strings, tables and arrays",
  "One manifest is read by a test.",
  [S+"package.go", "internal/toml/toml.go"],
  [("decoding", S+"package.go ParsePackageManifestFromToml")],
  "property-based testing: generated manifests printed in varied TOML, compared with what they were made from",
  "Missing fields are not rejected by this port, and are not checked.")

p("C20", "File IDs stand for their package and path, once, under concurrency",
  "Asking for the ID of a package and path gives the same ID every time, equal for equal values and different for different ones, and it gives package and path back; fake IDs are new every time. This holds when many threads ask at once, and running out of IDs is reported, not wrapped around.",
  ["schedules", "histories", "inputs"], "all interleavings of requests from several threads, all packages and paths",
  "Tests take one ID in one thread.",
  [S+"file.go"],
  [("a table under a lock", S+"file.go NewFileID, NewFakeFileID")],
  "stateful property-based testing with threads under the race detector, against a model of the table",
  "Schedules are those which the Go scheduler gives under stress; the exhaustion of IDs is forced in a process of its own.")

p("C21", "Virtual paths are normal, and never leave the root",
  "A virtual path is absolute and has no `.`, `..`, or double slashes, however it was made; joining a relative path goes from the directory of the base, and `..` never leads above the root. Changing the extension changes it alone.",
  ["inputs"], "all paths with slashes",
  "Tests join two paths.",
  [S+"path.go", S+"file.go"],
  [("cleaning", S+"path.go NewVirtualPath"), ("joining", S+"file.go FileID.Join, WithExtension")],
  "property-based testing: naive model of paths",
  "Backslashes, and extensions of names which start with a dot, are left out.")

p("C22", "Spans pack and unpack without loss",
  "A span made of a file and a number gives both back, and the detached span has none. A span made of a file and a byte range gives the range back, with ends above the largest one capped, and is told from numbered ones.",
  ["inputs"], "all file numbers, node numbers and byte ranges",
  "Two round trips are tested.",
  [S+"span.go"],
  [("bit packing", S+"span.go")],
  "property-based testing: round trip at and around all limits",
  "100000 spans in quick.")

p("C23", "Sets of kinds are sets, and kinds classify and name consistently",
  "Sets of syntax kinds behave as mathematical sets under adding, removing, union and membership, and operations leave their operands alone. Each kind has its name, and is trivia, keyword, error, grouping, terminator or statement exactly if Typst says so.",
  ["inputs", "histories"], "all kinds, and all sequences of set operations",
  "One small set is tested; the classification of kinds is not.",
  [S+"set.go", S+"kind.go"],
  [("bit set", S+"set.go SyntaxSet"), ("tables", S+"kind.go")],
  "stateful property-based testing: model sets; kinds against an independent table, and against where they occur in programs",
  "The table of names and classes is written from Typst's documentation in h/ext/kinds_test.go.")

p("C24", "Walking a tree visits every node once, in order, and prunes as told",
  "A walk visits the root, and all nodes below it, each once and parents before children in source order; where the visitor says no, what is below that node is left out and nothing else. It begins at a node, a representation, or a pointer to either; where the visitor puts another node in the place of the one it is shown the pointer to, the tree has that one, and the walk goes on in it.",
  ["inputs", "programs"], "all trees, and all decisions of the visitor",
  "No test walks a tree.",
  ["typst/cstwalk/cstwalk.go"],
  [("recursive walk", "typst/cstwalk/cstwalk.go Walk")],
  "property-based testing: reference traversal of generated trees, with generated decisions",
  "Decisions are by kind, by count and by text.")

p("C25", "Highlighting keeps the text and tags tokens as Typst does",
  "Highlighting a tree as HTML gives well-nested output whose text, unescaped, is the source. Each token is in a span of the class which Typst gives to its kind and context: functions called, definitions, keys, labels, headings, list markers, operators, names and attachments in math.",
  ["inputs", "programs"], "all texts, well-formed or not",
  "Tests highlight four snippets.",
  [S+"highlight.go"],
  [("tag of a node", S+"highlight.go highlight, highlight_ident, highlight_hash"), ("HTML", S+"highlight.go highlight_html")],
  "property-based testing: round trip of the text, well-nestedness, and an independent table of tags by kind and context",
  "Also checks that the work is about linear in the text.")

p("C26", "Navigation in a tree agrees with the tree",
  "From every node, parent, children, index, previous and next siblings, previous and next leaves, leftmost and rightmost leaf, offset, range, and the leaf before or after a cursor are those found by listing the tree. Children backwards are the children in reverse.",
  ["inputs", "histories"], "all trees, all nodes in them, all cursors",
  "Tests navigate in three small texts.",
  [S+"node.go"],
  [("linked nodes carry parent, index and offset", S+"node.go LinkedNode, LinkedChildren")],
  "property-based testing: each step from each node against a flat listing of the tree",
  "A bridge file exports the steps for the test.")

p("C27", "parse-typ prints the tree of each file, in order, or fails",
  "parse-typ prints, for each file given, in order, the tree of the file one node per line, indented by depth, with kinds, quoted texts and messages of errors, so that the texts, joined, are the file. A file which cannot be read, is a directory, or is not UTF-8, makes it fail and name the file, and no input is changed.",
  ["inputs", "configurations"], "all lists of files",
  "No test runs the command.",
  ["cmd/parse-typ/main.go", S+"node.go"],
  [("printing", S+"node.go PrintRoot"), ("files", "cmd/parse-typ/main.go")],
  "property-based testing of the built command: output against a printer over the tree, and round trip of the text",
  "Runs the binary as an unprivileged user in a scratch directory.")

p("C28", "update-typ rewrites exactly the outdated imports of a project",
  "update-typ writes every Typst file which the main file reaches by imports and includes, to the output directory or in place, with each import of a package of which a newer version is installed (numerically newest over all package directories) changed to it, and every other byte kept. Nothing else is written: neither unreachable files, nor the project unless in place, nor packages; strings, comments and raw text which look like imports are left alone. The run says whether files of the project were updated, and whether the packages used have outdated imports, and files of the project or of these packages which are missing, or are not UTF-8, make it fail.",
  ["inputs", "configurations", "programs"], "all projects of Typst files with import cycles, nested statements and relative or absolute paths, all package stores, all combinations of flags",
  "No test runs the command.",
  ["cmd/update-typ/main.go", "typst/cstwalk/cstwalk.go"],
  [("walk over imports", "cmd/update-typ/main.go rewrite, findOldVersions"), ("newest version", "cmd/update-typ/main.go latestSpec, findVersions")],
  "property-based testing of the built command: generated projects and package stores; byte-exact model of all files afterwards",
  "Package names are disjoint between namespaces. Runs as an unprivileged user with HOME in a scratch directory.")

p("C29", "offline-typ makes a self-contained copy of a project",
  "offline-typ writes every Typst file which the main file reaches, every package these use, transitively, under libs, and every file given directly as the first string to image, read, plugin, bibliography or a data loading function (cbor, csv, json, toml, xml, yaml), or as a style of the bibliography. Imports of packages become imports of the copies, under the package's name unless they are renamed; paths from the root in packages lead into the copy; every other byte is kept. All references lead to files of the output, project and packages are unchanged, and nothing that is not used is copied. Files which are missing, and Typst files which are not UTF-8, in the project or in packages, make it fail.",
  ["inputs", "configurations", "programs"], "all projects, packages with entrypoints in any directory, all package stores, all combinations of flags",
  "No test runs the command.",
  ["cmd/offline-typ/main.go", "typst/cstwalk/cstwalk.go"],
  [("rewriting", "cmd/offline-typ/main.go rewrite, insertPkgRename"), ("packages", "cmd/offline-typ/main.go rewriteLibs, copyPackage")],
  "property-based testing of the built command: generated projects and package stores; byte-exact model of the output, and closed-world check",
  "Paths computed at run time, arrays of bibliographies, and files both read as data and imported are left out. Runs as an unprivileged user with HOME in a scratch directory.")

p("C30", "Parsing and editing depend on nothing but their input, also in parallel",
  "Parsing, editing and highlighting give the same result whatever was parsed before, whatever runs in other threads, and however edits of different sources are interleaved. There are no data races between independent sources.",
  ["schedules", "histories"], "all sets of sessions on independent sources, in any order and interleaving",
  "Tests run one parse at a time.",
  [S+"parser.go", S+"set.go", S+"reparser.go", S+"file.go"],
  [("no shared mutable state but the table of files", S+"file.go")],
  "stateful property-based testing with threads under the race detector: parallel, repeated, reversed and interleaved runs compared",
  "Schedules are those which the Go scheduler gives under stress.")

p("C31", "The text scanner and the containers follow their documentation",
  "Every operation of the text scanner (looking, locating, eating by pattern, predicate or set, jumping, slicing) reads and moves as it would over a list of characters, from any position and with any number, and snaps byte positions into bounds and to character boundaries. Vectors, stacks, options and ranges behave as the lists and values they stand for. Characters are taken for whitespace, letters and numbers exactly if Unicode says that they are, in ASCII or beyond.",
  ["histories", "inputs"], "all texts and all sequences of operations with any arguments",
  "Tests scan no text of their own.",
  ["internal/scanner/scanner.go", "internal/vector/vector.go", "internal/stack/stack.go", "internal/option/option.go", "internal/ranges/ranges.go", "internal/stdx/stdx.go"],
  [("cursor on a character boundary", "internal/scanner/scanner.go Scanner")],
  "stateful (model-based) property-based testing: operation histories against a list of characters",
  "Invalid UTF-8 is left out, as texts are valid UTF-8.")

p("C32", "Well-formed math parses to the structure its rules prescribe",
  "Well-formed equations (identifiers, numbers, text, strings, escapes, shorthands, delimiters, attachments, primes, factorials, fractions, roots, function calls with named, spread and semicolon-separated arguments, alignment points, embedded code, with any whitespace and comments) parse without errors to the prescribed nesting, and every token to its prescribed kind. Fractions bind less than attachments and roots, parentheses around an operand group without being part of it, and delimiters which do not match are no faults.",
  ["programs", "inputs"], "all equations which a generator of Typst's math rules makes",
  "No test has an equation: what an operand takes with it depends on the precedence and on the spaces around it.",
  [S+"parser.go", S+"lexer.go", "internal/typutil/typutil.go", "internal/stdx/stdx.go"],
  [("math parsing", S+"parser.go math_expr_prec, math_delimited, math_args, math_unparen"), ("tokens", S+"lexer.go Lexer.math"), ("classes of characters", "internal/typutil/typutil.go DefaultMathClass")],
  "property-based testing: the generator makes tree and text together; the parse must give the tree back",
  "Independent rules (h/vgen/math.go). The table of math classes, a dependency which is not there, is replaced by one with the classes of common characters (h/mathclass).")
p("C33", "Text splits into the tokens that Typst's lexical rules prescribe",
  "Whatever the text, well-formed or not, and in markup, code and math each, the leaves of its tree are the tokens which Typst's lexical rules split it into, with the kinds they prescribe: the longest shorthand or operator, words and numbers with their suffixes, links with balanced brackets, labels and references without trailing punctuation, raw text, nested comments, emphasis marks that are not within words, text that goes on over what is no markup. What is no token is an error. A parser that meets an unexpected token may make it, or several, an error, but never splits one.",
  ["inputs", "programs"], "all texts made of the characters and words that lexical rules name",
  "A token depends on the characters on both sides of it, and rules meet each other in ways that no list of examples covers.",
  [S+"lexer.go", S+"parser.go", "internal/scanner/scanner.go"],
  [("tokens", S+"lexer.go Lexer.next, markup, math, code, text, numbering, number, link_prefix, in_word, space_or_end"), ("leaves", S+"parser.go Parser.eat, convert_and_eat, unexpected")],
  "property-based testing: differential against a reference tokenizer written for the purpose, over random texts",
  "Reference in h/ext/tokens_test.go. In math the kinds which the parser chooses by precedence are left to C32. A case is compared up to where the mode changes: a hash or dollar sign, a bracket in code, a call in math.")

p("C34", "Each fault is reported once, at its place, with Typst's message and hints",
  "A fault in a text is reported as Typst reports it, wherever in a document it is and whatever is around it: what is missing right behind what it should follow, before any space or comment; what is wrong, as the whole of what is wrong; an open delimiter at that delimiter; the second of two duplicates by its name. Messages name what was expected and what was found, and hints say how to get it right. There is no other error: what is before, behind and around the fault is read as if there were none. The errors of a tree, listed, are all these, in order.",
  ["inputs", "programs"], "all texts with one or more known faults, in any well-formed surroundings, with any trivia between tokens",
  "Tests hold the trees of a few files without errors. A wrong message, place or hint, or an error too many, depends on what surrounds a fault.",
  [S+"parser.go", S+"lexer.go", S+"node.go"],
  [("errors of the parser", S+"parser.go Parser.expected, expected_at, unexpected, hint, expect, after_error, trim_errors"), ("errors of tokens", S+"lexer.go Lexer.error, hint, number, code"), ("kinds in messages", S+"kind.go Name, "+S+"node.go SyntaxNode.expected, unexpected")],
  "property-based testing: templates of faults with the errors which Typst gives them, expanded at random into random well-formed surroundings; exact comparison of all errors of the tree",
  "Templates in h/ext/c34_test.go. Faults after which Typst's recovery depends on what follows (unclosed delimiters of code, unclosed strings and raw text) are left to C11.")
p("C35", "Edits are local: what is around them keeps its nodes and spans",
  "After an edit, all nodes outside of the range which it returns, and all which enclose it, are those of before, with the spans they had. A source does not reparse more than it must: where a word within a block of code or content is edited, nothing outside of the block is reparsed; where it is in markup, nothing but what is near. Nodes next to it which did not change keep their spans, even if they were reparsed.",
  ["inputs", "histories"], "all texts and edits; words in well-formed documents of any length",
  "Tests check for a few edits whether they were incremental, and no spans.",
  [S+"reparser.go", S+"node.go", S+"source.go"],
  [("incremental parsing", S+"reparser.go try_reparse"), ("numbers of new nodes", S+"node.go InnerNode.replace_children, update_parent")],
  "property-based testing: spans of all nodes before and after random edits; bounds on what an edit of a word reparses",
  "Histories of up to five edits: after many edits at one place numbers run out, and nodes are numbered anew.")
