#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

LEX, PAR, SEL = "internal/lexer/lexer.go", "internal/parser/parser.go", "internal/parser/selectors.go"
PRI, MAP, TRA, API = "internal/printer/printer.go", "internal/printer/sourcemaps.go", "internal/transformer/transformer.go", "api.go"
RES, PLU, AST = "resolver/node_resolver.go", "esbuildplugin/plugin.go", "internal/ast/"

p("C01", "Parsing terminates on every input",
  "Lexing and parsing any byte sequence finishes: every step of every lexing or parsing loop (and every recursive descent) either consumes input or ends, and at end of input every one of them ends with a stylesheet or an error.",
  ["inputs"], "every byte sequence given to the parser, however malformed or truncated",
  "The tests parse about sixty hand-written, mostly valid snippets; a hang needs one specific truncated or malformed shape (an unclosed block, an odd delimiter) out of infinitely many.",
  [LEX, PAR, SEL], [("each loop consumes a token per iteration and stops on EOF", PAR), ("the lexer consumes at least one code point per token", LEX)],
  [("current token / current code point", "what the loops are driven by", LEX)], ["parser.Parse returns"])
p("C02", "Malformed CSS never crashes the compiler",
  "For any file content, parsing and transforming report malformed or unsupported CSS as an error value or a diagnostic; they never panic out of the library (no nil dereference, failed type assertion, out-of-range index or slice, or escaping internal panic), whatever the transform options.",
  ["inputs", "configurations"], "every byte sequence and every combination of transform options",
  "A panic in a compile goroutine kills the whole host process and needs one specific malformed construct; the tests contain only a handful of malformed inputs.",
  [PAR, SEL, LEX, TRA], [("lexer errors are raised as one panic type and recovered at the parser entry point", PAR), ("possibly missing values are checked before use", PAR)],
  None, ["parser.Parse", "transformer.Transform"])
p("C03", "The parser never silently drops input",
  "When a stylesheet is accepted, every token that carries text (identifier, string, number, dimension, percentage, hash, url, function name, delimiter) is either recorded in the syntax tree or has been recognised as one specific keyword or operator; no token is skipped unseen, and every tree node built on the way is attached to the result and not overwritten by a later one.",
  ["inputs"], "every accepted stylesheet",
  "Tests compare the output of a few stylesheets; a dropped token in an unusual grammar position (a stray value, an ignored prelude) goes unnoticed.",
  [PAR, SEL], [("each token is checked or its literal captured before the parser advances", PAR)],
  [("current token literal", "text that must end up in the tree", LEX)], ["the syntax tree returned by parser.Parse"])
p("C04", "Printing emits every part of every syntax-tree node",
  "For every kind of syntax-tree node the parser or a transform can build, and every combination of its optional parts, the printer writes all of the node's text-bearing parts, each exactly once, in source order, with the punctuation and separators CSS requires between them, and writes nothing else.",
  ["programs"], "every node kind, every presence/absence of optional parts, lists of every length",
  "Printer tests cover a few dozen snippets; most (node kind, optional part, list length) combinations are never printed by a test.",
  [PRI], [("one type switch over node kinds, recursing into children", PRI)], None, ["text returned by printer.Print"])
p("C05", "Tokens are classified as CSS Syntax specifies",
  "For every next code point and every look-ahead, the kind of token the lexer starts (number, dimension, identifier, function, hash, at-keyword, string, comment, CDO/CDC, whitespace, delimiter or fixed punctuation) is the one CSS Syntax Level 3 prescribes, and a backslash-escaped code point never ends the string or name it is part of.",
  ["inputs"], "every first code point and every following code points",
  "The lexer tests cover nine short strings; the choice depends on up to four code points of look-ahead.",
  [LEX, "internal/lexer/tokens.go"], [("dispatch on the current code point with look-ahead predicates", LEX)], None, ["lexer.Next / Lexer.Current"])
p("C06", "A token's text is exactly its slice of the source",
  "The literal reported for a token is the verbatim source text of that token (without its delimiters): it starts where the token's text starts, ends where it ends, and is never out of range, reversed, shifted, or left over from an earlier token.",
  ["inputs"], "every token in every source",
  "Only a few literals per token kind are compared in tests; multi-byte, escaped and edge-of-file literals are not.",
  [LEX], [("literals are sliced between two recorded positions of the scan", LEX)], [("scan position", "monotone byte offset", LEX)], ["Lexer.CurrentString / CurrentNumeral"])
p("C07", "Concurrent compilation is free of data races",
  "Whatever entries, imports and schedule, no two goroutines of one compilation access the same mutable state (source tables, syntax trees, output set, loop variables, results) without synchronisation when at least one of them writes.",
  ["schedules", "inputs"], "every interleaving of the goroutines Compile starts, for every import graph",
  "The tests use one entry and one import per file and run without the race detector.",
  [API], [("mutexes around the shared tables; errgroup join", API)], [("compilation tables", "source index, sources, trees, outputs", API)], ["race-freedom of Compile"])
p("C08", "Every entry and every import is processed, and Compile waits for all",
  "Each entry file and each import of each parsed file gets its own processing task, bound to that very entry or import, and Compile does not read results or return before every task it started has finished.",
  ["schedules", "inputs"], "every list of entries and imports, every schedule",
  "Tests use a single entry and a single import per file, where a task bound to the wrong element cannot show.",
  [API], [("one goroutine per element, joined by errgroup Wait", API)], None, ["Result.Files"])
p("C09", "Diagnostics reach the configured reporter, one at a time",
  "Every diagnostic of a compilation goes to the reporter given in the options (the default one only if none is given), and the reporter is never called from two goroutines at once, so an unsynchronised user reporter is safe.",
  ["schedules", "configurations"], "every schedule and every reporter",
  "The tests' reporters append to a slice from what is in practice a single goroutine.",
  [API, TRA], [("a mutex-guarded funnel in front of the reporter", API)], None, ["Reporter.AddError"])
p("C10", "No failure is swallowed",
  "Every error met while making a path absolute, reading a file, resolving an import, parsing or printing is handed to the reporter (or returned as an error by the resolver), and a file whose reading, parsing or printing failed contributes no output.",
  ["fault_sequences", "inputs"], "every combination of failing files and imports",
  "Two tests each exercise one failure; each error-returning call has its own path.",
  [API, RES], [("each err != nil branch reports", API)], None, ["Reporter.AddError", "Result.Files"])
p("C11", "Import graphs of any shape terminate",
  "Compile finishes for every import graph, including self-imports, cycles and diamonds; each distinct file is read into the compilation and parsed at most once, and inlining never follows a file that is already being inlined.",
  ["inputs", "schedules"], "every import graph over finitely many files",
  "The tests have only acyclic single-import chains.",
  [API, TRA], [("a file is claimed under lock before its imports are followed", API)], None, ["Compile returns"])
p("C12", "Transforming never modifies the stylesheet it is given",
  "Transforming a stylesheet leaves the parsed trees it was given (its own and those it inlines) untouched, so a file imported by several others contributes the same content to each of them, whatever the order.",
  ["programs", "histories"], "every stylesheet, every set of importers and order of transforms",
  "No test transforms or inlines the same tree twice.",
  [TRA], [("transforms build new nodes instead of writing into old ones", TRA)], None, ["transformer.Transform"])
p("C13", "A transform that is off changes nothing",
  "With a transform left in its default passthrough mode, every construct it concerns (imports, feature ranges, :any-link, custom properties and var(), custom media, math functions) comes out of the transform stage exactly once, in place and unchanged.",
  ["programs", "configurations"], "every stylesheet, each transform off",
  "Each passthrough mode is tested on one snippet, imports on none.",
  [TRA, "transforms/transforms.go"], [("each rewrite is guarded by its option", TRA)], None, ["transformer.Transform"])
p("C14", "Media feature ranges lower to the right min-/max- bounds",
  "With range lowering on, for each comparison operator and each side of the feature name the result is the equivalent min- or max- condition: value<name and value<=name give min-, value>name and value>=name give max-, the mirrored forms give the mirror image, strict operators move the bound by .001 to the excluded side, units are kept, and both halves of a double range are kept, joined by and.",
  ["programs"], "every operator, side, feature name, value and unit",
  "Tests sample pixel and percentage values for some operator combinations.",
  [TRA], [("operator/side table", TRA)], None, ["transformer.Transform"])
p("C15", "No :any-link survives when its transform is on",
  "With the any-link transform on, every complex selector containing :any-link is replaced by alternatives in which each occurrence is :link or :visited, all combinations present, the other parts unchanged and in order; none is left in any nested selector list or at-rule block.",
  ["programs"], "every selector list, any number of occurrences",
  "Tests have one occurrence per selector.",
  [TRA], [("selector rewriting", TRA)], None, ["transformer.Transform"])
p("C16", "calc() reduction computes what the expression says",
  "With reduction on, a math expression is replaced only by a value equal to it: + and - only between equal units, * only with a plain number on at least one side, / only by a non-zero plain number, operands in order, the unit that of the dimensioned operand; anything else is left unreduced.",
  ["programs"], "every operator, operand order and unit combination",
  "Tests sample a dozen expressions.",
  [TRA], [("operator switch with unit checks", TRA)], None, ["transformer.Transform"])
p("C17", "Only plain :root rules define substituted variables",
  "With custom-property substitution on, a custom property is taken as a definition (and removed) only from a rule outside of any at-rule block whose selectors are all exactly :root, with or without surrounding whitespace; declarations under any other selector or in such blocks, and non-custom declarations under :root, stay where they are.",
  ["programs"], "every selector list and declaration list",
  "Tests use one spelling of a :root rule and no other rule that defines variables.",
  [TRA], [("root-selector test guarding the variable table", TRA)], None, ["transformer.Transform"])
p("C18", "Transforms reach every place their construct can occur",
  "An enabled transform is applied to its construct wherever the parser can put it: selectors and declarations in top-level rules and inside at-rule blocks, and var() and math functions nested at any depth in function arguments, brackets, math operands and fallbacks.",
  ["programs"], "every nesting of at-rules, rules and values the syntax tree allows",
  "Tests apply each transform at the top level only.",
  [TRA], [("recursive descent over the syntax tree", TRA)], None, ["transformer.Transform"])
p("C20", "Resolving yields an existing file or an error",
  "The import resolver either returns, with a nil error, a path that it has just found to exist and not to be a directory, or returns an empty path and a non-nil error; it never reports success with an empty, missing or directory path.",
  ["inputs", "configurations", "fault_sequences"], "every spec, directory layout and file-system error",
  "Tests cover eight directory layouts; the result depends on every combination of present, missing, directory and unreadable candidates.",
  [RES], [("os.Stat before returning each candidate", RES)], None, ["NodeResolver.Resolve"])
p("C21", "Resolving terminates for every starting directory",
  "Looking a module up through node_modules directories visits each ancestor of the starting directory once, including the root, and ends, whether the starting directory is absolute, relative, empty or the root itself.",
  ["inputs"], "every spec and starting directory",
  "Tests start from absolute directories that contain the module.",
  [RES], [("walk up with the parent directory until it no longer changes", RES)], None, ["NodeResolver.Resolve"])
p("C22", "Resolution candidates are tried in the documented order",
  "A location is resolved to the file there; if there is nothing, to the file with .css appended; if there is a directory, to the file named by the style entry of its package.json or, without a package.json, to its index.css. Specs that start with ./, ../ or / have one location, below the importing directory; others have one below the base URL (if set), then one below node_modules in the importing directory and in each of its ancestors, nearest first. The first location that resolves wins, and there is an error only if none does.",
  ["inputs", "configurations"], "every layout in which several candidates exist",
  "In the tests' layouts exactly one candidate exists.",
  [RES], [("ordered attempts", RES)], None, ["NodeResolver.Resolve"])
p("C23", "The embedded source map is always valid JSON",
  "The source map appended to the output is well-formed JSON inside a well-formed comment for every file path and every file content: all text that depends on the input is JSON-escaped and the payload is base64-encoded.",
  ["inputs"], "every path and content, including quotes, backslashes, control characters and comment terminators",
  "No test decodes an emitted source map.",
  [PRI], [("json.Marshal of the content, base64 of the whole", PRI)], None, ["text returned by printer.Print with a source"])
p("C24", "The VLQ alphabets of encoder and decoder agree",
  "The base64 digit table used to write source-map mappings is the standard 64-character alphabet, and the table used to read them is its exact inverse.",
  ["inputs"], "all 64 digits",
  "Tests encode four numbers, which use a dozen digits.",
  [MAP], [("forward and reverse tables", MAP)], None, ["printer.VLQEncode", "printer.VLQDecode"])
p("C25", "Every rule is mapped to its own source position",
  "When printing with a source, each rule and each at-rule gets exactly one mapping, made from that rule's own position before any of its text is written; without a source no mapping is made and no map is appended.",
  ["programs", "configurations"], "every stylesheet, with and without a source",
  "No test inspects emitted mappings.",
  [PRI], [("mapping call at the start of each rule", PRI)], None, ["mappings field of the source map"])
p("C26", "The bundler plugin never hides a failure",
  "For every file it loads, the plugin hands over contents only if the compilation reported nothing; if anything was reported, every report reaches the bundler exactly once, with the line and column of the reported position when there is one; a missing output is an error.",
  ["fault_sequences", "inputs"], "every combination of reported errors",
  "The plugin has no tests at all.",
  [PLU], [("errors checked before contents are set", PLU)], None, ["api.OnLoadResult"])
p("C27", "Compiling only reads",
  "Compiling, resolving and the plugin only read the file system: no code path of the library creates, writes, renames or deletes files, runs programs, opens connections, ends the process, changes process-wide state, or prints anywhere but through the reporter.",
  ["inputs", "configurations"], "every call of the public API",
  "Tests look at results, not at side effects.",
  [API, RES, PLU, TRA, PRI, PAR, LEX], [("only os.Stat and file reads are called", API)], None, ["file system and process"])
p("C28", "Output is a function of the input",
  "The text produced for a file depends only on file contents, paths and options: lexing, parsing, transforming and printing use no clock, randomness, environment, global mutable state, concurrency, or map iteration order.",
  ["histories", "schedules"], "every repetition of a compilation, in any process",
  "A test runs once per snippet, so run-to-run variation is invisible.",
  [PRI, TRA, PAR, LEX], [("ordered slices everywhere; maps only for lookup", TRA)], None, ["Result.Files"])
p("C29", "Whitespace-sensitive lexing stays inside selectors",
  "Whitespace tokens are only ever produced while a selector is being parsed: when parsing of a selector (or of an attribute or nth-child argument inside it) ends, on success or on any error that is recovered from, the whitespace mode is what it was before, so declarations, values and at-rule preludes never see whitespace tokens.",
  ["inputs"], "every selector, including malformed ones",
  "Tests check outputs of well-formed selectors.",
  [SEL, LEX], [("mode saved and restored by defer", SEL)], None, ["tokens seen by the parser"])
p("C30", "The line table is strictly increasing and complete",
  "While a source is lexed, including when the parser rewinds and lexes part of it again, the table of line starts stays strictly increasing and gains exactly one entry per newline (LF, CRLF counted once), so line and column of every diagnostic and mapping are those of the source.",
  ["inputs", "histories"], "every source, every sequence of rewinds",
  "Tests check the position of three errors, none after a rewind.",
  [LEX, "internal/sources/source.go"], [("offset appended when a newline is consumed", LEX)], None, ["Source.LineAndCol"])
p("C31", "Walking a tree visits every node",
  "Walking a syntax tree never fails on a tree the parser built and visits every node in it exactly once, parents before children.",
  ["programs"], "every tree the parser can build",
  "One snapshot test walks one stylesheet without brackets or functional pseudo-classes.",
  [AST + "walk.go"], [("one case per node kind, recursing into children", AST + "walk.go")], None, ["ast.Walk"])
p("C32", "Exactly the requested files are output",
  "The result holds, under its absolute path, the output of each entry that compiled, and of each transitively imported file when imports are followed, and of no other file.",
  ["configurations", "inputs"], "every import mode and import graph",
  "Tests count files for three fixtures.",
  [API], [("output set filled for entries, and for imports only in follow mode", API)], None, ["Result.Files"])
p("C33", "Custom media definitions expand at their uses",
  "With custom-media expansion on, a query part naming a defined custom media query is replaced by exactly that query's parts, unknown names and every other part stay unchanged and in order, and the definition itself is removed.",
  ["programs"], "every media query list and set of definitions",
  "Tests have one definition and two uses.",
  [TRA], [("lookup table keyed by name", TRA)], None, ["transformer.Transform"])
p("C40", "Printing and re-parsing is the identity",
  "For every accepted stylesheet the printed text parses to an equivalent tree.",
  ["inputs"], "every accepted stylesheet",
  "Tests compare some outputs to expected strings; none re-parses.",
  [PRI, PAR], [("printer mirrors parser", PRI)], None, ["printer.Print / parser.Parse"])
p("C41", "Reduced numbers are numerically exact",
  "Numbers produced by calc() reduction and range lowering equal the exact decimal result.",
  ["inputs"], "every pair of decimal operands",
  "Tests sample a few operands.",
  [TRA], [("float64 arithmetic", TRA)], None, ["transformer.Transform"])
p("C42", "Mappings point at the right line and column",
  "Decoding the emitted mappings gives, for each rule, its generated position and its original position.",
  ["inputs"], "every stylesheet",
  "No test decodes mappings.",
  [PRI, MAP], [("relative VLQ deltas", PRI)], None, ["mappings field"])
p("C43", "VLQ decoding inverts encoding for every 32-bit value",
  "For every int32 the decoder returns the encoded value and its length.",
  ["inputs"], "all int32 values",
  "Four values are tested.",
  [MAP], [("sign bit and 5-bit groups", MAP)], None, ["VLQEncode / VLQDecode"])
p("C44", "Parsing uses bounded stack",
  "Nesting depth in the input never exhausts the stack.",
  ["inputs"], "every nesting depth",
  "No deeply nested test.",
  [PAR], [("recursive descent", PAR)], None, ["parser.Parse"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
