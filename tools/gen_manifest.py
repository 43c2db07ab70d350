#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
CLAIMS = {
 "C01": ("abstract interpretation of the lexer and the parser over SSA; every cycle of the abstract state graphs must consume input", "Every text, every sequence of tokens and every recovered error, to a fixpoint; the lexer and the parser are analysed one after the other, with the lexer's contract between them."),
 "C02": ("abstract interpretation of the lexer, the parser and the transformer over SSA; no path may end in a panic that is not recovered", "Lexer and parser: every path, to a fixpoint. Transformer: every path over trees of the shapes that the drivers make, with unknown parts and settings."),
 "C30": ("abstract interpretation over SSA of the lexer's step and of LineAndCol, with an inductive invariant of the table; field-write analysis for everything else", "Every path of one step from every table that satisfies the invariant, over symbolic text; every write to the two fields in the repository."),
 "C29": ("abstract interpretation of the parser over SSA; typestate of the lexer's whitespace mode at every store to a node", "Every path of the parser over every sequence of tokens, recovered errors included, to a fixpoint."),
 "C27": ("effect analysis over type-resolved SSA (allowlist of read-only operations)", "Every instruction of every library function is classified; sound for the library's own code under the listed contracts of its dependencies."),
 "C28": ("reachability and data-flow analysis over SSA (nondeterminism sources, package state, map iteration order)", "Every instruction reachable from parsing, transforming and printing is classified; nondeterminism inside dependencies is excluded by an explicit list."),
 "C04": ("abstract interpretation of the printer over SSA against an emission specification per syntax-tree type", "Every path through the printer for every kind of node the library allocates, all fields unknown, induction over nested nodes; the specification of each kind's text is hand-written."),
 "C05": ("abstract interpretation of the lexer over SSA with symbolic text, in lockstep with a transducer of CSS Syntax Level 3", "Every text and every sequence of settings, to a fixpoint; the specification keeps the deviations that the tests pin."),
 "C06": ("abstract interpretation of the lexer over SSA; literals are substrings with symbolic positions, compared with the specification", "Every text and every sequence of settings, to a fixpoint."),
 "C26": ("abstract interpretation of the plugin's callback over SSA with a symbolic compilation", "Every path; up to 3 reports of any kind or 24 of a regular pattern."),
 "C08": ("abstract interpretation of Compile over SSA with symbolic files; tasks run when started, duties in a ghost state", "Every path through Compile and the tasks it starts, for every options and every outcome of the calls; fixpoint over recursion."),
 "C07": ("abstract interpretation of Compile over SSA with locksets, ownership and phases for all memory that tasks share; dataflow of package variables, resolvers and sources over the call graph", "Every access on every path while tasks run, and every use of a package variable, resolver or source in all functions that tasks may call; elements of a shared list are not told apart."),
 "C09": ("abstract interpretation of Compile over SSA with locksets at every call of the reporter", "Every call of the reporter on every path, those that the transformer makes included."),
 "C10": ("abstract interpretation of Compile over SSA; typestate of failures", "Every path on which a call fails; a failure is open until it is reported."),
 "C32": ("abstract interpretation of Compile over SSA; the tables relate keys and values by symbolic path", "Every update of every table of the compilation and every output."),
 "C11": ("abstract interpretation of Compile (typestate of sources) and of Transform over SSA with symbolic files and graphs of imports", "Compile: every path, to a fixpoint, with symbolic files. Inlining: graphs of ten shapes, with symbolic texts; every path."),
 "C12": ("abstract interpretation of Transform over SSA; effect analysis of every store against the memory of the given trees", "Every store, copy and append on every path over the trees of all drivers of C11 and C13 to C18 and C33."),
 "C13": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of what must stay, for every setting of the other transforms", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C14": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of range lowering (terms over the symbolic values)", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C15": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of the alternatives (as sets)", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C16": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of calc() (terms over the symbolic values and guards)", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C17": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of definitions and their removal", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C18": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of the result in every place a construct can occur", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C33": ("abstract interpretation of Transform over SSA with symbolic trees from a driver package, compared with a specification of custom media", "Every path; trees have the shapes the driver makes (lists of up to 12 elements, nesting of up to 8), their texts, numbers, positions, flags and open parts are unknown."),
 "C20": ("abstract interpretation of NodeResolver.Resolve over SSA with a symbolic file system", "Every path through Resolve for every specifier, directory, base URL and state of the file system, to a fixpoint."),
 "C21": ("abstract interpretation of NodeResolver.Resolve over SSA; induction over the parent directories", "Every path; the walk to the parent is recognised in loops and recursion and must be guarded by a test that there is a parent."),
 "C22": ("abstract interpretation of NodeResolver.Resolve over SSA against a specification of the order of candidates", "Every path; the result is compared with the specification evaluated over what the path has found out about the file system."),
 "C23": ("abstract interpretation of the printer over SSA; structural check of the symbolic source-map text", "The text appended by Print is computed symbolically and must be JSON whatever its symbolic parts are."),
 "C24": ("constant propagation through the package initialiser over SSA", "The values of every table that VLQEncode and VLQDecode index are computed and compared entry by entry."),
 "C25": ("abstract interpretation of the printer over SSA with a ghost record of mapping fields", "Every path through the printer for every kind of node; generated columns are not decided (C42)."),
 "C31": ("abstract interpretation of ast.Walk over SSA, per syntax-tree type", "Every path through Walk for every kind of node the library allocates, induction over nested nodes."),
}
NA = {
 "C03": "Static analysis can follow every literal through the parser: csscheck/check_parser.go has the rule, which holds on the current tree and finds the bugs planted for it (seeded/c03-*), but a rewriting of parseRaw that keeps its behaviour (a helper that makes the node) still makes it raise an alarm, since a literal that a helper takes over within a part of the source is reported when the next one replaces it; a check that alarms on correct code is not claimed.",
 "C40": "Round-trip equality of printed text and tree quantifies over run-time strings; the structural parts that static analysis can decide are claimed separately (C04, C05, C06).",
 "C41": "Exactness of floating-point results is a numerical property of run-time values; the structure of the reduction (operators, operands, units, guards) is claimed as C16 and C14.",
 "C42": "Which generated column a rule is printed at depends on run-time text; the structural part (one mapping per rule, made before its text, from its own span) is claimed as C25.",
 "C43": "Inversion over all 2^32 integers is a numerical property decided by execution or a solver, which is another family; the tables it relies on are claimed as C24.",
 "C44": "Go grows goroutine stacks up to a configurable limit; whether nesting of an input exceeds it is a resource bound that no static argument over the source can give.",
}
PENDING = "No check for it is finished: the analysis that was begun still raises alarms on the unchanged tree that are not defects."
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "technique": CLAIMS[i][0],
                 "level": "other", "level_note": CLAIMS[i][1]} for i in props if i in CLAIMS],
     "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in props if i not in CLAIMS],
     "notes": "All checks are static analyses of /repo's current source by /verif/csscheck (Go, go/ssa); no code of /repo is run. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
