#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
AI = "abstract interpretation of the code generator (clang AST, Herbrand terms with interval facts) against a reviewed lowering table"
CHECKS = {
 "C07": (AI, "Decides the emitted runtime call sequence of every read and write over argument types, widths, files and targets, for the composition of type check and code generation; trusts the LLVM builder model and the reviewed table."),
 "C10": ("abstract interpretation of the runtime library's C code on symbolic file variables and file tables, against a reviewed table of library calls and final memory contents", "Decides for every file routine, state of the variable (open, closed, unbound, never assigned) and occupancy of the file table which library calls are made with which operands, what the file table holds afterwards, and that a variable without an open entry of its own is refused; parsed for 64 and 32 bit. Trusts the C library and the reviewed table."),
 "C08": ("abstract interpretation of the code generators to collect every declared runtime routine; prototype and layout comparison with the type-checked runtime source for both targets", "Decides existence, parameter and result agreement for every routine declared in the cases of the table checks, plus record layouts, set words, enumeration tables and required symbols; assumes the x86 calling conventions."),
 "C11": (AI + " (set code generation and the set routines of the runtime library)", "Decides the emitted code of set operators, membership, constructors, assignments and conversions over shapes of set types and element lists at two optimisation levels, and the effects of every set routine for several word counts; trusts the LLVM builder model and the reviewed table."),
 "C02": ("abstract interpretation of the lexer and the parser (clang AST) with turn-by-turn loop following on texts that end, lose, repeat or replace tokens at every place",
         "6,000 token sequences derived from 14 programs that together use every production, and 600 character sequences; plus the bound in the error reporter. Texts are bounded to 100 tokens; an inductive argument over all texts is not made."),
 "C21": ("abstract interpretation of the parser and the type check (clang AST) on statements of every pair of types; acceptance and rejection compared with the language's compatibility rules",
         "31 types in pairs x 24 constructs (assignment, arguments, results, operators, bounds, membership), 24 constructs of one type, and lists of arguments, targets, labels and constants: 16,000 verdicts at the statement's own line. Combinations on which dialects differ are not judged. Types outside the sample (schemata, classes, routine types) are judged by other properties or not at all."),
 "C17": ("dataflow and effect analysis: definite assignment of locals and fields, reproducible iteration order, sources of chance reachable from main (clang AST)",
         "Every function reachable from main: no call of a source of chance outside the listed, justified places; no iteration over a container ordered by address or hash and no comparison or printing of addresses; every local scalar and every field that some reachable function reads has a value on every path. The contents of LLVM itself and of the target description are trusted."),
 "C16": ("effect analysis of the call graph reachable from main plus abstract execution of CreateBinary, CreateModule, RunOptimisationPasses, replace_ext, Compile and unit import (clang AST)",
   "Link commands are compared after splitting them as a POSIX shell does; option names, targets and defaults are read from the option objects' constructors."),
 "C18": ("abstract interpretation of the compiler pipeline on whole programs and provenance (points-to) analysis of the emitted instructions against the scoping rules", "Decides, for each marked use in each program, the storage its address stands for; programs outside the generated family (nesting up to four levels, five routines) follow by the uniformity of the algorithm only."),
 "C01": ("abstract interpretation of the driver, the error reporters, unit import and output writing under every combination of failing stages (clang AST); effect rules on the counters, printing and exits over the call graph", "Decides the exit status of Compile and main for every failing stage and output kind, that each reporter counts on every path, that counts only grow, and the result of writing and linking for every failing library call; that each wrong program is reported at all belongs to C12-C14, C21-C23."),
 "C14": ("abstract interpretation of the compiler pipeline on whole programs with shadowing and redeclaration, the named declaration identified in the emitted code, plus a catalogue of texts that must be diagnosed", "Decides, for each use of a name in each generated program, which declaration the emitted code refers to, and the diagnosis of duplicate, missing and out-of-scope names; units are only covered through the parser."),
 "C03": ("abstract interpretation of every accept method (clang AST) with opaque parts, and of the real traversal over parsed programs", "Decides for every node class that a visitor reaches each part exactly once and the node itself exactly once, alone and in whole programs; parts declared exempt are listed in the evidence with the reason."),
 "C05": (AI, "Decides the emitted control-flow graph of every statement class over shapes and operand types, for the composition of type check and code generation; trusts the LLVM builder model and the reviewed graphs."),
 "C06": ("abstract interpretation of the code generators; well-formedness dataflow over each derived control-flow graph, plus a call-graph effect rule", "Decides block/PHI well-formedness for every graph derived in the other table checks; constructs outside those cases are covered only by the structural rule."),
 "C12": ("abstract interpretation of the parser's constant evaluator (clang AST) on token lists with symbolic values, against a reviewed table of values and diagnoses", "Decides the value term, kind and type (or the rejection) of constant expressions over all operators, operand kinds, precedence pairs and triples, functions and uses; longer expressions follow by the recursion of the parser; trusts the token stub for the lexer and the reviewed table."),
 "C15": ("abstract interpretation of the lexer (clang AST) on character lists, against a reviewed table of token lists", "Decides the tokens of every pair of characters, every key word with variations, and a catalogue of number, string and comment forms including malformed ones; longer texts follow from the lexer keeping one character of lookahead; trusts the models of the C library's character tests and number conversions and the reviewed table."),
 "C19": ("abstract interpretation of parser, type check and code generation (clang AST) on declared layouts; emitted element addresses and tables compared as byte offsets",
   "Ten record shapes, generated ones and seven class hierarchies, each reached by ten to fourteen routes; the target's layout rules for x86-64 are the oracle's."),
 "C20": ("abstract interpretation of parser, type check and code generation (clang AST); comparisons, branches and element addresses of the emitted code decided at every point where they can change",
   "Indices are decided at the bounds, at the limits of the index type and one wrap away; these are the points at which comparisons with constants and width changes can go wrong."),
 "C23": ("abstract interpretation of the recursive descent parser (clang AST) on token lists, against a reviewed table of syntax trees and diagnoses", "Decides the tree or the diagnosis of about 2500 texts: all pairs of operators, unary operators, triples, every operand, statement, declaration, parameter and type form, whole programs and units, and malformed ones; longer texts follow because the parser has no state beyond the current tokens and the name table."),
    "C13": (AI, "Decides for every predefined name and a matrix of argument lists the diagnosis or the emitted code with its result type; trusts the LLVM builder model and the reviewed table."),
 "C04": (AI, "Decides the emitted instructions for every operator over a matrix of operand types, for the composition of type check and code generation; trusts the LLVM builder model and the reviewed table."),
}
NA = {
 "C09": "The bounds of the runtime's string and text routines depend on stored length bytes, on capacities chosen at another place and on unbounded text; that relational invariant is not expressible in the facts of this analysis. The compiler's half (which capacity is passed) is decided by C04, C07, C08 and C13, the file table half by C10.",
 "C22": "Absence of internal errors for every text needs an invariant over all syntax trees the parser can build, which no static argument in reach bounds; the parts that are finite are decided by C02, C13, C15, C21 and C23.",
 "V01": "Equality of optimised and unoptimised program behaviour is a property of LLVM's passes and of run-time values; no source-level static argument over this repository bounds it.",
 "V02": "Round-tripping of written values depends on run-time numeric formatting (printf/strtod) over unbounded values; a static argument in reach would only restate the formats.",
 "V03": "Numerical accuracy quantifies over floating point values and libm; no sound static analysis in reach here bounds it.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                           "technique": t, "level": "other", "level_note": n, "evidence_file": "evidence/%s.json" % i})
    na = [{"property": i, "reason": NA.get(i, "Check under construction.")} for i in ids if i not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 -m sa.repo", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
