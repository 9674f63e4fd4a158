#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as Python for readable editing).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","A diagnosed error always fails the compilation and leaves no program behind",
 "Whenever the compiler reports an error about the source program (lexical, syntactic, semantic, during code generation, or while writing or linking the output), in the main file or in a unit it uses, it ends with a non-zero exit status. After an error found before code generation it has not written an object file, IR file or executable. An error that has been counted is never forgotten again before the exit status is decided.",
 ["programs","fault_sequences"],"every source program, every place an error can be reported, and every failure of writing or linking the output",
 "The suite's negative tests exercise a few dozen error sites; most error sites and all I/O failures are never triggered, and a forgotten count only shows on exactly the program that triggers it.",
 ["lacsap.cpp","parser.cpp","semantics.cpp","expr.cpp","binary.cpp"],
 [("Compile() gates on the parser's, the semantic analyser's and the code generator's error counts","lacsap.cpp:Compile"),
  ("error reporters increment a counter","parser.cpp:Parser::PrintError; semantics.cpp:TypeCheckVisitor::Error; expr.cpp:Error"),
  ("unit parser's errors are added to the importing parser's","parser.cpp:Parser::ParseUses")],
 [("errCnt","number of reported errors","parser.cpp / semantics.cpp / expr.cpp")],["process exit status","files written"])

prop("C02","Lexing and parsing terminate on every input",
 "For every input text, including one that ends at any point or is not a program at all, the compiler's lexing and parsing come to an end. Every repetition in them consumes input, records an error (of which only a bounded number are accepted), or stops, and at the end of the input every repetition stops.",
 ["inputs"],"every byte sequence presented as a source file",
 "Tests compile a fixed set of programs; a non-terminating loop shows only on the one malformed input that reaches it.",
 ["parser.cpp","lexer.cpp","source.cpp"],
 [("each parsing loop consumes a token per round or leaves through an error","parser.cpp"),
  ("the lexer's scanning loops stop at end of file","lexer.cpp")],None,["termination"])

prop("C03","Every part of the program reaches the semantic checks and capture analysis",
 "Every expression and statement written in a program - operands, conditions, bounds, arguments, indices, case labels' bodies, loop bodies, assignment targets - is reached exactly by the passes that walk the program: type checking, and the discovery of which outer variables a nested routine uses. No construct hides its parts from these passes.",
 ["programs"],"every program, at every nesting of constructs",
 "A part that is not walked only matters when an error or an up-level variable use occurs precisely there; tests place them in a handful of positions.",
 ["expr.h","expr.cpp","semantics.cpp","callgraph.cpp"],
 [("accept() of each node visits each child","expr.h/expr.cpp")],None,["diagnostics","generated closures"])

prop("C04","Binary and unary operators are compiled to the operation the source names",
 "For every operator and every combination of operand types the compiler accepts, the generated code applies exactly the operation the language defines, to the left and right operand in that order: integer and real arithmetic, integer and real division, modulus, shifts, bitwise and logical operators, signed comparison for integers, unsigned for characters, booleans and enumerations, ordered comparison for reals, and the string, set and complex operations of the runtime library. The short-circuit operators do not evaluate the right operand when the left one decides.",
 ["programs"],"every operator at every combination of operand types",
 "The combinations of operator, operand type and operand order number in the hundreds and tests sample some of them, mostly with operand values on which wrong choices (signedness, order) agree.",
 ["expr.cpp"],
 [("operator lowering","expr.cpp:BinaryExprAST::CodeGen"),("unary lowering","expr.cpp:UnaryExprAST::CodeGen"),("string comparison","expr.cpp:CallStrFunc/CallArrFunc"),("set operators","expr.cpp:BinaryExprAST::SetCodeGen")],None,["emitted instructions"])

prop("C05","Structured statements transfer control as the language defines",
 "The code generated for if, while, repeat, for (up, down and over sets or arrays), case (with ranges and otherwise), goto and labelled statements, with, and compound statements runs their parts in source order, tests the right condition with the right polarity at the right time, and continues after the statement. A for loop evaluates both bounds before the loop, runs zero times when the range is empty, and runs its body exactly once for each value of the range.",
 ["programs"],"every program using these statements",
 "Tests run the common shapes; the polarity, position of the test, empty ranges and extreme bounds each need a specific combination.",
 ["expr.cpp"],
 [("statement lowering","expr.cpp: IfExprAST/ForExprAST/WhileExprAST/RepeatExprAST/CaseExprAST/LabelExprAST/GotoAST ::CodeGen")],None,["emitted control flow"])

prop("C06","Generated code is well-formed: single terminators, merges name true predecessors",
 "For every program the compiler accepts, each basic block it generates ends in exactly one terminator, and every merge (PHI) it generates names, for each incoming value, the block from which control really arrives - also when the sub-expression or statement that produced the value itself generated several blocks. No statement leaves the code generator positioned in a block that is already terminated or that is unreachable while code still has to be emitted there.",
 ["programs"],"every nesting of expressions and statements",
 "A stale predecessor only appears when a multi-block construct is nested inside another one; the module verifier is disabled in the normal build.",
 ["expr.cpp","builtin.cpp"],
 [("merge blocks and PHI nodes","expr.cpp: BinaryExprAST::CodeGen, ForExprAST::CodeGen, SetExprAST::MakeSet"),("terminators","expr.cpp")],None,["emitted IR"])

prop("C07","Read and write call the runtime routine of the type with the right operands",
 "Each read or write of a value compiles to the runtime routine for that value's type and file kind, passing the file, the value (or its address for reading), its width and its number of decimals in that order; readln and writeln finish with exactly one end-of-line call and read/write with none. Writing to a string and reading from a string use the string variants with the same operands.",
 ["programs"],"every read/write item of every printable or readable type, on text, typed and string targets",
 "There are dozens of type/target combinations, several never used in tests, and a wrong routine of the same shape is only visible for particular values.",
 ["expr.cpp","runtime/write.c","runtime/read.c"],
 [("write dispatch","expr.cpp:WriteAST::CodeGen/CreateWriteFunc"),("read dispatch","expr.cpp:ReadAST::CodeGen/CreateReadFunc")],None,["emitted runtime calls"])

prop("C08","Compiler and runtime agree on every routine, type and constant they share",
 "Every runtime routine the compiler can make a program call exists in the runtime library with the parameter and result types the compiler declares for it, on both 64-bit and 32-bit targets. The layouts and constants both sides rely on - file record, string, set words, complex, time stamp and binding records, file limits - are the same on both sides.",
 ["programs","configurations"],"every runtime routine the compiler may reference, for each supported target",
 "A mismatch links fine and misbehaves only when the routine is called, on the target where the calling conventions differ; several routines are in no test.",
 ["expr.cpp","builtin.cpp","types.cpp","runtime/runtime.h","runtime/*.c"],
 [("declared runtime functions","expr.cpp/builtin.cpp: GetFunction(...) sites"),("runtime definitions","runtime/*.c")],None,["linked program behaviour"])

prop("C09","Runtime string, set and text routines never touch memory outside their data",
 "For all arguments a compiled program can pass - any string contents and lengths, any index, count or enumeration value - the runtime's string, array, set, write, read-from-string and parameter routines read and write only inside the objects they are given, keep the stored string length within the string's capacity, and perform no undefined arithmetic.",
 ["inputs","programs"],"all string lengths 0..255, all counts and positions, all enumeration values, all widths",
 "The boundary lengths (0, 255, aliasing) and negative counts are not exercised, and an overrun by one byte rarely changes a test's output.",
 ["runtime/string.c","runtime/array.c","runtime/set.c","runtime/write.c","runtime/read.c","runtime/params.c","runtime/val.c"],
 [("length and bound computations","runtime/string.c, write.c, read.c")],None,["memory accesses"])

prop("C10","File operations act on the right file with the right mode and position",
 "Opening for reading, writing, appending and update uses a mode that allows exactly that; typed-file seeking positions at the element number given times the element size from the start of the file, and position queries report in the same units; closing releases the file so its slot can be reused; and every file routine refuses a handle that was never assigned instead of using memory outside the file table.",
 ["programs","histories"],"every sequence of file operations a program can perform",
 "Only simple sequential text and typed file use is tested; seeks, update mode, many open files and invalid handles are not.",
 ["runtime/assign.c","runtime/fileio.c","runtime/seek.c","runtime/getput.c","runtime/readbin.c","runtime/writebin.c","runtime/bind.c","runtime/runtime.h"],
 [("file table and handle check","runtime/runtime.h:getFile; runtime/assign.c"),("seek arithmetic","runtime/seek.c")],
 [("file table","open files by handle","runtime/assign.c")],["calls on C streams"])

prop("C11","Set operations compute the mathematical set operation over all elements",
 "Union, difference, intersection, symmetric difference, equality and inclusion of sets, whether done inline or by the runtime library, combine every word of both operands with the right bit operation and no other, in the right operand order. Membership tests and set constructors use one and the same bit for an element in every place, for every base type and for constant and computed sets alike.",
 ["programs"],"all set sizes, base types, element values and operand pairs",
 "Tests use small sets of a few base types; a wrong word count or bit position shows only for particular elements.",
 ["runtime/set.c","expr.cpp","types.cpp"],
 [("runtime set routines","runtime/set.c"),("inline set code","expr.cpp:SetExprAST, BinaryExprAST::SetCodeGen/InlineSetFunc")],None,["computed set bits"])

prop("C12","Constant expressions are folded with the operator the source names",
 "A constant expression evaluates each operator with the meaning it has at run time for its operand kinds, honouring operator precedence and left-to-right association, and one that has no value - division by zero, wrong operand kinds, unknown name - is diagnosed rather than silently given a value or crashing the compiler.",
 ["programs"],"every constant expression over the constant kinds and operators",
 "Constant declarations in tests are mostly literals; kinds and operators combine to more cases than are sampled and errors are barely tested.",
 ["constants.cpp","constants.h","parser.cpp"],
 [("constant operators","constants.cpp"),("folding","parser.cpp:Parser::ParseConstEval/ParseConstRHS/ParseConstTerm")],None,["folded values","diagnostics"])

prop("C13","Each builtin name means its function and its arguments are checked first",
 "Each predefined procedure and function name compiles to the operation it names on its arguments in order, with the result type the language gives it. Its arguments are checked for number and type before code is generated, so that no call with too few or wrongly typed arguments reaches code generation.",
 ["programs"],"every predefined name with every number and type of arguments",
 "There are nearly a hundred predefined names, many used once in tests with valid arguments only.",
 ["builtin.cpp","builtin.h"],
 [("name table","builtin.cpp:InitBuiltins"),("argument checks","builtin.cpp: Semantics() of each function class"),("lowering","builtin.cpp: CodeGen() of each function class")],None,["emitted code","diagnostics"])

prop("C14","Names resolve to the innermost declaration, independent of letter case",
 "A name refers to the declaration in the innermost enclosing scope that declares it, from its declaration to the end of that scope and not beyond; declaring the same name twice in one scope is an error; and no distinction is made between upper and lower case in names and keywords. Every scope that is entered is left again on all paths, including those through errors.",
 ["programs"],"all nestings of routines, with-statements, records and units, including erroneous programs",
 "A scope leaked on an error path or a wrong lookup direction shows only with particular shadowing in particular nesting.",
 ["stack.h","parser.cpp","namedobject.h","utils.h"],
 [("scope stack","stack.h"),("scope guards","parser.cpp")],[("nameStack","open scopes","parser.cpp")],["resolved declarations","diagnostics"])

prop("C15","Source text is split into the tokens the language defines",
 "Each keyword, operator, literal form and comment form is recognised as the token it is, by longest match, with all keywords known to the lexer distinct and each binary operator carrying its language precedence. Malformed literals and unterminated strings or comments become an error instead of a token.",
 ["inputs"],"every source text",
 "Tests contain well-formed tokens in usual contexts; boundary cases such as adjacent operators, range dots after numbers, base prefixes and end-of-file inside a token are sampled rarely or never.",
 ["lexer.cpp","token.cpp","token.h"],
 [("token scanner","lexer.cpp:Lexer::GetToken"),("keyword and operator table","token.cpp")],None,["token stream"])

prop("C16","The driver honours its options and touches only its own outputs",
 "The compiler reads only the source files it is given or that these use, and writes only the object or IR file and the executable whose names are derived from the input file's or given by option. Each command-line option selects the behaviour it documents (target width, IR or executable output, optimisation level, range checks, model), and removing the intermediate object is confined to the one it created.",
 ["configurations","programs"],"every option combination and input file name",
 "The test driver uses three fixed option sets.",
 ["lacsap.cpp","binary.cpp","options.h"],
 [("option table","lacsap.cpp"),("output writing","binary.cpp")],None,["files opened","commands run"])

prop("C17","Compiling the same input always gives the same output",
 "The output depends only on the source files, the options and the target: no generated name, order of declarations or value depends on addresses, hashing order, time, environment or uninitialised memory. (The addresses that mark nodes in the debugging dumps are not output in this sense.)",
 ["programs","configurations"],"every program, compiled any number of times",
 "Tests compile once and look at program behaviour, not at the output's reproducibility.",
 ["expr.cpp","types.cpp","callgraph.cpp","semantics.cpp","parser.cpp","builtin.cpp","binary.cpp"],
 [("containers iterated while generating","whole compiler")],None,["emitted IR"])

prop("C18","Nested routines see exactly the outer variables they use",
 "A nested routine receives every variable of its enclosing routines that it uses, directly or through routines it calls, as the same storage the enclosing routine uses; the order in which captured variables are stored at the call agrees with the order in which they are fetched in the routine. Calls by name, through recursion and through procedural parameters pass the same captured variables.",
 ["programs"],"all nesting depths, call graphs and uses of outer variables",
 "Tests nest a few levels with particular call patterns; missing propagation appears only for particular call graph shapes.",
 ["callgraph.cpp","expr.cpp","semantics.cpp"],
 [("closure construction","callgraph.cpp; expr.cpp:FunctionAST, CallExprAST, ClosureAST")],None,["captured variables"])

prop("C19","Fields, methods and variant parts lie where every access expects them",
 "The position at which a field of a record, variant part, object or class is laid out is the position used for every access, with inherited fields in front in the order of the base class, all variants sharing the same storage which is large enough for the largest, and a virtual method's slot identical in the class that introduces it and in all that override it. A call of a virtual method goes through the object's own table, an inherited or static one directly.",
 ["programs"],"all record and class declarations, with any inheritance depth",
 "Tests use a few class hierarchies and variants; a slot or offset error needs particular override patterns.",
 ["types.cpp","types.h","expr.cpp","parser.cpp"],
 [("field lookup and layout","types.cpp: FieldCollection, RecordDecl, ClassDecl, VariantDecl"),("virtual tables","types.cpp:ClassDecl::VTableType; expr.cpp:VTableAST, VirtFunctionAST")],None,["addresses used"])

prop("C20","With range checks on, every array index is checked against its bounds",
 "When range checking is requested, every array index in the program is compared with the declared lower and upper bound before the access, and an index outside ends the program with a message naming the place; with range checking off no check is generated. An in-range index never fails the check, and the element addressed is the index minus the declared lower bound.",
 ["programs","configurations"],"every array access with every index value",
 "Only a few range-error tests exist and they check one violating access each.",
 ["expr.cpp","builtin.cpp","runtime/rangeerror.c"],
 [("range check","expr.cpp:RangeCheckAST, ArrayExprAST, ArraySliceAST; semantics.cpp"),("index arithmetic","expr.cpp:ArrayExprAST::Address")],None,["emitted checks"])

prop("C21","Incompatible operands, assignments and arguments are errors",
 "The compiler accepts an operator, assignment, argument, condition, index, case label, loop bound or file operation only for the type combinations the language allows, and reports an error for all others; variable parameters require a variable of the same type. An accepted mixed combination is converted so that both sides have the same type before the operation.",
 ["programs"],"every pair of types at every construct",
 "The number of type pairs and constructs is in the thousands; the negative tests cover a small part.",
 ["semantics.cpp","types.cpp","expr.cpp"],
 [("semantic checks","semantics.cpp:TypeCheckVisitor"),("compatibility rules","types.cpp: CompatibleType/AssignableType/SameAs")],None,["diagnostics"])

prop("C22","No accepted or rejected program makes the compiler fail internally",
 "For every input the compiler ends either with success or with a diagnostic about the program; it never dereferences a missing result of a failed sub-parse or lookup, and never asks a token or type for something that its kind does not have.",
 ["inputs"],"every input text",
 "The crash needs the one malformed construct that makes a helper fail at the one caller that does not expect it; tests hold few malformed programs.",
 ["parser.cpp","constants.cpp","semantics.cpp","expr.cpp","token.cpp","lexer.cpp"],
 [("null results checked by callers","parser.cpp"),("token payload accessors","token.h/token.cpp")],None,["termination by signal or internal error"])

prop("C23","Each construct is given the structure the grammar defines",
 "For every program text the syntax tree is the one the language's grammar gives: operators bind by precedence and to the left, operands of every form keep their parts in order, statements nest as written (a dangling else belongs to the nearest if, a statement ends where the grammar ends it), declarations give each name the kind, type, initial value, parameter modes and results that were written, and a text the grammar or the declaration rules do not allow is diagnosed instead of being read as something else.",
 ["inputs"],"every source text",
 "The set of texts is infinite, and a wrong grouping, a dropped part or an ill-formed text taken for a good one shows only for the combination concerned; tests hold a few hundred fixed programs.",
 ["parser.cpp","token.cpp","namedobject.cpp","types.cpp"],
 [("recursive descent parser","parser.cpp"),("token precedence","token.cpp"),("record and class layout lookup","types.cpp")],None,["syntax tree or diagnosis"])

prop("V01","Optimised and unoptimised builds of a program behave the same",
 "For every program without run-time errors the executable built with any optimisation level produces the same output.",
 ["programs","configurations"],"every program and input",
 "Needs every program; tests run three levels on a fixed set.",
 ["lacsap.cpp","binary.cpp"],[("optimisation pipeline","lacsap.cpp:RunOptimisationPasses")],None,["program output"])

prop("V02","Values written as text are read back unchanged",
 "Every integer, character, boolean and string value written to a text file by a program is read back as the same value, and reals to the precision written; numeric formatting is correct for every width and value.",
 ["inputs"],"every value, width and precision",
 "Value space is unbounded; tests use a few numbers.",
 ["runtime/write.c","runtime/read.c"],[("formatting and parsing","runtime/write.c, runtime/read.c")],None,["text"])

prop("V03","Mathematical builtins are accurate",
 "Square root, trigonometric, exponential and complex functions return results accurate to the precision of the type for all arguments, and the random generator is uniformly distributed.",
 ["inputs"],"every argument value",
 "Tests check a few values.",
 ["runtime/math.c","runtime/cmath.c","builtin.cpp"],[("numeric code","runtime/cmath.c")],None,["results"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
