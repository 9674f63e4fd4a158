"""C04: operator lowering. Every operator over a matrix of operand types, plus unary operators and the helper routines."""
from sa.world import *
from sa import runner
import itertools

OPS = ["Plus", "Minus", "Multiply", "Divide", "Div", "Mod", "Pow", "Power", "And", "Or", "Xor", "Shl", "Shr", "And_Then", "Or_Else",
       "Equal", "NotEqual", "LessThan", "LessOrEqual", "GreaterThan", "GreaterOrEqual", "SymDiff", "In"]
EXTRA = ["sub(97,122,char)", "sub(1,5,long)", "sub(0,1,enum(3))", "arr(0,3,int)", "rec(int)", "text", "str(3)", "#int", "#long", "#char", "#str", "#nil"]
TYPES = ["int", "long", "char", "bool", "real", "complex", "enum(3)", "sub(1,10)", "ptr(int)", "str(10)", "arr(1,8,char)", "set(0,31)", "set(0,99)"]
ADDRESSABLE = ("str(", "arr(", "set(", "rec(")

def mkchild(W, name, t):
    if t == "#nil":
        return W.child(name, W.make("Types::PointerDecl", W.ty("void")) if False else W.I_make_ptr("void"), "EK_NilExpr")
    if t == "#str":
        n = W.child(name, "arr(0,3,char)", "EK_StringExpr")
        W.st.set(n, "val", "abcd")
        return n
    if t[0] == "#":
        return W.child(name, t[1:], "EK_CharExpr" if t == "#char" else "EK_IntegerExpr")
    return W.child(name, t, "EK_VariableExpr" if t.startswith(ADDRESSABLE) else "EK_BinaryExpr")

def binary(op, a, b):
    def f():
        W = World()
        l, r = mkchild(W, "L", a), mkchild(W, "R", b)
        n = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=l, rhs=r, oper=W.tok(op))
        res = W.checked(("BinaryExprAST::CodeGen", 0), n)
        return runner.summarize(W, res), W.meta("expr.cpp BinaryExprAST::CodeGen")
    return f

def unary(op, a):
    def f():
        W = World()
        n = W.node("UnaryExprAST", "EK_UnaryExpr", rhs=mkchild(W, "R", a), oper=W.tok(op))
        res = W.checked(("UnaryExprAST::CodeGen", 0), n)
        return runner.summarize(W, res), W.meta("expr.cpp UnaryExprAST::CodeGen")
    return f

def cases():
    c = {}
    for a, b in itertools.product(TYPES, TYPES):
        for op in OPS:
            c["%s %s %s" % (a, op, b)] = binary(op, a, b)
    for a, b in itertools.product(TYPES + EXTRA, TYPES + EXTRA):
        if a in EXTRA or b in EXTRA:
            for op in ("Plus", "Divide", "Div", "Pow", "And", "Shr", "And_Then", "Equal", "LessThan", "In", "SymDiff"):
                c["%s %s %s" % (a, op, b)] = binary(op, a, b)
    for a in TYPES + EXTRA:
        for op in ("Minus", "Not", "Plus"):
            c["%s %s" % (op, a)] = unary(op, a)
    return c

EXPLAIN = ("The type checker's visit and then the code generator of a BinaryExprAST / UnaryExprAST node with opaque operands are interpreted "
           "abstractly from the current source (clang AST; values are Herbrand terms, branch conditions are kept as facts, nothing is compiled or "
           "run), once per operator and operand type pair. The emitted blocks and instructions are rebuilt into a canonical control-flow graph and "
           "compared with the reviewed lowering table spec/C04.json.")
RULE = ("One obligation per (left type, operator, right type): every outcome (canonical graph, <rejected> or <internal error>) derivable under a "
        "condition must be the specified outcome under that condition. Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C04", "c04", argv, EXPLAIN, RULE)
