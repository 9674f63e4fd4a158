"""C11: sets. Operators, membership, constructors and conversions over the shapes of set types, and the set routines of the runtime library."""
from sa.world import *
from sa import runner, rt
from .c04 import mkchild
import itertools

SHAPES = ["set(0,0)", "set(1,10)", "set(-5,5)", "set(0,31)", "set(0,32)", "set(31,32)", "set(-40,70)", "set(0,511)", "set(0,255,char)", "set(97,122,char)", "set(0,1,bool)", "set(0,4,enum(5))", "set(0,39,enum(40))"]
OPS = ["Plus", "Minus", "Multiply", "SymDiff", "Equal", "NotEqual", "LessOrEqual", "GreaterOrEqual", "LessThan", "GreaterThan", "Divide", "In"]

def elem(t):
    a = t[4:-1].split(",", 2)
    return a[2] if len(a) > 2 else "int"

def World(*a, **k):
    from sa import world
    return world.World(*a, **dict({"unroll": 600}, **k))

def done(W, res, where):
    return runner.summarize(W, res), W.meta(where)

def num(W, v, t="int"):
    return W.node("IntegerExprAST", "EK_IntegerExpr", val=v, type=W.ty(t))

def item(W, i, x, t):
    """An element: 5 a constant, '-3' a negated constant, 'v' a computed value, 'v:sub(..)' of another type, (a, b) a range."""
    if isinstance(x, tuple):
        a, b = item(W, "%sl" % i, x[0], t), item(W, "%sh" % i, x[1], t)
        cs = [f for f in W.p.fns.values() if f.get("ctor") and f.get("cls") == "RangeExprAST" and len(f["p"]) == 3]
        n = W.node("RangeExprAST", "EK_RangeExpr", low=a, high=b)
        W.invoke(cs[0], n, (mk("loc"), a, b))
        return n
    if isinstance(x, int):
        return num(W, x, t)
    if x[0] == "-":
        n = W.node("UnaryExprAST", "EK_UnaryExpr", rhs=num(W, int(x[1:])), oper=W.tok("Minus"))
        W.st.set(n, "type", W.ty("int"))
        return n
    return W.child("V%s" % i, x[2:] or t, "EK_BinaryExpr")

def literal(W, items, t="int", to=None, nm=""):
    vs = [item(W, "%s%d" % (nm, i), x, t) for i, x in enumerate(items)]
    ty = W.ty(to) if to else W.make("Types::SetDecl", NULL, W.ty(t) if items else NULL)
    return W.node("SetExprAST", "EK_SetExpr", values=mk("vec", *vs), type=ty)

def operand(W, nm, x):
    if isinstance(x, str):
        return mkchild(W, nm, x)
    return literal(W, x, nm=nm)

def level(W, o):
    W.preset(optimization=W.p.enumconst[[k for k in W.p.enumconst if k.split("::")[-1] == o][0]])

def binary(op, a, b, o="O0"):
    def f():
        W = World()
        level(W, o)
        n = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=operand(W, "L", a), rhs=operand(W, "R", b), oper=W.tok(op))
        return done(W, W.checked(("BinaryExprAST::CodeGen", 0), n), "expr.cpp BinaryExprAST::CodeGen")
    return f

def chain(op1, op2, a, b, c):
    def f():
        W = World()
        level(W, "O1")
        n = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=operand(W, "L", a), rhs=operand(W, "R", b), oper=W.tok(op1))
        m = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=n, rhs=operand(W, "M", c), oper=W.tok(op2))
        return done(W, W.checked(("BinaryExprAST::CodeGen", 0), m), "expr.cpp BinaryExprAST::CodeGen")
    return f

def member(t, r):
    def f():
        W = World()
        n = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=mkchild(W, "L", t), rhs=operand(W, "R", r), oper=W.tok("In"))
        return done(W, W.checked(("BinaryExprAST::CodeGen", 0), n), "expr.cpp BinaryExprAST::SetCodeGen")
    return f

def ctor(items, t, to):
    def f():
        W = World()
        n = literal(W, items, t, to)
        return done(W, W.checked(("SetExprAST::Address", 0), n), "expr.cpp SetExprAST::Address")
    return f

def assign(a, b):
    def f():
        W = World()
        l = W.child("L", a, "EK_VariableExpr")
        W.st.set(l, "flags", 0)
        n = W.node("AssignExprAST", "EK_AssignExpr", lhs=l, rhs=operand(W, "R", b))
        return done(W, W.checked(("AssignExprAST::CodeGen", 0), n), "expr.cpp AssignExprAST::AssignSet")
    return f

def assignop(a, op, b, c):
    def f():
        W = World()
        l = W.child("L", a, "EK_VariableExpr")
        W.st.set(l, "flags", 0)
        m = W.node("BinaryExprAST", "EK_BinaryExpr", lhs=operand(W, "M", b), rhs=operand(W, "R", c), oper=W.tok(op))
        n = W.node("AssignExprAST", "EK_AssignExpr", lhs=l, rhs=m)
        return done(W, W.checked(("AssignExprAST::CodeGen", 0), n), "expr.cpp AssignExprAST::AssignSet")
    return f

def routine(kind, fn, words):
    def f():
        W = World(program(kind), unroll=600)
        args = [sym(n) for n in ("RES", "A", "B")]
        for a in args:
            NNSYM.add(a)
        g = W.p.fn(fn)
        args = args[len(args) - (len(g["p"]) - 1):]
        r = W.run(fn, None, tuple(args) + (words,))
        return rt.sums(W, r), W.meta("runtime/set.c " + fn)
    return f

LISTS = [[], [0], [31], [32], [5, 5], [(0, 31)], [(30, 33)], [(0, 511)], [(7, 3)], ["v"], ["v", 3], [3, "v", (5, 9)], [("v", 9)], [(2, "v")], [("v", "v")], ["v", ("v", "v")], ["-3"], [("-3", 3)], [("-3", "v")], [100, 300],
         [1000], ["v", -3], ["v:sub(-5,5)"], ["v:sub(-5,5)", "v:sub(1,10)"], [("v:sub(-5,5)", "v:sub(1,10)")], ["v", "v:long"], ["v:long"], ["v:real"], ["v", "v:char"], [(1, "v:char")], [("v:char", 1)], [0, 600], [(-300, 300)], ["v:sub(0,600)"]]
TYPED = [("int", "set(0,31)"), ("int", "set(-5,5)"), ("int", "set(0,99)"), ("int", "set(31,32)"), ("int", None)]

def cases():
    c = {}
    for a in SHAPES:
        for op in OPS:
            for o in ("O0", "O1"):
                c["%s %s %s" % (a, op, o)] = binary(op, a, a, o)
    for a, b in itertools.permutations(SHAPES, 2):
        for op in ("Plus", "Equal"):
            c["%s %s %s" % (a, op, b)] = binary(op, a, b)
    for a in SHAPES:
        c["in %s" % a] = member(elem(a), a)
        for t in ("int", "long", "char", "bool", "real", "enum(3)", "sub(-5,10)", "sub(97,122,char)"):
            c["%s in %s" % (t, a)] = member(t, a)
    for t in ("int", "char", "sub(-5,10)", "long", "real"):
        for r in ([], [3], ["v"], [900, 1000], ["-3", 3], ["v:sub(1,10)"], ["v:char"], ["v:long"], [(1, "v")]):
            c["%s in %s" % (t, r)] = member(t, r)
    for l in LISTS:
        for t, to in TYPED:
            c["[%s] of %s" % (l, to or t)] = ctor(l, t, to)
    for l in ([], [0], [255], ["v"], [(65, 90)], [("v", "v")], [(250, "v")]):
        for to in ("set(0,255,char)", "set(97,122,char)", None):
            c["char [%s] of %s" % (l, to)] = ctor(l, "char", to)
    for l in ([], [0], [4], ["v"], [("v", "v")], [(1, "v")]):
        for t, to in (("enum(5)", "set(0,4,enum(5))"), ("enum(40)", "set(0,39,enum(40))"), ("bool", "set(0,1,bool)"), ("enum(5)", None), ("bool", None)):
            c["%s [%s] of %s" % (t, l, to)] = ctor(l, t, to)
    for a, b in itertools.product(SHAPES, SHAPES):
        c["%s := %s" % (a, b)] = assign(a, b)
    for a in SHAPES[:8]:
        for l in ([], [3], ["v"], [700], ["-3"], [("v", 4)], ["v:char"]):
            c["%s := %s" % (a, l)] = assign(a, l)
        for b in ("set(1,10)", "set(-40,70)"):
            for l in ([], [3], ["v"], [700], ["-3"], ["v:char"]):
                for op in ("Plus", "Equal", "LessOrEqual"):
                    c["%s %s %s" % (b, op, l)] = binary(op, b, l)
                    c["%s %s %s" % (l, op, b)] = binary(op, l, b)
            for op in ("Plus", "Multiply"):
                for d in ("set(1,10)", "set(-5,5)"):
                    c["%s := %s %s %s" % (a, b, op, d)] = assignop(a, op, b, d)
    for l, m in itertools.product(([], [3], ["v"], ["-3"], [700]), repeat=2):
        c["%s Plus %s" % (l, m)] = binary("Plus", l, m)
        c["%s Equal %s" % (l, m)] = binary("Equal", l, m)
    c["chain"] = chain("Plus", "Minus", "set(1,10)", "set(-5,5)", [20])
    c["chain2"] = chain("Multiply", "Equal", "set(1,10)", [50], [])
    for kind in ("c64", "c32"):
        for fn in ("__SetEqual", "__SetUnion", "__SetDiff", "__SetIntersect", "__SetSymDiff", "__SetContains"):
            for w in (1, 2, 3, 16):
                c["%s %s %d" % (kind, fn, w)] = routine(kind, fn, w)
    return c

EXPLAIN = ("The type checker's accept and the code generator of set operators, 'in', set constructors, set assignments and conversions between set ranges are "
           "interpreted abstractly from the current source over shapes of set types (one word, several words, negative start, word boundaries, the largest set, every kind of "
           "base type) and over lists of constants, computed values and ranges; the set routines of the runtime library are interpreted on symbolic words for each number of words. "
           "The emitted graphs and the effects are compared with the reviewed table spec/C11.json.")
RULE = ("One obligation per (operator or construct, operand shapes, optimisation level) and per (routine, number of words, data model): every outcome (canonical graph, effects, <rejected> or "
        "<internal error>) derivable under a condition must be the specified outcome under that condition. Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C11", "c11", argv, EXPLAIN, RULE)
