"""C05: structured statements. Every statement class over its shapes and operand types."""
from sa.world import *
from sa import runner
from .c04 import mkchild

def done(W, res, where):
    return runner.summarize(W, res, value=False, drop=("setfield",)), W.meta(where)

def gen(W, n, cls):
    return done(W, W.checked((cls + "::CodeGen", 0), n), "expr.cpp %s::CodeGen" % cls)

def block(k):
    def f():
        W = World()
        return gen(W, W.node("BlockAST", "EK_Block", content=mk("vec", *[W.child("S%d" % i, "void", "EK_IfExpr") for i in range(k)])), "BlockAST")
    return f

def iff(t, then, other):
    def f():
        W = World()
        n = W.node("IfExprAST", "EK_IfExpr", cond=mkchild(W, "C", t), then=W.child("T", "void", "EK_IfExpr") if then else NULL,
                   other=W.child("E", "void", "EK_IfExpr") if other else NULL)
        return gen(W, n, "IfExprAST")
    return f

def loop(cls, kind, t):
    def f():
        W = World()
        return gen(W, W.node(cls, kind, cond=mkchild(W, "C", t), body=W.child("B", "void", "EK_IfExpr")), cls)
    return f

def forto(vt, st, et, down):
    def f():
        W = World()
        v = W.child("V", vt, "EK_VariableExpr")
        W.st.set(v, "name", "v")
        n = W.node("ForExprAST", "EK_ForExpr", variable=v, start=mkchild(W, "S", st), end=mkchild(W, "E", et), stepDown=down, body=W.child("B", "void", "EK_IfExpr"))
        return gen(W, n, "ForExprAST")
    return f

def forin(vt, ct):
    def f():
        W = World()
        v = W.child("V", vt, "EK_VariableExpr")
        W.st.set(v, "name", "v")
        n = W.node("ForExprAST", "EK_ForExpr", variable=v, start=mkchild(W, "S", ct), end=NULL, stepDown=False, body=W.child("B", "void", "EK_IfExpr"))
        return gen(W, n, "ForExprAST")
    return f

def case(t, labels, other):
    def f():
        W = World()
        ls = []
        for i, vs in enumerate(labels):
            ls.append(W.node("LabelExprAST", "EK_LabelExpr", labelValues=mk("vec", *[mk("pair", a, b) for a, b in vs]), stmt=W.child("S%d" % i, "void", "EK_IfExpr")))
        o = W.child("O", "void", "EK_IfExpr") if other else NULL
        if other == 2:
            # as the parser builds it: the otherwise part is also a label without values
            ls.append(W.node("LabelExprAST", "EK_LabelExpr", labelValues=mk("vec"), stmt=o))
        n = W.node("CaseExprAST", "EK_CaseExpr", expr=mkchild(W, "X", t), labels=mk("vec", *ls), otherwise=o)
        return gen(W, n, "CaseExprAST")
    return f

def goto(seq):
    """A block of labels ('L1') and gotos ('G1') and statements ('S')."""
    def f():
        W = World()
        W.stack("labels@expr.cpp", {}, {})
        W.preset(caseInsensitive=1)
        c = []
        for i, s in enumerate(seq):
            if s[0] == "L":
                c.append(W.node("LabelExprAST", "EK_LabelExpr", labelValues=mk("vec", mk("pair", int(s[1:]), int(s[1:]))), stmt=NULL))
            elif s[0] == "G":
                c.append(W.node("GotoAST", "EK_Goto", dest=int(s[1:])))
            else:
                c.append(W.child("S%d" % i, "void", "EK_IfExpr"))
        return gen(W, W.node("BlockAST", "EK_Block", content=mk("vec", *c)), "BlockAST")
    return f

def cwith():
    W = World()
    return gen(W, W.node("WithExprAST", "EK_WithExpr", body=W.child("B", "void", "EK_IfExpr")), "WithExprAST")

ORD = ["int", "long", "char", "bool", "enum(3)", "sub(1,10)", "sub(97,122,char)", "real", "ptr(int)"]

def cases():
    c = {}
    for k in range(4):
        c["block %d" % k] = block(k)
    for t in ["bool", "int", "char", "real", "sub(0,1,bool)"]:
        for th in (0, 1):
            for el in (0, 1):
                c["if %s%s%s" % (t, " then" if th else "", " else" if el else "")] = iff(t, th, el)
        c["while %s" % t] = loop("WhileExprAST", "EK_WhileExpr", t)
        c["repeat %s" % t] = loop("RepeatExprAST", "EK_RepeatExpr", t)
    for v in ORD:
        for s in sorted({v, "int", "char", "#int", "#char", "real", "sub(1,10)"}):
            for e in sorted({s, v, "#int", "#char"}):
                for d in (False, True):
                    c["for %s := %s %s %s" % (v, s, "downto" if d else "to", e)] = forto(v, s, e, d)
    for v in ["int", "long", "char", "enum(3)", "sub(1,10)", "sub(97,122,char)", "bool", "real", "str(10)"]:
        for k in ["set(0,31)", "set(5,99)", "set(0,255,char)", "set(97,122,char)", "set(0,1,bool)", "set(0,2,enum(3))", "arr(1,8,char)", "arr(-2,3,int)", "arr(0,3,real)", "arr(0,3,str(10))", "arr(1,3,sub(1,10))", "str(10)",
                  "arr2(0,3,0,3,int)", "int", "rec(int)"]:
            c["for %s in %s" % (v, k)] = forin(v, k)
    for t in ["int", "long", "char", "bool", "enum(3)", "sub(1,10)", "real", "str(10)"]:
        for o in (0, 1, 2):
            for nm, ls in [("1", [[(1, 1)]]), ("0|1,2", [[(0, 0)], [(1, 1), (2, 2)]]), ("-3..4|7", [[(-3, 4)], [(7, 7)]]), ("0..32", [[(0, 32)]] if t != "bool" else [[(0, 1)]]), ("40..73", [[(40, 73)]]), ("-50..-10|-5..80,90|100..140", [[(-50, -10)], [(-5, 80), (90, 90)], [(100, 140)]]),
                           ("dup", [[(1, 1)], [(1, 1)]]), ("overlap", [[(1, 5)], [(5, 6)]]), ("", [])]:
                if t in ("char", "bool", "enum(3)") and nm[0:1] == "-" or t == "bool" and ("2" in nm or nm in ("40..73", "overlap")) and nm != "0..32":
                    continue
                c["case %s of %s%s" % (t, nm, ["", " otherwise", " otherwise label"][o])] = case(t, ls, o)
    for s in ["L1 S", "S G1 S L1 S", "L1 S G1", "G1 L2 S G3 L1 S G2 L3 S", "L1 G1", "S G1 G1 L1"]:
        c["goto %s" % s] = goto(s.split())
    c["with"] = cwith
    return c

EXPLAIN = ("The type checker's visit and then the code generator of each statement class, with opaque parts, are interpreted abstractly from the "
           "current source once per shape and operand type; the emitted blocks are rebuilt into a canonical control-flow graph and compared with the "
           "reviewed graphs in spec/C05.json.")
RULE = ("One obligation per statement shape: every derivable outcome (canonical graph, <rejected> or <internal error>) under a condition is the "
        "specified one. Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C05", "c05", argv, EXPLAIN, RULE)
