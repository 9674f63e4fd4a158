"""C07: read and write. Every kind of read/write over argument types, field widths and file types."""
from sa.world import *
from sa import runner
from .c04 import mkchild

ARGS = ["int", "long", "char", "bool", "real", "complex", "enum(3)", "sub(1,10)", "sub(1,10,long)", "sub(97,122,char)", "sub(0,1,enum(3))", "sub(0,1,bool)", "ptr(int)",
        "str(10)", "str(255)", "arr(1,8,char)", "arr(0,3,int)", "arr2(0,3,0,3,char)", "set(0,31)", "rec(int)", "text", "file(int)", "#int", "#long", "#char", "#str", "#nil"]
FILES = ["int", "long", "real", "char", "bool", "enum(3)", "sub(1,10)", "str(10)", "rec(int)", "arr(1,8,char)", "arr(0,3,int)", "complex", "set(0,31)"]

def kind(W, cls, k):
    for n, v in W.p.enumconst.items():
        if n.endswith("%s::%s" % (cls, k)):
            return v
    raise AnalysisError("no enumerator %s::%s" % (cls, k))

def child(W, name, t):
    if t.startswith("="):
        # a value that is not a variable
        return W.child(name, t[1:], "EK_BinaryExpr")
    if t.startswith("@"):
        return W.child(name, t[1:], "EK_ArrayExpr")
    if t[0] == "#":
        return mkchild(W, name, t)
    return W.child(name, t, "EK_VariableExpr")

def write(k, dest, args):
    def f():
        W = World()
        d = W.child("F", dest, "EK_VariableExpr")
        al = []
        for i, (t, w, p) in enumerate(args):
            o = W.I.newobj(W.st, "WriteAST::WriteArg")
            W.st.set(o, "expr", child(W, "A%d" % i, t))
            W.st.set(o, "width", child(W, "W%d" % i, w) if w else NULL)
            W.st.set(o, "precision", child(W, "P%d" % i, p) if p else NULL)
            al.append(o)
        n = W.node("WriteAST", "EK_Write", dest=d, args=mk("vec", *al), **{"kind@WriteAST": kind(W, "WriteKind", k)})
        res = W.checked(("WriteAST::CodeGen", 0), n)
        return runner.summarize(W, res, value=False), W.meta("expr.cpp WriteAST::CodeGen")
    return f

def read(k, src, args):
    def f():
        W = World()
        d = W.child("F", src, "EK_VariableExpr")
        n = W.node("ReadAST", "EK_Read", src=d, args=mk("vec", *[child(W, "A%d" % i, t) for i, t in enumerate(args)]), **{"kind@ReadAST": kind(W, "ReadKind", k)})
        res = W.checked(("ReadAST::CodeGen", 0), n)
        return runner.summarize(W, res, value=False), W.meta("expr.cpp ReadAST::CodeGen")
    return f

def cases():
    c = {}
    for k, d in [("Write", "text"), ("WriteLn", "text"), ("WriteStr", "str(10)"), ("WriteStr", "str(255)")]:
        c["%s %s" % (k, d)] = write(k, d, [])
        for t in ARGS + ["=int", "=char", "=real", "=bool", "=str(10)", "=enum(3)", "@char", "@real", "@str(10)"]:
            for w in [None, "int", "#int", "long", "real", "sub(1,10)"]:
                for p in ([None, "#int", "int", "long", "real", "sub(1,10)"] if w in ("int", "#int") else [None]):
                    c["%s %s (%s%s%s)" % (k, d, t, ":" + w if w else "", ":" + p if p else "")] = write(k, d, [(t, w, p)])
        c["%s %s multi" % (k, d)] = write(k, d, [("int", None, None), ("real", "int", "#int"), ("str(10)", None, None), ("char", "#int", None)])
    for e in FILES:
        for t in FILES + ["=int", "=real", "=char", "#int", "#char", "@int", "sub(0,5)"]:
            c["Write file(%s) (%s)" % (e, t)] = write("Write", "file(%s)" % e, [(t, None, None)])
            c["Read file(%s) (%s)" % (e, t)] = read("Read", "file(%s)" % e, [t])
        c["Write file(%s) ()" % e] = write("Write", "file(%s)" % e, [])
        c["Write file(%s) 2" % e] = write("Write", "file(%s)" % e, [(e, None, None), (e, None, None)])
        c["Write file(%s) width" % e] = write("Write", "file(%s)" % e, [(e, "int", None)])
        c["WriteLn file(%s)" % e] = write("WriteLn", "file(%s)" % e, [(e, None, None)])
        c["ReadLn file(%s)" % e] = read("ReadLn", "file(%s)" % e, [e])
        c["Read file(%s) 2" % e] = read("Read", "file(%s)" % e, [e, e])
        c["Read file(%s) ()" % e] = read("Read", "file(%s)" % e, [])
    for k, d in [("Read", "text"), ("ReadLn", "text"), ("ReadStr", "str(10)"), ("ReadStr", "str(255)")]:
        c["%s %s" % (k, d)] = read(k, d, [])
        for t in ARGS + ["=int", "=char", "=str(10)", "@char", "@real", "@str(10)", "@int", "@arr(1,8,char)"]:
            c["%s %s (%s)" % (k, d, t)] = read(k, d, [t])
        c["%s %s multi" % (k, d)] = read(k, d, ["int", "real", "str(10)", "char"])
    for d in ["int", "str(10)", "rec(int)", "real"]:
        for k in ("Write", "WriteLn", "WriteStr"):
            c["%s on %s" % (k, d)] = write(k, d, [("int", None, None)])
        for k in ("Read", "ReadLn", "ReadStr"):
            c["%s on %s" % (k, d)] = read(k, d, ["int"])
    return c

EXPLAIN = ("The type checker's visit and then the code generator of a ReadAST / WriteAST node with opaque operands are interpreted abstractly from the "
           "current source, once per kind of read or write, destination, argument type, width and precision. The emitted calls are compared with the reviewed table "
           "spec/C07.json (routine, file, value or address, width, precision, in order; the end-of-line call).")
RULE = ("One obligation per read/write shape: every derivable outcome (canonical graph, <rejected> or <internal error>) under a condition is the specified one. "
        "Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C07", "c07", argv, EXPLAIN, RULE)
