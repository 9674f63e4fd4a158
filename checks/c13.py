"""C13: predefined names. The name table, argument checks and lowering of every builtin over numbers and types of arguments."""
from sa.world import *
from sa import runner
from .c04 import mkchild
from . import c07
import itertools

NAMES = """abs odd sqr round trunc random randomize chr ord succ pred new dispose halt length popcnt card assign panic clock cycles paramcount paramstr
copy substr trim index max min sign inc dec pack unpack val sqrt sin cos ln exp arctan tan arctan2 fmod reset page rewrite append close get put eof eoln
gettimestamp time date unbind binding bind seekwrite seekread seekupdate empty position lastposition eq ne le ge lt gt cmplx re im arg polar frac int""".split()

TYPES = ["int", "long", "char", "bool", "real", "complex", "enum(3)", "sub(1,10)", "sub(-5,10,long)", "sub(97,122,char)", "sub(0,1,enum(3))", "str(10)", "arr(1,8,char)", "arr(0,3,int)", "set(0,31)", "set(0,99)",
         "ptr(int)", "ptr(rec(int))", "text", "file(int)", "file(rec(int))", "rec(int)", "#int", "#char", "#str", "#nil", "=int", "=real", "=complex", "=str(10)", "=set(0,31)", "=ptr(int)", "=text", "@int", "@complex", "@text", "timestamp", "=timestamp", "binding"]
SHORT = ["int", "long", "char", "real", "complex", "bool", "sub(1,10)", "enum(3)", "str(10)", "arr(1,8,char)", "text", "=text", "file(int)", "#str", "binding", "=int", "=real"]

# builtins whose second (third) argument matters
PAIRS = {"succ": 2, "pred": 2, "assign": 2, "copy": 3, "substr": 3, "index": 2, "max": 2, "min": 2, "val": 2, "arctan2": 2, "fmod": 2, "bind": 2, "seekwrite": 2, "seekread": 2,
         "seekupdate": 2, "eq": 2, "ne": 2, "le": 2, "ge": 2, "lt": 2, "gt": 2, "cmplx": 2, "polar": 2, "pack": 3, "unpack": 3}
ARRS = ["arr(1,8,char)", "arr(0,7,char)", "arr(1,8,int)", "arr(-2,5,int)", "arr(1,4,int)", "arr2(0,3,0,3,int)", "int", "@arr(1,8,int)"]

def arg(W, nm, t):
    if t.endswith("timestamp") or t == "binding":
        fn = "Types::GetTimeStampType" if t.endswith("timestamp") else "Types::GetBindingType"
        if fn not in W.tcache:
            W.tcache[fn] = W.invoke(W.p.fn(fn), None)
        return W.child(nm, W.tcache[fn], "EK_BinaryExpr" if t[0] == "=" else "EK_VariableExpr")
    return c07.child(W, nm, t)

_base = []
def world():
    """A world in which InitBuiltins has run."""
    if not _base:
        B = World()
        B.preset(**{"Builtin::BIFMap": mk("map")})
        B.invoke(B.p.fn("Builtin::InitBuiltins"), None)
        _base.append(B)
    B = _base[0]
    W = World()
    W.preset(**B.I.presets)
    W.adopt(B.st.copy())
    W.tcache = dict(B.tcache)
    W.I.lams = dict(B.I.lams)
    return W

def call(name, ts):
    def f():
        W = world()
        g = sym("INPUT")
        NNSYM.add(g)
        W.stack("variables@expr.cpp", {"input": g})
        a = [arg(W, "A%d" % i, t) for i, t in enumerate(ts)]
        r = W.run("Builtin::CreateBuiltinFunction", None, (name, mk("vec", *a)))
        if len(r) != 1 or r[0][0] != "r":
            return runner.summarize(W, r, value=False), W.meta("builtin.cpp CreateBuiltinFunction")
        bif, s = r[0][1], r[0][2]
        W.adopt(s)
        cs = [f for f in W.p.fns.values() if f.get("ctor") and f.get("cls") == "BuiltinExprAST" and len(f["p"]) == 2]
        if len(cs) != 1:
            raise AnalysisError("constructor of BuiltinExprAST")
        node = W.I.newobj(W.st, "BuiltinExprAST")
        r = W.run(cs[0], node, (sym("loc"), bif))
        if len(r) != 1 or r[0][0] != "r":
            return runner.summarize(W, r, value=False), W.meta("builtin.cpp %s" % name)
        W.adopt(r[0][2])
        W.st.set(node, "__cls", "BuiltinExprAST")
        res = W.checked(("BuiltinExprAST::CodeGen", 0), node)
        # the result type is part of the outcome
        def text(v, s, r):
            rs = W.I.run(W.p.fn("ExprAST::Type"), node, (), s.copy())
            ty = rs[0][1] if len(rs) == 1 else None
            return r.text + "\n: " + tname(W, s, ty)
        return runner.summarize(W, res, text=text), W.meta("builtin.cpp %s" % name)
    return f

def tname(W, s, ty):
    c = W.I.cls(s, ty) or str(ty)
    c = c.replace("Types::", "").replace("IntegerXDecl<32, TypeDecl::TK_Integer>", "Int32").replace("IntegerXDecl<64, TypeDecl::TK_LongInt>", "Int64")
    for k, f in (("RangeDecl", "baseType"), ("SetDecl", "baseType"), ("PointerDecl", "baseType"), ("ArrayDecl", "baseType")):
        if c == k:
            b = s.get(ty, f)
            if isinstance(b, T):
                return "%s of %s" % (c, tname(W, s, b))
    return c

def cases():
    c = {}
    for n in NAMES:
        c["%s()" % n] = call(n, [])
        for t in TYPES:
            c["%s(%s)" % (n, t)] = call(n, [t])
        k = PAIRS.get(n, 1)
        if n in ("pack", "unpack"):
            for a, b in itertools.product(ARRS, ARRS):
                for i in ("int", "char", "long", "sub(1,10)"):
                    ts = [a, i, b] if n == "pack" else [a, b, i]
                    c["%s(%s)" % (n, "; ".join(ts))] = call(n, ts)
            continue
        two = TYPES if k >= 2 else ["int", "str(10)"]
        for a, b in itertools.product(SHORT if k >= 2 else ["int", "real", "text", "str(10)", "ptr(int)"], two):
            c["%s(%s; %s)" % (n, a, b)] = call(n, [a, b])
        if k == 3:
            for a in SHORT:
                for b in ("int", "long", "sub(1,10)", "char"):
                    for d in TYPES:
                        c["%s(%s; %s; %s)" % (n, a, b, d)] = call(n, [a, b, d])
        else:
            for a in ("int", "real", "str(10)", "text"):
                c["%s(%s; int; int)" % (n, a)] = call(n, [a, "int", "int"])
        c["%s 4" % n] = call(n, ["str(10)" if k == 3 else "int", "int", "int", "int"])
    for n in ("Abs", "SQRT", "ArcTan", "WriteLn", "Foo", "mod"):
        c["%s(=real)" % n] = call(n, ["=real"])
    return c

EXPLAIN = ("The table of predefined names is built by interpreting InitBuiltins; for every name and every list of argument types the call object, its argument check "
           "(Semantics) and, when accepted, its code generator are interpreted abstractly from the current source. The outcome (emitted instructions, value, result type, <rejected>) "
           "is compared with the reviewed table spec/C13.json.")
RULE = ("One obligation per name and argument list: every derivable outcome under a condition is the specified one; an unknown name or a missing check shows as <internal error> or as another "
        "outcome. Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C13", "c13", argv, EXPLAIN, RULE)
