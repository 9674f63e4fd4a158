"""C20: with range checks on every index is compared with both bounds before the access, off none is; the element is index minus low bound."""
import json
from sa.whole import *
from sa import runner
from checks.c19 import layout, elem

WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w > 1 and v >> (w - 1) else v
def uns(v, w):
    return v & (1 << w) - 1

class Ev:
    """Values of emitted terms for given values of the variables: (number, width) or ('a', root, offset)."""
    def __init__(self, env):
        self.env = env
        self.mem = {}
    def ev(self, t):
        if isinstance(t, T):
            m = getattr(self, "e_" + t.op, None)
            if m:
                return m(t)
            if t.op in ("make:llvm::GlobalVariable", "CreateAlloca", "arg", "gvar", "CreateGlobalString"):
                return ("a", t, 0)
            if t.op.startswith("CreateICmp") and len(t.a) == 2:
                return self.cmp(t.op[10:], self.ev(t.a[0]), self.ev(t.a[1]))
        raise AnalysisError("value of %s" % str(t)[:150])
    def e_ci(self, t):
        w = WID[t.a[0].a[0]]
        return (sgn(t.a[1], w), w)
    def cmp(self, op, a, b):
        if a[0] == "a" or b[0] == "a":
            raise AnalysisError("comparison of addresses")
        if a[1] != b[1]:
            raise Width("a comparison of %d with %d bits" % (a[1], b[1]))
        w = a[1]
        x, y = (uns(a[0], w), uns(b[0], w)) if op[0] == "U" else (sgn(a[0], w), sgn(b[0], w))
        op = op.lstrip("US") if op not in ("EQ", "NE") else op
        return (int({"LT": x < y, "LE": x <= y, "GT": x > y, "GE": x >= y, "EQ": x == y, "NE": x != y}[op]), 1)
    def e_CreateICmp(self, t):
        raise AnalysisError("comparison %s" % str(t)[:100])
    def two(self, t, f):
        a, b = self.ev(t.a[0]), self.ev(t.a[1])
        if a[0] == "a" or b[0] == "a":
            raise AnalysisError("arithmetic on addresses")
        if a[1] != b[1]:
            raise Width("an operation on %d and %d bits" % (a[1], b[1]))
        return (sgn(f(a[0], b[0]), a[1]), a[1])
    def e_CreateAdd(self, t):
        return self.two(t, lambda a, b: a + b)
    def e_CreateSub(self, t):
        return self.two(t, lambda a, b: a - b)
    def e_CreateMul(self, t):
        return self.two(t, lambda a, b: a * b)
    def e_CreateOr(self, t):
        return self.two(t, lambda a, b: a | b)
    def e_CreateAnd(self, t):
        return self.two(t, lambda a, b: a & b)
    def e_CreateXor(self, t):
        return self.two(t, lambda a, b: a ^ b)
    e_CreateLogicalOr, e_CreateLogicalAnd = e_CreateOr, e_CreateAnd
    def e_CreateNot(self, t):
        a = self.ev(t.a[0])
        return (sgn(~a[0], a[1]), a[1])
    def e_CreateNeg(self, t):
        a = self.ev(t.a[0])
        return (sgn(-a[0], a[1]), a[1])
    def e_CreateSelect(self, t):
        return self.ev(t.a[1] if self.ev(t.a[0])[0] & 1 else t.a[2])
    def ext(self, t, signed):
        a = self.ev(t.a[0])
        w = WID[t.a[1].a[0]]
        return (sgn(sgn(a[0], a[1]) if signed and a[1] > 1 else -(a[0] & 1) if signed else uns(a[0], a[1]), w), w)
    def e_CreateSExt(self, t):
        return self.ext(t, True)
    def e_CreateZExt(self, t):
        return self.ext(t, False)
    def e_CreateTrunc(self, t):
        return self.ext(t, True)
    e_CreateIntCast = e_CreateSExt
    def e_CreateSExtOrTrunc(self, t):
        return self.ext(t, True)
    def e_CreateZExtOrTrunc(self, t):
        return self.ext(t, False)
    def e_CreateBitCast(self, t):
        return self.ev(t.a[0])
    def e_CreateGEP(self, t):
        b = self.ev(t.a[1])
        if b[0] != "a":
            raise AnalysisError("element of a number")
        o = b[2]
        idx = t.a[2].a if isinstance(t.a[2], T) and t.a[2].op == "vec" else [t.a[2]]
        ty = t.a[0]
        for n, x in enumerate(idx):
            k = self.ev(x)
            # element addresses take the index as signed
            v = sgn(k[0], k[1])
            if n == 0:
                o += v * layout(ty)[0] if v else 0
            else:
                offs = layout(ty)[2]
                o += v * offs[1] if offs and offs[0] == "arr" else offs[v]
                ty = elem(ty, v)
        return ("a", b[1], o)
    def e_CreateLoad(self, t):
        a = self.ev(t.a[1])
        if a in self.mem:
            return self.mem[a]
        r = a[1]
        if isinstance(r, T) and r.op.startswith("make:") and a[2] == 0:
            nm = [x for x in r.a if isinstance(x, str) and x]
            if nm and nm[0] in self.env and t.a[0].op == "lty" and t.a[0].a[0] in WID:
                w = WID[t.a[0].a[0]]
                return (sgn(self.env[nm[0]], w), w)
        if t.a[0].op == "lty" and t.a[0].a[0] == "ptr":
            return ("a", mk("loaded", r, a[2]), 0)
        if ("#elem", r) in self.env and t.a[0].a[0] in WID:
            return (self.env[("#elem", r)], WID[t.a[0].a[0]])
        nm = [x for x in r.a if isinstance(x, str) and x] if isinstance(r, T) else []
        if nm and "*" + nm[0] in self.env:
            return (self.env["*" + nm[0]], WID[t.a[0].a[0]])
        raise AnalysisError("what is loaded from %s" % str(a)[:120])

class Width(Exception):
    pass

class Fn:
    """The emitted blocks of one routine."""
    def __init__(self, P, name):
        self.P, self.blocks, self.name = P, {}, name
        cur, first = None, None
        fn = None
        for e in P.effects:
            if e[0] == "SetInsertPoint":
                cur = e[1][0]
                f = P.final.get(cur, "#fn")
                fn = f.a[0] if isinstance(f, T) and f.op == "rtfn" else None
                if fn == name:
                    self.blocks.setdefault(cur, [])
                    first = first or cur
            elif fn == name and cur is not None and e[0] not in ("setfield",):
                self.blocks[cur].append((e[0], tuple(norm(x) for x in e[1]), norm(e[2])))
        self.entry = first

# index types: name, declaration text, width limits, list of (low text, high text, low, high)
TYPES = {
    "integer": ("", "integer", (-2**31, 2**31 - 1), [("3", "7", 3, 7), ("0", "9", 0, 9), ("- 5", "5", -5, 5), ("1", "1", 1, 1), ("- 9", "- 2", -9, -2), ("100", "250", 100, 250)]),
    "char": ("", "char", (0, 255), [("'a'", "'e'", 97, 101), ("'!'", "'~'", 33, 126)]),
    "boolean": ("", "boolean", (0, 1), [("false", "true", 0, 1), ("true", "true", 1, 1), ("false", "false", 0, 0)]),
    "colour": ("type colour = ( red , green , blue , black ) ; ", "colour", (0, 3), [("green", "blue", 1, 2), ("red", "black", 0, 3)]),
    "part": ("type part = 2 .. 90 ; ", "part", (-2**31, 2**31 - 1), [("2", "90", 2, 90), ("10", "20", 10, 20)]),
    "longint": ("", "longint", (-2**63, 2**63 - 1), [("3", "7", 3, 7), ("- 4", "4", -4, 4)]),
}

# (name, types of the element, routine with the access, text of the statement; the access marks: store of 77 or a use)
CONTEXTS = {
    "assignment": ("integer", "v [ i ] := 77"),
    "use": ("integer", "z := v [ i ]"),
    "operand": ("integer", "z := 5 + v [ i ]"),
    "condition": ("integer", "if v [ i ] = 1 then z := 5"),
    "var argument": ("integer", "q ( v [ i ] )"),
    "value argument": ("integer", "qv ( v [ i ] )"),
    "write": ("integer", "writeln ( v [ i ] )"),
    "write width": ("integer", "writeln ( z : v [ i ] )"),
    "read": ("integer", "read ( v [ i ] )"),
    "builtin": ("integer", "z := sqr ( v [ i ] )"),
    "field": ("rr", "v [ i ] . f := 77"),
    "with": ("rr", "with v [ i ] do f := 77"),
    "pointer": ("pi", "v [ i ] ^ := 77"),
    "case": ("integer", "case v [ i ] of 1 : z := 2 ; otherwise z := 3 ; end"),
    "while": ("integer", "while v [ i ] > 3 do z := 1"),
    "repeat": ("integer", "repeat z := 1 until v [ i ] > 3"),
    "loop bound": ("integer", "for z := v [ i ] to 3 do z2 := 1"),
    "in a set": ("integer", "if v [ i ] in [ 1 , 2 ] then z := 2"),
    "set member": ("chr9", "st := [ v [ i ] ]"),
    "ord": ("char", "z := ord ( v [ i ] )"),
    "succ": ("integer", "z := succ ( v [ i ] )"),
    "new": ("pi", "new ( v [ i ] )"),
    "negation": ("integer", "z := - v [ i ]"),
    "array assignment": ("row", "v [ i ] := r1"),
    "return value": ("integer", "z := fn ( 1 )"),
    "in a local routine": ("integer", "lp"),
    "function argument": ("integer", "z := fv ( v [ i ] )"),
}
SIZES = {"integer": 4, "rr": 12, "pi": 8, "char": 1, "row": 12, "chr9": 4}
def head(tdecl, itype, lo, hi, et, extra=""):
    return ("program p ; %stype rr = record e : integer ; f : integer ; g : integer end ; pi = ^ integer ; row = array [ 1 .. 3 ] of integer ; chr9 = 0 .. 9 ; sett = set of chr9 ; "
            "var v : array [ %s .. %s ] of %s ; i : %s ; z , z2 : integer ; r1 : row ; st : sett ; %s" % (tdecl, lo, hi, et, itype, extra))
ROUT = ("procedure q ( var x : integer ) ; begin x := 1 end ; procedure qv ( x : integer ) ; begin z2 := x end ; function fv ( x : integer ) : integer ; begin fv := x end ; ")

def progtext(tdecl, itype, lo, hi, ctx):
    et, stmt = CONTEXTS[ctx]
    r = ROUT
    if ctx == "return value":
        r += "function fn ( x : integer ) : integer ; begin fn := v [ i ] end ; "
    if ctx == "in a local routine":
        r += "procedure lp ; procedure inner ; begin v [ i ] := 77 end ; begin inner end ; "
    return head(tdecl, itype, lo, hi, et) + r + "begin %s end ." % stmt

def points(lo, hi, lim):
    ps = {lo - 1, lo, lo + 1, (lo + hi) // 2, hi - 1, hi, hi + 1, lim[0], lim[1], lim[0] + 1, lim[1] - 1, 0, -1, 1, lo + 256, hi - 256, lo + 2**32, hi - 2**32, lo + 2**31, hi + 2**31, lo - 2**31, hi - 2**31, lo - 256, lo + 65536, 127, 128, 255}
    return sorted(p for p in ps if lim[0] <= p <= lim[1])

def isv(ev, t):
    """The address of (a part of) v."""
    try:
        a = ev.ev(t)
    except AnalysisError as e:
        return None
    if a[0] == "a" and isinstance(a[1], T):
        r = a[1]
        if r.op.startswith("make:") and "v" in [x for x in r.a if isinstance(x, str)]:
            return a
    return None

def accessor(ev, op, a, n, al):
    """The first access of the array."""
    if op == "CreateStore":
        for t in (a[1], a[0]):
            x = isv(ev, loadaddr(ev, t)) if t is a[0] else isv(ev, t)
            if x:
                return ("access", x[2])
    elif op == "CreateCall" or op.startswith("CreateMem"):
        for t in (al if al is not None else a):
            x = isv(ev, t) or isv(ev, loadaddr(ev, t))
            if x:
                return ("access", x[2])
    elif op == "CreateLoad":
        x = isv(ev, a[1])
        if x:
            return ("access", x[2])
    elif op in ("CreateCondBr", "CreateSwitch"):
        pass
    return None

def loadaddr(ev, t):
    """The address behind a loaded value, also inside an expression."""
    todo, k = [t], 0
    while todo and k < 60:
        x = todo.pop()
        k += 1
        if isinstance(x, T):
            if x.op == "CreateLoad" and isv(ev, x.a[1]):
                return x.a[1]
            todo.extend(y for y in x.a if isinstance(y, T))
    return t

def usesv(P, ev, t):
    x = isv(ev, loadaddr(ev, t))
    return x

class Run(Fn):
    def run(self, env, limit=400):
        ev = Ev(env)
        b = self.entry
        while limit:
            limit -= 1
            nxt = None
            for op, a, r in self.blocks.get(b, []):
                if op in ("CreateCondBr", "CreateSwitch"):
                    x = usesv(self.P, ev, a[0])
                    if x:
                        return ("access", x[2])
                    if op == "CreateSwitch":
                        raise AnalysisError("switch")
                    nxt = a[1] if ev.ev(a[0])[0] & 1 else a[2]
                    break
                if op == "CreateBr":
                    nxt = a[0]
                    break
                if op == "CreateUnreachable":
                    return ("unreachable",)
                if op in ("CreateRet", "CreateRetVoid"):
                    x = usesv(self.P, ev, a[0]) if a else None
                    return ("access", x[2]) if x else ("end",)
                n = al = None
                if op == "CreateCall":
                    c = callee(a[0])
                    n = c.a[0] if isinstance(c, T) and c.op == "rtfn" else None
                    al = list(a[1].a)
                    if n == "range_error":
                        rest = [x[0] for x in self.blocks[b]]
                        return ("error", al, "CreateUnreachable" in rest[rest.index("CreateCall"):], ev)
                x = accessor(ev, op, a, n, al)
                if x:
                    return x
                if op == "CreateStore":
                    try:
                        k = ev.ev(a[1])
                        ev.mem[k] = ev.ev(a[0])
                    except AnalysisError:
                        pass
            if nxt is None:
                return ("end",)
            b = nxt
        raise AnalysisError("the program does not end")

def build(src, on):
    P = Whole(src, {"rangeCheck": on})
    if not P.all():
        return None, P.error
    return P, None

def routine(P, ctx):
    """The routine that has the access."""
    names = []
    for f, op, a, r in P.instrs:
        if f and f not in names:
            names.append(f)
    if ctx == "return value":
        return [n for n in names if n.endswith("fn")][0]
    if ctx == "in a local routine":
        return [n for n in names if n.endswith("inner")][0]
    return "__PascalMain"

def case(ty, ctx, ranges=None):
    def f():
        tdecl, itype, lim, rs = TYPES[ty]
        bad, n, src = [], 0, ""
        for lot, hit, lo, hi in (rs if ranges is None else rs[:ranges]):
            src = progtext(tdecl, itype, lot, hit, ctx)
            P, err = build(src, 1)
            if P is None:
                bad.append("range checks on, index of type %s, %s: not compiled: %s" % (ty, ctx, err))
                continue
            R = Run(P, routine(P, ctx))
            es = SIZES[CONTEXTS[ctx][0]]
            for p in points(lo, hi, lim):
                n += 1
                what = "array [%s..%s], index %d of type %s, %s" % (lot, hit, p, ty, ctx)
                try:
                    r = R.run({"i": p, "z": 5, "z2": 6, "*r1": 1})
                except Width as e:
                    bad.append("%s: the code has %s" % (what, e))
                    break
                if lo <= p <= hi:
                    if r[0] != "access":
                        bad.append("%s: the check fails (%s) though the index is within the bounds" % (what, r[0]))
                    elif not (p - lo) * es <= r[1] < (p - lo + 1) * es:
                        bad.append("%s: byte %d is accessed, the element begins at %d" % (what, r[1], (p - lo) * es))
                elif r[0] == "access":
                    bad.append("%s: byte %d is accessed without a check" % (what, r[1]))
                elif r[0] != "error":
                    bad.append("%s: ends as %s instead of with a range error" % (what, r[0]))
                else:
                    if not r[2]:
                        bad.append("%s: the program goes on after the range error" % what)
                    m = r[1]
                    if len(m) != 5:
                        bad.append("%s: the message gets %d values" % (what, len(m)))
                    else:
                        try:
                            vals = [r[3].ev(x) for x in m[1:]]
                            if vals[1][0] != lo or vals[2][0] != hi:
                                bad.append("%s: the message names the bounds %s and %s" % (what, vals[1][0], vals[2][0]))
                            if vals[3][0] != sgn(p, 32):
                                bad.append("%s: the message names the index %s" % (what, vals[3][0]))
                            if any(x[1] != 32 for x in vals):
                                bad.append("%s: the message's numbers have %s bits" % (what, [x[1] for x in vals]))
                        except Width as e:
                            bad.append("%s: the message has %s" % (what, e))
            # off: no check, same element
            P, err = build(src, 0)
            if P is None:
                bad.append("range checks off, index of type %s, %s: not compiled: %s" % (ty, ctx, err))
                continue
            n += 1
            if any(op == "CreateCall" and isinstance(callee(a[0]), T) and callee(a[0]).op == "rtfn" and callee(a[0]).a[0] == "range_error" for fn, op, a, r in P.instrs):
                bad.append("range checks off, %s: a check is generated" % ctx)
            R = Run(P, routine(P, ctx))
            for p in points(lo, hi, lim):
                if lo <= p <= hi:
                    n += 1
                    try:
                        r = R.run({"i": p, "z": 5, "z2": 6, "*r1": 1})
                    except Width as e:
                        bad.append("range checks off, %s: the code has %s" % (ctx, e))
                        break
                    if r[0] != "access" or not (p - lo) * es <= r[1] < (p - lo + 1) * es:
                        bad.append("range checks off, array [%s..%s], index %d, %s: %s, the element begins at %d" % (lot, hit, p, ctx, r[:2], (p - lo) * es))
        return [([json.dumps([bad, n, src]), []])], {"unknown": []}
    return f

# ---- several indices
MULTI = [
    ("v [ i , j ] := 77", "array [ 2 .. 5 , 0 .. 2 ] of integer", "integer", "integer", (2, 5), (0, 2), 4),
    ("v [ i ] [ j ] := 77", "array [ 2 .. 5 , 0 .. 2 ] of integer", "integer", "integer", (2, 5), (0, 2), 4),
    ("v [ i ] [ j ] := 77", "array [ - 2 .. 1 ] of array [ 1 .. 3 ] of integer", "integer", "integer", (-2, 1), (1, 3), 4),
    ("v [ i , j ] := 77", "array [ 'a' .. 'd' , 3 .. 4 ] of longint", "char", "integer", (97, 100), (3, 4), 8),
    ("v [ i , j ] := 77", "array [ 3 .. 4 , 'a' .. 'd' ] of integer", "integer", "char", (3, 4), (97, 100), 4),
    ("v [ i , j ] := 'x'", "array [ 'a' .. 'd' , 'f' .. 'h' ] of char", "char", "char", (97, 100), (102, 104), 1),
    ("v [ i , j ] := 77", "array [ boolean , 1 .. 4 ] of integer", "boolean", "integer", (0, 1), (1, 4), 4),
    ("v [ i , j ] := 77", "array [ 1 .. 4 , 1 .. 3 ] of integer", "longint", "integer", (1, 4), (1, 3), 4),
    ("v [ i , j ] := 77", "array [ 1 .. 4 , 1 .. 3 ] of integer", "integer", "longint", (1, 4), (1, 3), 4),
    ("v [ i , j , 2 ] := 77", "array [ 1 .. 4 , 1 .. 3 , 2 .. 2 ] of integer", "integer", "integer", (1, 4), (1, 3), 4),
    ("z := v [ i , j ]", "array [ 200 .. 203 , - 3 .. 1 ] of integer", "integer", "integer", (200, 203), (-3, 1), 4),
]
LIMS = {"integer": (-2**31, 2**31 - 1), "char": (0, 255), "boolean": (0, 1), "longint": (-2**63, 2**63 - 1)}
def multi(m):
    def f():
        stmt, decl, t1, t2, b1, b2, es = m
        src = "program p ; var v : %s ; i : %s ; j : %s ; z : integer ; begin %s end ." % (decl, t1, t2, stmt)
        bad, n = [], 0
        for on in (1, 0):
            P, err = build(src, on)
            if P is None:
                bad.append("%s with %s, %s: not compiled: %s" % (stmt, t1, t2, err))
                continue
            R = Run(P, "__PascalMain")
            for p in points(b1[0], b1[1], LIMS[t1]):
                for q in points(b2[0], b2[1], LIMS[t2]):
                    inr = b1[0] <= p <= b1[1] and b2[0] <= q <= b2[1]
                    if not on and not inr:
                        continue
                    n += 1
                    what = "%s, %s, indices %d (%s) and %d (%s)%s" % (stmt, decl, p, t1, q, t2, "" if on else ", range checks off")
                    try:
                        r = R.run({"i": p, "j": q, "z": 5})
                    except Width as e:
                        bad.append("%s with %s, %s: the code has %s" % (stmt, t1, t2, e))
                        break
                    if inr:
                        want = ((p - b1[0]) * (b2[1] - b2[0] + 1) + q - b2[0]) * es
                        if r[0] != "access":
                            bad.append("%s: the check fails though both are within the bounds" % what)
                        elif r[1] != want:
                            bad.append("%s: byte %d is accessed, the element begins at %d" % (what, r[1], want))
                    elif r[0] != "error":
                        bad.append("%s: no range error (%s)" % (what, r[:2]))
        return [([json.dumps([bad[:6], n, src]), []])], {"unknown": []}
    return f

# ---- conformant arrays: the bounds come with the argument
def conform(t, var, write, nested):
    def f():
        tdecl, itype, lim, rs = TYPES[t]
        stmt = "x [ i ] := 77" if write else "z := x [ i ]"
        inner = ("procedure inner ; begin %s end ; begin inner end" % stmt) if nested else "begin %s end" % stmt
        src = ("program p ; %svar i : %s ; z : integer ; w : array [ %s .. %s ] of integer ; procedure q ( %sx : array [ l .. h : %s ] of integer ) ; %s ; begin q ( w ) end ."
               % (tdecl, itype, rs[0][0], rs[0][1], "var " if var else "", itype, inner))
        bad, n = [], 0
        for on in (1, 0):
            P, err = build(src, on)
            if P is None:
                bad.append("conformant array indexed by %s: not compiled: %s" % (t, err))
                continue
            name = [x for x in [f for f, op, a, r in P.instrs if f] if x.endswith("inner" if nested else "q")][0]
            R = Conf(P, name)
            err_ = any(op == "CreateCall" and isinstance(callee(a[0]), T) and callee(a[0]).op == "rtfn" and callee(a[0]).a[0] == "range_error" for fn, op, a, r in P.instrs)
            if not on and err_:
                bad.append("range checks off, conformant array: a check is generated")
            for lot, hit, lo, hi in rs:
                for p in points(lo, hi, lim):
                    inr = lo <= p <= hi
                    if not on and not inr:
                        continue
                    n += 1
                    what = "conformant array with bounds %d..%d, index %d of type %s%s" % (lo, hi, p, t, "" if on else ", range checks off")
                    try:
                        r = R.run({"i": p, "z": 5, "#low": lo, "#high": hi})
                    except Width as e:
                        bad.append("conformant array indexed by %s: the code has %s" % (t, e))
                        break
                    if inr:
                        if r[0] != "access":
                            bad.append("%s: the check fails (%s)" % (what, r[0]))
                        elif r[1] != (p - lo) * 4:
                            bad.append("%s: byte %d is accessed, the element begins at %d" % (what, r[1], (p - lo) * 4))
                    elif r[0] != "error":
                        bad.append("%s: no range error (%s)" % (what, r[:2]))
        return [([json.dumps([bad[:6], n, src]), []])], {"unknown": []}
    return f

class ConfEv(Ev):
    """The descriptor {address, low, high} behind the parameter, wherever the parameter is kept."""
    def e_CreateLoad(self, t):
        a = self.ev(t.a[1])
        if a in self.mem:
            return self.mem[a]
        if a[0] == "a" and t.a[0].op == "lty":
            if t.a[0].a[0] == "ptr":
                return ("a", mk("loaded", a[1], a[2]), 0)
            if t.a[0].a[0] == "i32" and a[2] in (8, 12):
                return (self.env["#low" if a[2] == 8 else "#high"], 32)
            if t.a[0].a[0] == "i32" and a[2] == 0 and isinstance(a[1], T) and a[1].op == "loaded" and t.a[1].op == "CreateLoad":
                # captured: the closure holds the address of the bound itself
                return self.capt(a[1], t)
        return Ev.e_CreateLoad(self, t)
    def capt(self, r, t):
        g = t.a[1].a[1]
        if isinstance(g, T) and g.op == "CreateGEP" and isinstance(g.a[1], T) and g.a[1].op == "arg":
            k = ci_val(g.a[2].a[-1])
            out = set()
            for caller, args in self.P.calls.get(self.fn, []):
                for v, p in self.P.stores(caller):
                    if isinstance(p, T) and p.op == "CreateGEP" and p.a[1] == args[0] and ci_val(p.a[2].a[-1]) == k:
                        out.add(self.ev(v)[2])
            if len(out) == 1 and out <= {8, 12}:
                return (self.env["#low" if out == {8} else "#high"], 32)
        raise AnalysisError("captured bound")

class Conf(Run):
    def run(self, env, limit=400):
        ev = ConfEv(env)
        ev.P, ev.fn = self.P, self.name
        b = self.entry
        while limit:
            limit -= 1
            nxt = None
            for op, a, r in self.blocks.get(b, []):
                if op == "CreateCondBr":
                    nxt = a[1] if ev.ev(a[0])[0] & 1 else a[2]
                    break
                if op == "CreateBr":
                    nxt = a[0]
                    break
                if op in ("CreateRet", "CreateRetVoid", "CreateUnreachable"):
                    return ("end",)
                if op == "CreateCall":
                    c = callee(a[0])
                    if isinstance(c, T) and c.op == "rtfn" and c.a[0] == "range_error":
                        return ("error", list(a[1].a), True, ev)
                if op == "CreateStore":
                    d = ev.ev(a[1])
                    if ci_val(a[0]) == 77:
                        return ("access", d[2])
                    if isinstance(a[0], T) and a[0].op == "CreateLoad" and isinstance(d[1], T) and d[1].op.startswith("make:") and "z" in d[1].a:
                        return ("access", ev.ev(a[0].a[1])[2])
                    try:
                        ev.mem[d] = ev.ev(a[0])
                    except AnalysisError:
                        pass
            if nxt is None:
                return ("end",)
            b = nxt
        raise AnalysisError("the program does not end")

def cases():
    c = {}
    for ctx in CONTEXTS:
        c["integer, " + ctx] = case("integer", ctx, None if ctx in ("assignment", "use", "var argument") else 1)
    for t in TYPES:
        for ctx in ("assignment", "use"):
            if t != "integer":
                c["%s, %s" % (t, ctx)] = case(t, ctx)
    for k, m in enumerate(MULTI):
        c["several %d" % k] = multi(m)
    for t in ("integer", "char", "colour"):
        for var in (0, 1):
            for w in (0, 1):
                c["conformant %s %d %d" % (t, var, w)] = conform(t, var, w, 0)
    for w in (0, 1):
        c["conformant nested %d" % w] = conform("integer", 1, w, 1)
    return c

EXPLAIN = ("Programs with one array access - in 27 contexts, with index types from boolean to longint, bounds negative to large, several indices and conformant arrays - are followed abstractly through parser, type check and code "
           "generation with range checks on and off. Every comparison, branch and element address in the emitted code is decided for the index values at which any comparison of this kind can change: next to the bounds, at the limits of "
           "the index type and one wrap away from them.")
RULE = "Outside the bounds range_error is reached, with file, line, both bounds and the index, before the array is touched, and nothing follows it; inside it is not reached and the element is index minus low bound; without the option there is no check."

def main(argv):
    return runner.oracle_check("C20", "c20", argv, EXPLAIN, RULE)
