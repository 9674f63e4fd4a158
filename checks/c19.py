"""C19: one layout of records, variants, objects and classes for every access; virtual calls through the object's own table."""
import json, random
from sa.whole import *
from sa import runner
from checks.c01 import one
from checks.c18 import subterms

SZ = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "float": 4, "i64": 8, "double": 8, "ptr": 8, "i128": 16}
def layout(t):
    """size, alignment and element offsets of a type, by the target's data layout (x86-64)"""
    if isinstance(t, T) and t.op == "lty" and t.a[0] in SZ:
        return SZ[t.a[0]], SZ[t.a[0]], []
    if isinstance(t, T) and t.op == "larr":
        n = [x for x in t.a if isinstance(x, int)]
        e = [x for x in t.a if isinstance(x, T)]
        if len(n) == 1 and len(e) == 1:
            s, a, _ = layout(e[0])
            return n[0] * s, a, ("arr", s)
    if isinstance(t, T) and t.op == "lstruct":
        o, al, offs = 0, 1, []
        for x in t.a[-1].a:
            s, a, _ = layout(x)
            o = -(-o // a) * a
            offs.append(o)
            o += s
            al = max(al, a)
        return -(-o // al) * al, al, offs
    raise AnalysisError("size of the type %s" % str(t)[:120])

def elem(t, i):
    if t.op == "lstruct":
        return t.a[-1].a[i]
    return [x for x in t.a if isinstance(x, T)][0]

def num(x):
    """The constant an index stands for."""
    v = ci_val(x)
    if v is not None:
        return v
    if isinstance(x, int):
        return x
    if isinstance(x, T) and x.op in ("CreateSub", "CreateAdd", "CreateMul"):
        a, b = num(x.a[0]), num(x.a[1])
        if a is not None and b is not None:
            return a - b if x.op == "CreateSub" else a + b if x.op == "CreateAdd" else a * b
    if isinstance(x, T) and x.op in ("CreateSExt", "CreateZExt", "CreateTrunc", "CreateIntCast"):
        return num(x.a[0])
    return None

def where(a):
    """(root, byte offset) of an address"""
    if isinstance(a, T) and a.op == "CreateGEP":
        t, b, idx = a.a[0], a.a[1], list(a.a[2].a)
        r, o = where(b)
        ks = [num(x) for x in idx]
        if None in ks:
            raise AnalysisError("index of %s" % str(a)[:200])
        if isinstance(t, T) and t.op == "lopaque":
            # a table of routine addresses
            return r, o + 8 * ks[-1]
        o += ks[0] * layout(t)[0] if ks[0] else 0
        for k in ks[1:]:
            offs = layout(t)[2]
            o += k * offs[1] if offs and offs[0] == "arr" else offs[k]
            t = elem(t, k)
        return r, o
    if isinstance(a, T) and a.op == "CreateBitCast":
        return where(a.a[0])
    if isinstance(a, T) and a.op == "CreateLoad":
        # the address kept at some place: the same whenever it is loaded, these programs do not change it
        return mk("CreateLoad", a.a[0], mk("at", *where(a.a[1]))), 0
    return a, 0

class Prog(Whole):
    def __init__(self, src):
        Whole.__init__(self, src, maxstates=400)
    def go(self):
        if not self.all():
            return False
        W = self.W
        W.adopt(self.final)
        W.st.eff = None
        k, v, s = self.one(W.run(one(W.p, "BackPatch"), None, ()), "the back patching")
        if k == "x":
            self.error = "internal error while filling in the tables"
            return False
        self.effects = self.effects + list(s.effects())
        self.split()
        self.tabs = {}
        for f, op, a, r in self.instrs:
            if op == "make:llvm::GlobalVariable":
                self.tabs[r] = a[4]
            elif op.endswith("GlobalVariable::setInitializer"):
                self.tabs[a[0]] = a[1]
        return True
    def globs(self, name):
        return [r for f, op, a, r in self.instrs if op == "make:llvm::GlobalVariable" and name in [x for x in a if isinstance(x, str)]]
    def allst(self):
        return [(f, a[0], a[1]) for f, op, a, r in self.instrs if op == "CreateStore"]

def constat(c, off):
    """The leaf of a constant at a byte offset (None: zero)."""
    if isinstance(c, T) and c.op == "cstruct":
        offs = layout(c.a[0])[2]
        for i, o in reversed(list(enumerate(offs))):
            if o <= off:
                return constat(c.a[1].a[i], off - o)
    if isinstance(c, T) and c.op == "carr":
        s = layout(c.a[0])[2][1]
        k = off // s
        return constat(c.a[1].a[k], off - k * s) if k < len(c.a[1].a) else None
    if isinstance(c, T) and c.op in ("null0", "undef0") or c is NULL:
        return None
    return c if off == 0 else None

# ------------------------------------------------------------------ records
SCAL = {"integer": (4, lambda k: ("ci", 1000 + k), lambda k: str(1000 + k)),
        "longint": (8, lambda k: ("ci", 2000 + k), lambda k: str(2000 + k)),
        "char": (1, lambda k: ("ci", 40 + k), lambda k: "'%s'" % chr(40 + k) if chr(40 + k) != "'" else "'a'"),
        "real": (8, lambda k: ("cf", k + 0.5), lambda k: "%d.5" % k)}

class Rec:
    """fields: list of (name, type); type: scalar name, ("rec", Rec) or ("arr", lo, hi, type); variants: list of lists"""
    def __init__(self, fields, variants=None, tag="tg", nested=None):
        self.fields, self.variants, self.tag = fields, variants, tag
        self.names = nested

def ttext(t):
    if isinstance(t, str):
        return t
    if t[0] == "arr":
        return "array [ %d .. %d ] of %s" % (t[1], t[2], ttext(t[3]))
    return t[2]

def rtext(r, end="end"):
    out = " ; ".join("%s : %s" % (n, ttext(t)) for n, t in r.fields)
    if r.variants:
        if r.fields:
            out += " ; "
        vs = []
        for i, v in enumerate(r.variants):
            vs.append("%d : ( %s )" % (i + 1, rtext(v, "")))
        out += "case %sinteger of %s" % (r.tag + " : " if r.tag else "", " ; ".join(vs))
    return ("record %s end" % out) if end else out

def leaves(r, pre="", var=()):
    """(path, scalar type, tuple of variant choices)"""
    out = []
    def go(p, t, var):
        if isinstance(t, str):
            out.append((p, t, var))
        elif t[0] == "rec":
            out.extend(leaves(t[1], p + " . ", var))
        else:
            for i in (t[1], t[2]):
                go("%s [ %d ]" % (p, i), t[3], var)
    for n, t in r.fields:
        go(pre + n, t, var)
    if r.variants:
        if r.tag:
            out.append((pre + r.tag, "integer", var))
        for i, v in enumerate(r.variants):
            out.extend(leaves(v, pre, var + ((pre + "#" + str(id(r)), i),)))
    return out

def together(a, b):
    """Both exist at the same time: no choice in which they differ."""
    d = dict(a)
    return all(d.get(k, v) == v for k, v in b)

ROUTES = ["direct", "with", "pointer", "with pointer", "var parameter", "with var parameter", "local", "nested", "value parameter", "element", "field of a record", "function result", "read", "read with"]

def assign(pre, ls):
    return " ; ".join("%s%s := %s" % (pre, p, SCAL[t][2](k)) for k, (p, t, v) in enumerate(ls))

def recprog(r, names, route):
    ls = leaves(r)
    head = "program p ; type " + " ".join("%s = %s ;" % (n, rtext(x)) for n, x in names) + " r = %s ; pr = ^ r ; " % rtext(r)
    w = lambda pre: "with %s do begin %s end" % (pre, assign("", ls))
    if route == "direct":
        return head + "var v : r ; begin %s end ." % assign("v . ", ls)
    if route == "with":
        return head + "var v : r ; begin %s end ." % w("v")
    if route == "pointer":
        return head + "var v : pr ; begin new ( v ) ; %s end ." % assign("v ^ . ", ls)
    if route == "with pointer":
        return head + "var v : pr ; begin new ( v ) ; %s end ." % w("v ^")
    if route == "var parameter":
        return head + "var v : r ; procedure q ( var x : r ) ; begin %s end ; begin q ( v ) end ." % assign("x . ", ls)
    if route == "with var parameter":
        return head + "var v : r ; procedure q ( var x : r ) ; begin %s end ; begin q ( v ) end ." % w("x")
    if route == "local":
        return head + "procedure q ; var x : r ; begin %s end ; begin q end ." % assign("x . ", ls)
    if route == "nested":
        return head + "procedure q ; var x : r ; procedure n ; begin %s end ; begin n end ; begin q end ." % assign("x . ", ls)
    if route == "value parameter":
        return head + "var v : r ; procedure q ( x : r ) ; begin %s end ; begin q ( v ) end ." % assign("x . ", ls)
    if route == "element":
        return head + "var v : array [ 3 .. 5 ] of r ; begin %s end ." % assign("v [ 4 ] . ", ls)
    if route == "field of a record":
        return head + "var v : record ch : char ; inn : r ; end ; begin %s end ." % assign("v . inn . ", ls)
    if route == "function result":
        return head + "var v : r ; w : pr ; begin new ( w ) ; v := w ^ ; %s end ." % assign("v . ", ls)
    sinks = "var v : r ; " + " ".join("s%d : %s ;" % (k, t) for k, (p, t, x) in enumerate(ls))
    if route == "read":
        return head + sinks + " begin %s end ." % " ; ".join("s%d := v . %s" % (k, p) for k, (p, t, x) in enumerate(ls))
    if route == "read with":
        return head + sinks + " begin with v do begin %s end end ." % " ; ".join("s%d := %s" % (k, p) for k, (p, t, x) in enumerate(ls))

def isval(x, w):
    if not isinstance(x, T):
        return False
    if w[0] == "ci":
        return num(x) == w[1]
    return isinstance(x, T) and x.op == "cf" and x.a[0] == w[1]

def offsets(P, ls, route):
    """leaf number -> (root, offset, store size)"""
    out = {}
    if route.startswith("read"):
        for k, (p, t, v) in enumerate(ls):
            g = P.globs("s%d" % k)
            hit = [(x, a) for f, x, a in P.allst() if a in g]
            if len(hit) != 1 or not isinstance(hit[0][0], T) or hit[0][0].op != "CreateLoad":
                raise AnalysisError("%d stores to the variable that takes %s" % (len(hit), p))
            x = hit[0][0]
            r, o = where(x.a[1])
            out[k] = (r, o, layout(x.a[0])[0])
        return out
    for k, (p, t, v) in enumerate(ls):
        hit = [(x, a) for f, x, a in P.allst() if isval(x, SCAL[t][1](k)) and stsize(x) == SCAL[t][0]]
        if len(hit) != 1:
            raise AnalysisError("%d stores for %s" % (len(hit), p))
        x, a = hit[0]
        r, o = where(a)
        out[k] = (r, o, stsize(x))
    return out

def stsize(x):
    if x.op in ("CreateSExt", "CreateZExt", "CreateTrunc", "CreateIntCast", "CreateSIToFP"):
        return layout(x.a[1])[0]
    return layout(x.a[0])[0] if x.op == "ci" else 8

def rectype(P, route):
    """The record's type as the variable has it."""
    for r in P.globs("v"):
        return [x for x in r.a if isinstance(x, T) and x.op in ("lstruct", "larr", "lty")][0]

def reccase(r, names):
    def f():
        bad, n = [], 0
        ls = leaves(r)
        ref = None
        size = None
        for route in ROUTES:
            src = recprog(r, names, route)
            P = Prog(src)
            if not P.go():
                bad.append("a record accessed by '%s' is not compiled: %s" % (route, P.error))
                continue
            off = offsets(P, ls, route)
            n += len(ls)
            roots = {x[0] for x in off.values()}
            if len(roots) != 1:
                bad.append("%s: the fields are reached through %d different addresses" % (route, len(roots)))
            got = {k: x[1] for k, x in off.items()}
            if route == "direct":
                ref = got
                size = layout(rectype(P, route))[0]
                for k, (p, t, v) in enumerate(ls):
                    if off[k][2] != SCAL[t][0]:
                        bad.append("field %s of type %s is written with %d bytes" % (p, t, off[k][2]))
                    if got[k] < 0 or got[k] + SCAL[t][0] > size:
                        bad.append("field %s takes bytes %d to %d of a record of %d bytes" % (p, got[k], got[k] + SCAL[t][0] - 1, size))
                    for j in range(k):
                        n += 1
                        if together(ls[j][2], v) and got[j] < got[k] + SCAL[t][0] and got[k] < got[j] + SCAL[ls[j][1]][0]:
                            bad.append("fields %s (at %d) and %s (at %d) overlap" % (ls[j][0], got[j], p, got[k]))
                # the variants share their storage
                ch = {}
                for k, (p, t, v) in enumerate(ls):
                    for i in range(len(v)):
                        g = ch.setdefault(v[:i] + ((v[i][0], None),), {}).setdefault(v[i][1], [1 << 30, 0])
                        g[0], g[1] = min(g[0], got[k]), max(g[1], got[k] + SCAL[t][0])
                for c, g in ch.items():
                    xs = sorted(g.values())
                    n += 1
                    if max(x[0] for x in xs) >= min(x[1] for x in xs) and max(x[0] for x in xs) - min(x[0] for x in xs) >= 8:
                        bad.append("the variants do not share their storage: %s" % xs)
            else:
                base = 0
                if route == "element":
                    base = size
                elif route == "field of a record":
                    base = got[0] - ref[0]
                    t = rectype(P, route)
                    o = layout(t)[2]
                    if base not in o or base < 1 or base + size > layout(t)[0]:
                        bad.append("the record as a field of another lies at %s of %s" % (base, layout(t)[0]))
                d = [(ls[k][0], got[k] - base, ref[k]) for k in got if ref is not None and got[k] - base != ref[k]]
                if d:
                    bad.append("%s: field %s is accessed at offset %d, directly at %d" % ((route,) + d[0]))
            # storage asked for and copied is that of the record
            for fn, op, a, res in P.instrs:
                if op == "CreateCall":
                    c = callee(a[0])
                    if isinstance(c, T) and c.op == "rtfn" and c.a[0] == "__new":
                        n += 1
                        k = num(a[1].a[0])
                        if k is None or size is not None and k < size:
                            bad.append("new asks for %s bytes for a record of %s" % (k, size))
                elif op == "CreateMemCpy" and route == "function result" and size is not None:
                    n += 1
                    k = num(a[-1]) if num(a[-1]) is not None else next((num(x) for x in a[2:] if num(x) is not None), None)
                    if k != size:
                        bad.append("an assignment copies %s bytes of a record of %d" % (k, size))
        return [([json.dumps([bad, n, recprog(r, names, "direct")]), []])], {"unknown": []}
    return f

def records():
    out = {}
    R = Rec
    A = R([("a", "char"), ("b", "integer"), ("c", "char"), ("d", "longint")])
    out["plain"] = (A, [])
    B = R([("x", "integer"), ("y", ("rec", A, "ra")), ("z", "char")])
    out["nested"] = (B, [("ra", A)])
    out["arrays"] = (R([("p", "char"), ("q", ("arr", 2, 4, "integer")), ("s", ("arr", 0, 1, ("rec", A, "ra"))), ("t", "longint")]), [("ra", A)])
    V = R([("a", "integer")], [R([("b", "char"), ("c", "longint")]), R([("d", "longint"), ("e", "char")]), R([("f", "integer")])])
    out["variant"] = (V, [])
    out["variant without a tag"] = (R([("a", "char")], [R([("b", "integer"), ("c", "integer"), ("d", "integer")]), R([("e", "real")])], tag=None), [])
    out["variant only"] = (R([], [R([("b", "char")]), R([("e", "real"), ("f", "integer")])]), [])
    out["largest variant first"] = (R([("a", "char")], [R([("b", ("arr", 1, 9, "integer"))]), R([("e", "real")]), R([("f", "longint"), ("g", "longint")])]), [])
    out["variant in a variant"] = (R([("a", "integer")], [R([("b", "char")], [R([("c", "longint")]), R([("d", "char"), ("e", "integer")])], tag="tb"), R([("f", "real")])]), [])
    out["record with a variant inside"] = (R([("h", "char"), ("i", ("rec", V, "rv")), ("j", "char"), ("k", "integer")]), [("rv", V)])
    out["variant of records"] = (R([("h", "char")], [R([("i", ("rec", A, "ra")), ("j", "char")]), R([("k", ("arr", 1, 3, ("rec", A, "ra")))])]), [("ra", A)])
    return out

def randrec(seed):
    rnd = random.Random(seed)
    names, cnt = [], [0]
    def fresh():
        cnt[0] += 1
        return "f%d" % cnt[0]
    def typ(d):
        k = rnd.randrange(8)
        if k == 0 and d > 0:
            lo = rnd.randrange(-2, 3)
            return ("arr", max(lo, 0), max(lo, 0) + rnd.randrange(1, 4), typ(0))
        if k == 1 and d > 0:
            r = rec(0, rnd.randrange(2))
            nm = "t%d" % len(names)
            names.append((nm, r))
            return ("rec", r, nm)
        return rnd.choice(["integer", "longint", "char", "real"])
    def rec(d, v):
        fs = [(fresh(), typ(d)) for i in range(rnd.randrange(1, 4))]
        vs = None
        if v:
            vs = [Rec([(fresh(), typ(d)) for j in range(rnd.randrange(1, 3))]) for i in range(rnd.randrange(2, 4))]
        return Rec(fs, vs, tag=(fresh() if rnd.randrange(2) else None))
    r = rec(1, rnd.randrange(2))
    while len(leaves(r)) > 20:
        names.clear()
        cnt[0] = 0
        r = rec(1, rnd.randrange(2))
    return r, list(names)

# ------------------------------------------------------------------ classes
class Cls:
    """fields [(name, type)], methods [(name, kind)] with kind '', 'virtual', 'override', 'static'"""
    def __init__(self, name, base, fields, methods, variants=None):
        self.name, self.base, self.fields, self.methods, self.variants = name, base, fields, methods, variants
    def chain(self):
        return (self.base.chain() if self.base else []) + [self]

def ctext(c):
    fs = "".join("%s : %s ; " % (n, t) for n, t in c.fields)
    vs = ""
    if c.variants:
        vs = "case tg%s : integer of %s " % (c.name, " ; ".join("%d : ( %s )" % (i + 1, " ; ".join("%s : %s" % x for x in v)) for i, v in enumerate(c.variants)))
    return "%s = class %s%s%s%send ;" % (c.name, "( %s ) " % c.base.name if c.base else "", fs, "".join("procedure %s ; %s" % (n, k + " ; " if k else "") for n, k in c.methods), vs)

def cfields(c):
    """(name, type, variant) of all fields, inherited ones first"""
    out = []
    for k in c.chain():
        out += [(n, t, None) for n, t in k.fields]
        if k.variants:
            out.append(("tg" + k.name, "integer", None))
            out += [(n, t, (k.name, i)) for i, v in enumerate(k.variants) for n, t in v]
    return out

def impl(c, m):
    for k in reversed(c.chain()):
        if m in [x for x, y in k.methods]:
            return k.name + "." + m
def isvirt(c, m):
    return any(x == m and y in ("virtual", "override") for k in c.chain() for x, y in k.methods)
def visible(c):
    out = []
    for k in c.chain():
        out += [x for x, y in k.methods if x not in out]
    return out

CROUTES = ["direct", "pointer", "var parameter", "local", "method", "element", "field of a record", "nested", "local in a record"]
def clsprog(cs, c, route):
    fl = cfields(c)
    ids = {}
    for k in cs:
        for m, _ in k.methods:
            ids[k.name + "." + m] = 500 + len(ids)
    body = ""
    acc = assign("", [(n, t, ()) for n, t, v in fl])
    pre = lambda x: assign(x, [(n, t, ()) for n, t, v in fl])
    calls = lambda x: " ; ".join("mark := %d ; %s%s" % (700 + i, x, m) for i, m in enumerate(visible(c)))
    if route == "method":
        c.methods = c.methods + [("zz", "")]
    try:
        head = "program p ; var mark : integer ; type %s pc = ^ %s ; " % (" ".join(ctext(k) for k in cs), c.name)
        if route == "method":
            c.methods = c.methods[:-1]
        for k in cs:
            for m, kind in k.methods:
                body += "procedure %s . %s ; begin mark := %d end ; " % (k.name, m, ids[k.name + "." + m])
    finally:
        pass
    if route == "method":
        body += "procedure %s . zz ; begin %s ; %s end ; " % (c.name, acc, calls(""))
        return head + body + "var v : %s ; begin v . zz end ." % c.name, ids
    seq = lambda x: " ; ".join(y for y in (pre(x), calls(x)) if y)
    if route == "direct":
        return head + body + "var v : %s ; begin %s end ." % (c.name, seq("v . ")), ids
    if route == "with":
        return head + body + "var v : %s ; begin with v do begin %s end end ." % (c.name, pre("")), ids
    if route == "pointer":
        return head + body + "var v : pc ; begin new ( v ) ; %s end ." % seq("v ^ . "), ids
    if route == "var parameter":
        return head + body + "var v : %s ; procedure q ( var x : %s ) ; begin %s end ; begin q ( v ) end ." % (c.name, c.name, seq("x . ")), ids
    if route == "local":
        return head + body + "procedure q ; var x : %s ; begin %s end ; begin q end ." % (c.name, seq("x . ")), ids
    if route == "nested":
        return head + body + "procedure q ; var x : %s ; procedure n ; begin %s end ; begin n end ; begin q end ." % (c.name, seq("x . ")), ids
    if route == "element":
        return head + body + "var v : array [ 3 .. 5 ] of %s ; begin %s end ." % (c.name, seq("v [ 4 ] . ")), ids
    if route == "field of a record":
        return head + body + "type rr = record ch : char ; o : %s ; e : integer end ; var v : rr ; begin %s end ." % (c.name, seq("v . o . ")), ids
    if route == "local in a record":
        return head + body + "type rr = record ch : char ; o : %s ; e : integer end ; procedure q ; var v : rr ; begin %s end ; begin q end ." % (c.name, seq("v . o . ")), ids

def strip(v):
    return v

def clscase(cs, only):
    def f():
        bad, n, text = [], 0, ""
        lay, vts, slots, size = {}, {}, {}, {}
        for c in cs:
            fl = [x for x in cfields(c)]
            ls = [(a, t, v) for a, t, v in fl]
            for route in (CROUTES if c is only else CROUTES[:1] if c in only.chain() else []):
                src, ids = clsprog(cs, c, route)
                if route == "direct" and c is only:
                    text = src
                P = Prog(src)
                if not P.go():
                    bad.append("%s of class %s is not compiled: %s" % (route, c.name, P.error))
                    continue
                off = offsets(P, ls, route)
                where_ = "class %s, %s" % (c.name, route)
                n += len(ls)
                base = 0
                if route == "element":
                    t = rectype(P, route)
                    base = layout(elem(t, 0))[0]
                elif route in ("field of a record", "local in a record"):
                    base = None
                got = {k: x[1] for k, x in off.items()}
                fbody = {}
                for fn, x, a in P.allst():
                    if ci_val(x) in ids.values():
                        fbody[fn] = [k for k, v in ids.items() if v == ci_val(x)][0]
                # the calls
                objoff = set()
                vofs = set()
                cur = None
                for fn, op, a, res in P.instrs:
                    if op == "CreateStore" and ci_val(a[0]) is not None and 700 <= ci_val(a[0]) < 700 + len(visible(c)):
                        cur = visible(c)[ci_val(a[0]) - 700]
                    elif op == "CreateCall" and cur is not None:
                        m, cur = cur, None
                        n += 1
                        cal = callee(a[0])
                        slf = a[1].a[0] if a[1].a else None
                        r, o = where(slf)
                        objoff.add(o)
                        roots = {x[0] for x in off.values()}
                        if roots and r not in roots:
                            bad.append("%s: the method %s is given another object" % (where_, m))
                        if isvirt(c, m):
                            if not (isinstance(cal, T) and cal.op == "CreateLoad" and cal.a[1].op == "CreateGEP"):
                                bad.append("%s: the virtual method %s is called directly" % (where_, m))
                                continue
                            tab, so = where(cal.a[1])
                            if not (isinstance(tab, T) and tab.op == "CreateLoad"):
                                bad.append("%s: the virtual method %s is not taken from the object's table" % (where_, m))
                                continue
                            tr, to = tab.a[1].a
                            if tr != r:
                                bad.append("%s: the table used for %s is that of another object" % (where_, m))
                            vofs.add(to - o)
                            slots.setdefault(m, {})[(c.name, route)] = so
                        else:
                            if not (isinstance(cal, T) and cal.op == "rtfn"):
                                bad.append("%s: the method %s, which is not virtual, is not called directly" % (where_, m))
                            elif fbody.get(cal.a[0]) != impl(c, m):
                                bad.append("%s: %s runs %s instead of %s" % (where_, m, fbody.get(cal.a[0]), impl(c, m)))
                if base is None:
                    base = objoff.pop() if len(objoff) == 1 else (got[0] - lay[c.name][0] if got and c.name in lay else 0)
                elif any(o != base for o in objoff):
                    bad.append("%s: a method gets the address of byte %s of the object" % (where_, sorted(objoff)))
                got = {k: x - base for k, x in got.items()}
                if len(vofs) > 1:
                    bad.append("%s: the table is looked for at %s" % (where_, sorted(vofs)))
                if vofs:
                    vts.setdefault(c.name, {})[route] = min(vofs)
                if route == "direct":
                    lay[c.name] = got
                    size[c.name] = layout(rectype(P, route))[0]
                    spans = [(ls[k][0], got[k], SCAL[ls[k][1]][0], ls[k][2]) for k in got]
                    if vofs:
                        spans.append(("the table's address", min(vofs), 8, None))
                    for i, x in enumerate(spans):
                        n += 1
                        if x[1] < 0 or x[1] + x[2] > size[c.name]:
                            bad.append("class %s: %s lies at %d of %d bytes" % (c.name, x[0], x[1], size[c.name]))
                        for y in spans[:i]:
                            if x[3] and y[3] and x[3][0] == y[3][0] and x[3][1] != y[3][1]:
                                continue
                            if x[1] < y[1] + y[2] and y[1] < x[1] + x[2]:
                                bad.append("class %s: %s and %s overlap" % (c.name, x[0], y[0]))
                    if c.base and c.base.name in lay:
                        names = [x[0] for x in cfields(c.base)]
                        for k, nm in enumerate(names):
                            n += 1
                            if lay[c.base.name].get(k) != got.get(k):
                                bad.append("the field %s lies at %s in class %s and at %s in the derived class %s" % (nm, lay[c.base.name].get(k), c.base.name, got.get(k), c.name))
                elif c.name in lay:
                    d = [(ls[k][0], got[k], lay[c.name][k]) for k in got if got[k] != lay[c.name][k]]
                    if d:
                        bad.append("%s: field %s is accessed at offset %d, directly at %d" % ((where_,) + d[0]))
                for fn, op, a, res in P.instrs:
                    if op == "CreateCall":
                        cc = callee(a[0])
                        if isinstance(cc, T) and cc.op == "rtfn" and cc.a[0] == "__new":
                            n += 1
                            k = num(a[1].a[0])
                            if k is None or k < size.get(c.name, 0):
                                bad.append("new asks for %s bytes for an object of %s" % (k, size.get(c.name)))
                # the object's table
                virt = [m for m in visible(c) if isvirt(c, m)]
                if virt and vofs:
                    vo = min(vofs)
                    tab = self_table(P, route, off, base + vo, src)
                    n += 1
                    if tab is None:
                        bad.append("%s: the object has no table" % where_)
                    else:
                        con = P.tabs.get(tab)
                        for m in virt:
                            so = slots.get(m, {}).get((c.name, route))
                            if so is None:
                                continue
                            n += 1
                            x = constat(con, so) if con is not None and con.op == "cstruct" and layoutable(con) else tabat(con, so)
                            if not (isinstance(x, T) and x.op == "rtfn"):
                                bad.append("%s: entry %d of the object's table, used for %s, is empty" % (where_, so // 8, m))
                            elif fbody.get(x.a[0]) != impl(c, m):
                                bad.append("%s: the object's table leads %s to %s instead of %s" % (where_, m, fbody.get(x.a[0]), impl(c, m)))
        for m, d in slots.items():
            fam = {}
            for (cn, r), so in d.items():
                c = [x for x in cs if x.name == cn][0]
                intro = next(k.name for k in c.chain() if m in [x for x, y in k.methods if y == "virtual"])
                fam.setdefault(intro, set()).add(so)
            for i, so in fam.items():
                n += 1
                if len(so) > 1:
                    bad.append("the virtual method %s of %s has the table entries %s" % (m, i, sorted(x // 8 for x in so)))
        # different methods of a class have different entries
        for c in cs:
            seen = {}
            for m in slots:
                for (cn, r), so in slots[m].items():
                    if cn == c.name:
                        seen.setdefault(so, set()).add(m)
            for so, ms in seen.items():
                n += 1
                if len(ms) > 1:
                    bad.append("class %s: the methods %s share the table entry %d" % (c.name, sorted(ms), so // 8))
            v = set(vts.get(c.name, {}).values())
            for k in c.chain():
                v |= set(vts.get(k.name, {}).values())
            if len(v) > 1:
                bad.append("class %s and its bases keep the table's address at %s" % (c.name, sorted(v)))
        return [([json.dumps([bad, n, text]), []])], {"unknown": []}
    return f

def layoutable(c):
    try:
        layout(c.a[0])
        return True
    except AnalysisError:
        return False

def tabat(c, off):
    if isinstance(c, T) and c.op == "cstruct" and off // 8 < len(c.a[1].a):
        return c.a[1].a[off // 8]

def self_table(P, route, off, at, src):
    """The table whose address the object has when it is used: from its initial value or from a store."""
    tabs = set(P.tabs)
    if route in ("direct", "with", "var parameter", "method", "element", "field of a record"):
        for g in P.globs("v"):
            x = constat(P.tabs.get(g), at)
            if x in tabs:
                return x
        return None
    for fn, op, a, res in P.instrs:
        if op == "CreateStore" and a[0] in tabs:
            r, o = where(a[1])
            if o == at:
                return a[0]
        if op == "CreateMemCpy":
            for y in a:
                if y in tabs and constat(P.tabs[y], at) in tabs:
                    return constat(P.tabs[y], at)
    return None

def classes():
    C = Cls
    out = {}
    a = C("ca", None, [("fa", "integer"), ("fb", "char")], [("m", "virtual"), ("n", "virtual"), ("s", "")])
    b = C("cb", a, [("fc", "longint")], [("n", "override"), ("k", "virtual")])
    d = C("cd", b, [("fd", "char")], [("m", "override"), ("k", "override"), ("j", "virtual")])
    out["three levels"] = [a, b, d]
    a = C("ca", None, [("fa", "integer"), ("fb", "char")], [("s", "")])
    b = C("cb", a, [("fc", "longint")], [("m", "virtual")])
    d = C("cd", b, [("fd", "char")], [("m", "override")])
    out["table introduced below the base"] = [a, b, d]
    a = C("ca", None, [("fa", "char")], [("m", "virtual"), ("n", "virtual")])
    b = C("cb", a, [], [("m", "override")])
    e = C("ce", a, [("fe", "real")], [("n", "override"), ("x", "virtual")])
    out["two classes of one base"] = [a, b, e]
    a = C("ca", None, [], [("m", "virtual")])
    b = C("cb", a, [("fb", "integer")], [])
    d = C("cd", b, [("fd", "integer")], [("m", "override")])
    out["class between that overrides nothing"] = [a, b, d]
    a = C("ca", None, [("fa", "integer")], [("s", "")])
    b = C("cb", a, [("fb", "longint")], [("s", ""), ("t", "")])
    out["no virtual methods"] = [a, b]
    a = C("ca", None, [("fa", "char")], [("m", "virtual")], [[("va", "longint")], [("vb", "char"), ("vc", "integer")]])
    b = C("cb", a, [("fb", "integer")], [("m", "override"), ("n", "virtual")])
    out["variant part in the base"] = [a, b]
    a = C("ca", None, [("fa", "char")], [("m", "virtual")])
    b = C("cb", a, [("fb", "integer")], [("n", "virtual")], [[("va", "longint")], [("vb", "char"), ("vc", "integer")]])
    out["variant part in the derived class"] = [a, b]
    return out

RSEEDS = 6
def cases():
    c = {}
    for k, (r, names) in records().items():
        c["record: " + k] = reccase(r, names)
    for s in range(RSEEDS):
        r, names = randrec(s)
        c["record: generated %d" % s] = reccase(r, names)
    for k, cs in classes().items():
        for x in cs:
            c["class: %s, %s" % (k, x.name)] = clscase(cs, x)
    return c

EXPLAIN = ("Programs that declare records (nested, with arrays and variant parts) and class hierarchies and reach every field and method by many routes - direct, with, pointer, parameter, local, nested routine, array element, field, "
           "method - are followed abstractly through parser, type check and code generation. The emitted element addresses are turned into byte offsets with the target's layout rules; tables are read from their initializers.")
RULE = ("Every route uses the same offset for a field; fields that exist together do not overlap and lie inside the storage; inherited fields keep their offset; a virtual method has one table entry through all overrides, is called through the "
        "table of the object it is given, and the object's table holds the overriding routine of the object's class; other methods are called directly.")

def main(argv):
    return runner.oracle_check("C19", "c19", argv, EXPLAIN, RULE)
