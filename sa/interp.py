import re
"""Abstract interpreter over the resolved syntax tree.

Domain: each abstract state maps cells to constants, object identities, or Herbrand (value-numbering) terms; a set of
facts restricts terms to finite sets of constants; control flow uses a bounded powerset of states that is joined where
states agree on memory and effects; loops whose trip count is not a constant are summarised by a fixpoint on the set of
cells they change. Calls to functions defined in the repository are analysed in the calling context. No solver is used.
"""
import sys
from .terms import *
from .repo import AnalysisError, walk, rel
sys.setrecursionlimit(20000)

class Limit(AnalysisError):
    pass

class Eff(tuple):
    """(name, args, result, fn, line); compares without the location."""
    __slots__ = ()
    name = property(lambda s: s[0])
    args = property(lambda s: s[1])
    res = property(lambda s: s[2])
    def key(s):
        return tuple(s[:3])

class St:
    __slots__ = ("h", "own", "facts", "eff", "n", "cnt", "tag")
    def __init__(self):
        self.h, self.own, self.facts, self.eff, self.n, self.cnt, self.tag = {}, set(), {}, None, 0, {}, None
    def copy(self):
        s = St()
        s.h = dict(self.h)
        s.own = set()
        self.own = set()
        s.facts = dict(self.facts)
        s.eff = self.eff
        s.n = self.n
        s.cnt = dict(self.cnt)
        s.tag = self.tag
        return s
    def get(self, b, f):
        d = self.h.get(b)
        return None if d is None else d.get(f)
    def set(self, b, f, v):
        d = self.h.get(b)
        if d is None:
            self.h[b] = {f: v}
            self.own.add(b)
            return
        if b not in self.own:
            d = dict(d)
            self.h[b] = d
            self.own.add(b)
        d[f] = v
    def fresh(self):
        self.n += 1
        return self.n
    def count(self, k):
        c = self.cnt.get(k, 0)
        self.cnt[k] = c + 1
        return c
    def add(self, name, args, res=None, fn=None, line=0):
        self.eff = (self.eff, Eff((name, args, res, fn, line)))
    def effects(self, since=None):
        out = []
        e = self.eff
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

def effkey(e):
    out = []
    while e is not None:
        out.append(e[1].key())
        e = e[0]
    return tuple(out)

def addr(loc):
    return mk("addr", loc)

ARITH = re.compile(r"(unsigned |signed )?(char|short|int|long|long long|unsigned|size_t|u?int(8|16|32|64)_t|Types::SetDecl::ElemType)|unsigned")

class Interp:
    def __init__(self, prog, opaque=(), hook=None, maxstates=600, maxdepth=40, unroll=70, vcls=None):
        self.p = prog
        self.opaque = set(opaque)
        self.hook = hook
        self.maxstates = maxstates
        self.maxdepth = maxdepth
        self.unroll = unroll
        self.rtcalls = set()
        self.exits = []
        self.stack = []
        self.lams = {}
        self.vcls = vcls or {}
        self.unknown = {}
        self.visited = set()
        self.nsteps = 0
        self.maxrec = 3
        self.overrun = None
        self.presets = {"verbosity": 0, "debugInfo": 0, "timetrace": 0}
        self.noop = {"trace", "dump", "DoDump", "EmitLocation", "~TimeTrace"}
        self.bbmethods = {"CodeGen", "Address"}
        self._rec = {}

    # ---- types
    def isrec(self, t):
        r = self._rec.get(t)
        if r is None:
            s = strip(t)
            r = s in self.p.classes
            self._rec[t] = r
        return r
    def reffields(self):
        r = getattr(self.p, "_reffields", None)
        if r is None:
            r = self.p._reffields = {(c, f["n"]) for c, d in self.p.classes.items() for f in d.get("fields", []) if f["t"].endswith("&")}
        return r
    def enumof(self, t):
        return self.p.enums.get(strip(t))

    # ---- memory
    def load(self, st, loc, t=None):
        k = loc[0]
        if k == "c":
            v = st.get(loc[1], loc[2])
            if v is not None:
                return v
            return self.default(st, loc[1], loc[2], t)
        if k == "v":
            return loc[1]
        if k == "e":
            c = self.load(st, loc[1])
            return self.elem(st, c, loc[2])
        if k == "ptr":  # element of pointer array
            b, i = loc[1], loc[2]
            v = st.get(b, ("at", i))
            if v is not None:
                return v
            d = st.h.get(b)
            if isinstance(b, str) and isinstance(i, int):
                return ord(b[i]) if i < len(b) else 0
            if isinstance(b, T) and b.op == "vec" and isinstance(i, int) and 0 <= i < len(b.a):
                return b.a[i]
            return mk("at", b, i)
        raise AnalysisError("load %r" % (loc,))
    def default(self, st, b, f, t=None):
        if b == "glob":
            v = self.globinit(st, f)
            if v is not None:
                return v
            return mk("glob", f)
        if isinstance(b, T):
            pr = st.get(b, "__proto")
            if pr is not None:
                return self.load(st, ("c", pr, f), t)
            if f == "*":
                return mk("deref", b)
            return mk("fld", b, f)
        return mk("undef", b, f)
    def fixedglobs(self):
        """Global vectors with an initialiser that nothing modifies."""
        p = self.p
        if not hasattr(p, "_fixedglobs"):
            c = {i for i, g in p.globals.items() if g.get("i") and strip(g["v"]["t"]).startswith("std::vector<")}
            bad = set()
            def root(n):
                while n and n["k"] in ("ld", "cast", "member", "index", "un") and n.get("e"):
                    n = n["e"]
                return n["v"]["id"] if n and n["k"] == "var" and n["v"].get("g") else None
            def f(n):
                if n["k"] == "call" and n.get("f") and n.get("o"):
                    if n["f"]["n"].split("::")[-1] in ("push_back", "emplace_back", "insert", "emplace", "clear", "erase", "resize", "assign", "swap", "pop_back", "operator=") or not n["f"].get("cls", "").startswith("std::vector"):
                        bad.add(root(n["o"]))
                if n["k"] == "assign":
                    bad.add(root(n.get("x") or n.get("l")) if isinstance(n.get("x"), dict) else None)
            if c:
                for g in p.fns.values():
                    walk(g.get("body"), f)
            p._fixedglobs = c - bad
        return p._fixedglobs
    def globinit(self, st, gid):
        if gid in self.presets:
            return self.presets[gid]
        g = self.p.globals.get(gid)
        if not g or "i" not in g or g["i"] is None:
            return None
        t = g["v"]["t"]
        if not (t.startswith("const ") or t.endswith("const")) and gid not in self.fixedglobs():
            return None
        r = self.ev(g["i"], st)
        if len(r) != 1:
            return None
        v = r[0][0]
        st.set("glob", gid, v)
        return v
    def elem(self, st, c, i):
        if isinstance(c, T) and c.op == "vec":
            if isinstance(i, int) and 0 <= i < len(c.a):
                return c.a[i]
            if i == ("back",) and c.a:
                return c.a[-1]
            return mk("elem", c, i)
        if isinstance(c, T) and c.op == "append" and i == ("back",):
            return c.a[1]
        if isinstance(c, T) and c.op == "map":
            for k, v in c.a:
                if k is i or k == i:
                    return v
            return mk("elem", c, i)
        if isinstance(c, str) and isinstance(i, int):
            return ord(c[i]) if 0 <= i < len(c) else 0
        if isinstance(c, T) and c.op == "pair" and i in (0, 1):
            return c.a[i]
        if isinstance(c, T) and c.op == "tuple" and isinstance(i, int):
            return c.a[i]
        return mk("elem", c, i)
    def store(self, st, loc, v):
        k = loc[0]
        if k == "c":
            st.set(loc[1], loc[2], v)
        elif k == "e":
            c = self.load(st, loc[1])
            if isinstance(c, T) and c.op == "vec" and isinstance(loc[2], int) and 0 <= loc[2] < len(c.a):
                self.store(st, loc[1], mk("vec", *(c.a[:loc[2]] + (v,) + c.a[loc[2] + 1:])))
            elif isinstance(c, T) and c.op == "map":
                kv = [x for x in c.a if x[0] != loc[2]]
                self.store(st, loc[1], mk("map", *(tuple(kv) + ((loc[2], v),))))
            elif isinstance(c, T) and c.op in ("pair", "tuple") and isinstance(loc[2], int):
                l = list(c.a)
                l[loc[2]] = v
                self.store(st, loc[1], mk(c.op, *l))
            else:
                self.store(st, loc[1], mk("upd", c, loc[2], v))
        elif k == "ptr":
            st.set(loc[1], ("at", loc[2]), v)
            if not (isinstance(loc[1], T) and loc[1].op == "arr" and isinstance(loc[1].a[0], T) and loc[1].a[0].op == "fr"):
                st.add("store", (mk("addr", loc), v))
        elif k == "v":
            pass
        else:
            raise AnalysisError("store %r" % (loc,))
        if k == "c" and isinstance(loc[1], T) and loc[1].op not in ("fr", "obj", "tmp"):
            st.add("setfield", (loc[1], loc[2], v))
        if k == "c" and loc[1] == "glob":
            st.add("setglobal", (loc[2], v))
    def deref(self, p):
        if isinstance(p, T) and p.op == "addr":
            return p.a[0]
        if isinstance(p, T) and p.op == "lin":
            # pointer + offset
            ptrs = [t for t, c in p.a[1] if c == 1 and self.isptr(t)]
            if len(ptrs) == 1:
                b = ptrs[0]
                off = sub(p, b)
                if b.op == "addr" and b.a[0][0] == "ptr":
                    return ("ptr", b.a[0][1], add(b.a[0][2], off))
                return ("ptr", b, off)
        if isinstance(p, T) and p.op == "it":
            return ("e", p.a[0], p.a[1])
        if isinstance(p, str):
            return ("ptr", p, 0)
        return ("c", p, "*")
    def isptr(self, t):
        return isinstance(t, T) and (t.op in ("addr", "obj") or (t.op == "sym" and t.a[0].startswith("&")))
    def newobj(self, st, cls):
        o = mk("obj", st.fresh(), cls)
        st.set(o, "__cls", cls)
        return o
    def cls(self, st, o):
        c = st.get(o, "__cls")
        if c is None and isinstance(o, T):
            c = self.vcls.get(o)
        return c
    def copyrec(self, st, src, cls=None):
        if not isinstance(src, T):
            return src
        if src.op != "obj" and not st.h.get(src):
            return src
        d = st.h.get(src) or {}
        if src.op == "obj":
            o = self.newobj(st, cls or src.a[1])
        else:
            o = self.newobj(st, cls or "?")
            st.set(o, "__proto", src)
        for k, v in list(d.items()):
            if k != "__cls":
                st.set(o, k, v)
        return o

    # ---- facts
    def known(self, st, t):
        """Constant value of t under the facts, or t."""
        if isinstance(t, T):
            f = st.facts.get(t)
            if f and f[0] == "in" and len(f[1]) == 1:
                return next(iter(f[1]))
            if t.op == "not":
                k = self.known(st, t.a[0])
                if k is not t.a[0]:
                    return lnot(k)
            elif t.op == "eq":
                a, b = self.known(st, t.a[0]), self.known(st, t.a[1])
                if a is not t.a[0] or b is not t.a[1]:
                    r = eq(a, b)
                    if not isinstance(r, T) :
                        return r
                f = st.facts.get(t.a[0])
                if f and (isconst(t.a[1])):
                    if f[0] == "in" and t.a[1] not in f[1]:
                        return 0
                    if f[0] == "out" and t.a[1] in f[1]:
                        return 0
                f = st.facts.get(t.a[1])
                if f and isconst(t.a[0]):
                    if f[0] == "in" and t.a[0] not in f[1]:
                        return 0
                    if f[0] == "out" and t.a[0] in f[1]:
                        return 0
            elif t.op in ("lt", "ult"):
                a, b = self.known(st, t.a[0]), self.known(st, t.a[1])
                if a is not t.a[0] or b is not t.a[1]:
                    r = lt(a, b, t.op == "ult")
                    if not isinstance(r, T):
                        return r
                for x, y, sw in ((a, b, 0), (b, a, 1)):
                    if isinstance(y, int) and isinstance(x, T):
                        f = st.facts.get(x)
                        if f and f[0] == "in" and all(isinstance(z, int) for z in f[1]):
                            vs = {int(y < z) if sw else int(z < y) for z in f[1]}
                            if len(vs) == 1:
                                return vs.pop()
                r = self.bound_lt(st, t)
                if r is not None:
                    return r
        return t
    def bound_lt(self, st, t):
        # interval facts: ("b", x, lo/hi) kept through facts on lt-terms over the same linear base
        if t.op == "ult":
            return None
        d = sub(t.a[0], t.a[1]) if not isinstance(t.a[0], str) else None
        if not isinstance(d, T):
            return None
        c, m = (d.a[0], d.a[1]) if d.op == "lin" else (0, ((d, 1),))
        pos = (m, 1)
        neg = (tuple((x, -k) for x, k in m), -1)
        b = st.facts.get(("iv", m))
        if b:
            lo, hi = b
            if hi is not None and hi + c < 0:
                return 1
            if lo is not None and lo + c >= 0:
                return 0
        b = st.facts.get(("iv", neg[0]))
        if b:
            lo, hi = b     # -(m) in [lo,hi] => m in [-hi,-lo]
            if lo is not None and -lo + c < 0:
                return 1
            if hi is not None and -hi + c >= 0:
                return 0
        return None
    def note_lt(self, st, t, truth):
        if t.op == "ult":
            return
        d = sub(t.a[0], t.a[1])
        if not isinstance(d, T):
            return
        c, m = (d.a[0], d.a[1]) if d.op == "lin" else (0, ((d, 1),))
        lo, hi = st.facts.get(("iv", m), (None, None))
        if truth:      # m + c < 0
            hi = -c - 1 if hi is None else min(hi, -c - 1)
        else:
            lo = -c if lo is None else max(lo, -c)
        st.facts[("iv", m)] = (lo, hi)
    def assume(self, st, c, truth):
        c = self.known(st, c)
        if not isinstance(c, T):
            if isinstance(c, str):
                return bool(truth)
            return bool(c) == truth
        if c.op == "not":
            return self.assume(st, c.a[0], not truth)
        if c is NULL:
            return not truth
        if nonnull(c):
            return truth
        if c.op == "eq":
            a, b = c.a
            for x, k in ((a, b), (b, a)):
                if isconst(k) and isinstance(x, T) and not isconst(x):
                    if not self.restrict(st, x, k, truth):
                        return False
                    break
            else:
                if truth and isinstance(a, T) and isinstance(b, T):
                    pass
        elif c.op in ("lt", "ult"):
            for x, y, sw in ((c.a[0], c.a[1], 0), (c.a[1], c.a[0], 1)):
                if isinstance(y, int) and isinstance(x, T):
                    f = st.facts.get(x)
                    if f and f[0] == "in" and all(isinstance(z, int) for z in f[1]):
                        keep = frozenset(z for z in f[1] if ((y < z) if sw else (z < y)) == truth)
                        if not keep:
                            return False
                        st.facts[x] = ("in", keep)
            self.note_lt(st, c, truth)
        elif c.op == "and":
            if truth:
                return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
        elif c.op == "or":
            if not truth:
                return self.assume(st, c.a[0], False) and self.assume(st, c.a[1], False)
        st.facts[c] = ("in", frozenset([1])) if truth and self.boolish(c) else ("in", frozenset([0])) if self.boolish(c) \
            else (self.fact_nonzero(st, c) if truth else self.fact_zero(st, c))
        return True
    def boolish(self, c):
        return c.op in ("eq", "lt", "ult", "and", "or", "isa", "bool")
    def fact_nonzero(self, st, c):
        f = st.facts.get(c)
        if f and f[0] == "in":
            return ("in", frozenset(x for x in f[1] if x != 0 and x is not NULL))
        s = frozenset([0, NULL]) | (f[1] if f else frozenset())
        return ("out", s)
    def fact_zero(self, st, c):
        return ("in", frozenset([0]))
    def restrict(self, st, x, k, truth):
        f = st.facts.get(x)
        if truth:
            if f and f[0] == "in" and k not in f[1]:
                return False
            if f and f[0] == "out" and k in f[1]:
                return False
            st.facts[x] = ("in", frozenset([k]))
        else:
            if f and f[0] == "in":
                n = f[1] - {k}
                if not n:
                    return False
                st.facts[x] = ("in", n)
            else:
                st.facts[x] = ("out", (f[1] if f else frozenset()) | {k})
        return True
    def branch(self, st, c):
        """[(bool, state)] for a condition value."""
        c = self.known(st, c)
        if not isinstance(c, T) or c is NULL or nonnull(c):
            if c is NULL:
                return [(False, st)]
            if isinstance(c, T) or isinstance(c, str):
                return [(True, st)]
            return [(bool(c), st)]
        s2 = st.copy()
        r = []
        if self.assume(st, c, True):
            r.append((True, st))
        if self.assume(s2, c, False):
            r.append((False, s2))
        return r

    # ---- joining
    def merge(self, outs):
        """Joins states that agree on memory and effects."""
        if len(outs) < 2:
            return outs
        res = []
        buckets = {}
        for o in outs:
            ctl, v, st = o
            k = (ctl, v if not isinstance(v, float) else repr(v), len(st.h), id(st.eff))
            placed = False
            for i in buckets.get(k, ()):
                c2, v2, s2 = res[i]
                if s2.eff is st.eff and s2.h == st.h and s2.cnt == st.cnt:
                    nf = {}
                    for t, f in s2.facts.items():
                        g = st.facts.get(t)
                        if g == f:
                            nf[t] = f
                        elif g and isinstance(t, T) and f[0] == g[0] == "in":
                            nf[t] = ("in", f[1] | g[1])
                        elif g and isinstance(t, T) and f[0] == g[0] == "out":
                            x = f[1] & g[1]
                            if x:
                                nf[t] = ("out", x)
                        elif g and isinstance(t, T):
                            i_, o_ = (f, g) if f[0] == "in" else (g, f)
                            x = o_[1] - i_[1]
                            if x:
                                nf[t] = ("out", x)
                    s2.facts = nf
                    s2.n = max(s2.n, st.n)
                    placed = True
                    break
            if not placed:
                buckets.setdefault(k, []).append(len(res))
                res.append(o)
        if len(res) > self.maxstates:
            raise Limit("more than %d abstract states in %s" % (self.maxstates, self.stack[-1][0] if self.stack else "?"))
        return res

    # ---- expressions
    def ev(self, n, st):
        """[(value, state)]"""
        if n is None:
            return [(VOID, st)]
        self.nsteps += 1
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return [(self.unk(st, n), st)]
        return m(n, st)
    def unk(self, st, n, why=None):
        w = n.get("w", n["k"]) if why is None else why
        self.unknown[w] = self.unknown.get(w, 0) + 1
        return mk("unk", w, st.fresh())
    def evs(self, ns, st):
        outs = [((), st)]
        for n in ns:
            nxt = []
            for vs, s in outs:
                for v, s2 in self.ev(n, s):
                    nxt.append((vs + (v,), s2))
            outs = nxt
        return outs
    def e_int(self, n, st):
        v = n["v"]
        if isinstance(v, str):
            v = int(v[1:])
        return [(v, st)]
    def e_float(self, n, st):
        return [(float(n["v"]), st)]
    def e_str(self, n, st):
        return [(n["v"], st)]
    def e_null(self, n, st):
        return [(NULL, st)]
    def e_void(self, n, st):
        return [(VOID, s) for v, s in self.ev(n["e"], st)]
    def e_zero(self, n, st):
        return [(self.zeroval(st, n["t"]), st)]
    def zeroval(self, st, t):
        if t.endswith("*"):
            return NULL
        if self.isrec(t):
            c = strip(t)
            o = self.newobj(st, c)
            for f in self.p.allfields(c):
                st.set(o, f["n"], self.zeroval(st, f["t"]))
            return o
        s = short(strip(t))
        if s in ("std::vector", "std::deque"):
            return mk("vec")
        if s in ("std::map", "std::set", "std::unordered_map"):
            return mk("map")
        if s == "std::string" or strip(t).startswith("std::basic_string<"):
            return ""
        if "unique_ptr" in s or "function" in s:
            return NULL
        return 0
    def e_this(self, n, st):
        return [(self.this(st), st)]
    def this(self, st):
        v = self.lookup(st, "this")
        if v is None:
            raise AnalysisError("no this in " + str(self.stack[-1:]))
        return self.load(st, v)
    def e_fn(self, n, st):
        return [(mk("fn", n["f"]["id"]), st)]
    def e_ld(self, n, st):
        e = n["e"]
        out = []
        for loc, s in self.lv(e, st):
            v = self.load(s, loc, None)
            out.append((self.known(s, v), s))
        return out
    def e_temp(self, n, st):
        return self.ev(n["e"], st)
    def glv(self, n, st):
        out = []
        for loc, s in self.lv(n, st):
            out.append((self.load(s, loc), s))
        return out
    e_var = e_mem = e_idx = glv
    def lookup(self, st, vid):
        """Cell of a local variable, through the closure chain."""
        fr = self.stack[-1][1]
        while fr is not None:
            d = st.h.get(fr)
            if d is not None and vid in d:
                return ("c", fr, vid)
            fr = d.get("__parent") if d else None
        return None
    def lv(self, n, st):
        """[(location, state)]"""
        k = n["k"]
        if k == "var":
            v = n["v"]
            vid = v["id"]
            if v.get("g"):
                loc = ("c", "glob", vid)
                if v["t"].endswith("&"):
                    return [(self.deref(self.load(st, loc)), st)]
                return [(loc, st)]
            loc = self.lookup(st, vid)
            if loc is None:
                loc = ("c", self.stack[-1][1], vid)
                return [(loc, st)]
            val = st.get(loc[1], loc[2])
            if v.get("binding"):
                if isinstance(val, T) and val.op == "addr":
                    return [(val.a[0], st)]
                return [(loc, st)]
            if v["t"].endswith("&"):
                if isinstance(val, T) and val.op == "addr":
                    return [(val.a[0], st)]
                if isinstance(val, T) and val.op == "it":
                    return [(self.deref(val), st)]
                return [(("v", val) if not self.isrec(v["t"]) and not isinstance(val, T) else loc, st)]
            if isinstance(val, T) and val.op == "capref":
                return [(val.a[0], st)]
            return [(loc, st)]
        if k == "mem":
            out = []
            for b, s in self.ev(n["b"], st):
                b = self.known(s, b)
                loc = self.fieldloc(s, b, n)
                if (n.get("cls"), n["f"]) in self.reffields():
                    # a member that is a reference
                    v = self.load(s, loc)
                    if isinstance(v, T) and v.op == "addr":
                        loc = v.a[0]
                out.append((loc, s))
            return out
        if k == "un" and n["op"] == "*":
            if self.isrec(n.get("t", "")):
                return [(("v", self.known(s, v)) if isinstance(v, T) and v.op not in ("addr", "it") else self.deref(v), s)
                        for v, s in self.ev(n["e"], st)]
            return [(self.deref(v), s) for v, s in self.ev(n["e"], st)]
        if k == "un" and n["op"] in ("++", "--"):
            return [(loc, s) for loc, v, s in self.incdec(n, st)]
        if k == "idx":
            out = []
            for b, s in self.ev(n["b"], st):
                for i, s2 in self.ev(n["i"], s):
                    out.append((self.elemloc(b, i), s2))
            return out
        if k == "assign":
            return [(loc, s) for loc, v, s in self.assign(n, st)]
        if k == "temp":
            e = n["e"]
            out = []
            for v, s in self.ev(e, st):
                if isinstance(v, T) and v.op == "obj":
                    out.append((("v", v), s))
                    continue
                o = mk("tmp", s.fresh())
                s.set(o, "*", v)
                out.append((("c", o, "*"), s))
            return out
        if k == "cond":
            out = []
            for c, s in self.ev(n["c"], st):
                for b, s2 in self.branch(s, c):
                    out += self.lv(n["x"] if b else n["y"], s2)
            return out
        if k == "bin" and n["op"] == ",":
            out = []
            for v, s in self.ev(n["x"], st):
                out += self.lv(n["y"], s)
            return out
        if k == "cast":
            if n["ck"] in ("LValueBitCast", "BaseToDerived", "NoOp"):
                return self.lv(n["e"], st)
        if k == "call":
            out = []
            for v, s in self.ev(n, st):
                if isinstance(v, T) and v.op == "addr":
                    out.append((v.a[0], s))
                elif isinstance(v, T) and v.op == "it":
                    out.append((self.deref(v), s))
                else:
                    out.append((("v", v), s))
            return out
        if k == "this":
            return [(("v", self.this(st)), st)]
        out = []
        for v, s in self.ev(n, st):
            out.append((("v", v), s))
        return out
    def fieldloc(self, s, b, n):
        f = n["f"]
        t = n.get("t", "")
        if isinstance(b, T) and b.op == "addr":
            # address of a cell holding a record handle or std value
            l = b.a[0]
            v = self.load(s, l)
            if isinstance(v, T) and v.op in ("pair", "tuple"):
                return ("e", l, {"first": 0, "second": 1}.get(f, f))
            b = v if self.isrec(n.get("cls", "")) or isinstance(v, T) and v.op == "obj" else b
        if isinstance(b, T) and b.op == "it":
            v = self.load(s, self.deref(b))
            if isinstance(v, T) and v.op in ("pair", "tuple"):
                return ("e", self.deref(b), {"first": 0, "second": 1}.get(f, f))
            b = v
        if isinstance(b, T) and b.op in ("pair", "tuple"):
            i = {"first": 0, "second": 1}.get(f)
            # find a cell so that stores work
            if n["b"]["k"] in ("var", "mem", "idx"):
                ls = self.lv(n["b"], s)
                if len(ls) == 1 and not n["a"]:
                    return ("e", ls[0][0], i)
            return ("v", b.a[i])
        if b is NULL:
            s.add("nullderef", (f,), None, self.stack[-1][0], n.get("l", 0))
        else:
            self.ondere(s, b, n)
        loc = ("c", b, f)
        return loc
    def ondere(self, s, b, n):
        pass
    def elemloc(self, b, i):
        if isinstance(b, T) and b.op == "addr":
            l = b.a[0]
            if l[0] == "ptr":
                return ("ptr", l[1], add(l[2], i) if not isinstance(i, (tuple, str)) else i)
            if l[0] in ("c", "e"):
                return ("e", l, i)
        if isinstance(b, T) and b.op == "lin":
            l = self.deref(b)
            if l[0] == "ptr":
                return ("ptr", l[1], add(l[2], i))
        return ("ptr", b, i)
    def e_un(self, n, st):
        op = n["op"]
        if op == "&":
            out = []
            for loc, s in self.lv(n["e"], st):
                if loc[0] == "v":
                    out.append((loc[1] if isinstance(loc[1], T) else addr(loc), s))
                    continue
                v = self.load(s, loc)
                if isinstance(v, T) and (v.op == "obj") and v.a[1] in self.p.classes and self.isrec(n["t"].rstrip("* ")):
                    out.append((v, s))
                elif self.isrec(n["t"][:-1]) and isinstance(v, T):
                    out.append((v, s))
                elif loc[0] == "ptr" and loc[2] == 0:
                    out.append((loc[1], s))
                elif loc[0] == "ptr" and self.isptr(loc[1]):
                    out.append((add(loc[1], loc[2]), s))
                else:
                    out.append((addr(loc), s))
            return out
        if op == "*":
            return self.glv(n, st)
        if op in ("++", "--", "p++", "p--"):
            return [(v, s) for loc, v, s in self.incdec(n, st)]
        out = []
        for v, s in self.ev(n["e"], st):
            if op == "!":
                r = lnot(self.known(s, v))
            elif op == "-":
                r = -v if isinstance(v, (int, float)) else (mk("fneg", v) if "double" in n["t"] or "float" in n["t"] else scale(v, -1))
                r = wrap(r, n["t"])
            elif op == "+":
                r = v
            elif op == "~":
                r = wrap(~v, n["t"]) if isinstance(v, int) else mk("bnot", v)
            else:
                r = mk("un" + op, v)
            out.append((r, s))
        return out
    def incdec(self, n, st):
        op = n["op"]
        d = 1 if "++" in op else -1
        out = []
        for loc, s in self.lv(n["e"], st):
            v = self.known(s, self.load(s, loc))
            if isinstance(v, T) and v.op == "it":
                nv = mk("it", v.a[0], add(v.a[1], d))
            else:
                try:
                    nv = wrap(add(v, d), n["t"])
                except TypeError:
                    nv = mk("unk", "inc", s.fresh())
            if isinstance(v, T) and v.op == "addr" and v.a[0][0] == "ptr":
                nv = addr(("ptr", v.a[0][1], add(v.a[0][2], d)))
            self.store(s, loc, nv)
            out.append((loc, v if op[0] == "p" else nv, s))
        return out
    def e_bin(self, n, st):
        op = n["op"]
        out = []
        if op in ("&&", "||"):
            for a, s in self.ev(n["x"], st):
                a = self.known(s, a)
                for b, s2 in self.branch(s, a):
                    if b == (op == "||"):
                        out.append((int(b), s2))
                    else:
                        for v, s3 in self.ev(n["y"], s2):
                            out.append((self.tobool(s3, v), s3))
            return out
        if op == ",":
            for a, s in self.ev(n["x"], st):
                out += self.ev(n["y"], s)
            return out
        for a, s in self.ev(n["x"], st):
            for b, s2 in self.ev(n["y"], s):
                out.append((self.known(s2, self.binop(op, a, b, n, s2)), s2))
        return out
    def tobool(self, st, v):
        v = self.known(st, v)
        if isinstance(v, (int, float)):
            return int(bool(v))
        if v is NULL:
            return 0
        if nonnull(v):
            return 1
        if isinstance(v, T):
            f = st.facts.get(v)
            if f and f[0] == "out" and (0 in f[1] or NULL in f[1]):
                return 1
        return v
    def binop(self, op, a, b, n, st):
        t = n["t"]
        xt = n["x"].get("t") or self.ety(n["x"])
        uns = strip(xt) in WIDTH and not WIDTH[strip(xt)][1]
        fl = isinstance(a, float) or isinstance(b, float) or (xt in ("double", "float"))
        if op == "==":
            return eq(self.ka(a), self.ka(b))
        if op == "!=":
            return lnot(eq(self.ka(a), self.ka(b)))
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, T) and a.op == "it" and isinstance(b, T) and b.op == "it":
                a, b = a.a[1], b.a[1]
            if op == "<":
                return lt(a, b, uns)
            if op == ">":
                return lt(b, a, uns)
            if op == "<=":
                return lnot(lt(b, a, uns))
            return lnot(lt(a, b, uns))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if op == "+": return wrap(a + b, t)
                if op == "-": return wrap(a - b, t)
                if op == "*": return wrap(a * b, t)
                if op == "/":
                    if fl: return a / b
                    q = abs(a) // abs(b)
                    return wrap(q if (a < 0) == (b < 0) else -q, t)
                if op == "%":
                    q = abs(a) % abs(b)
                    return wrap(-q if a < 0 else q, t)
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
                if op == "<<": return wrap(a << b, t)
                if op == ">>": return a >> b
            except (ZeroDivisionError, ValueError):
                return mk("undef-arith", op, a, b)
        if op in ("+", "-", "*") and fl:
            return comm("f" + op, a, b) if op != "-" else mk("f-", a, b)
        if op in ("+", "-"):
            if isinstance(a, T) and a.op == "it" and op == "+":
                return mk("it", a.a[0], add(a.a[1], b))
            if isinstance(a, T) and a.op == "it" and op == "-":
                if isinstance(b, T) and b.op == "it":
                    return sub(a.a[1], b.a[1])
                return mk("it", a.a[0], sub(a.a[1], b))
            if isinstance(a, T) and a.op == "addr" and a.a[0][0] == "ptr":
                if not (isinstance(b, T) and b.op == "addr"):
                    o = a.a[0][2]
                    return addr(("ptr", a.a[0][1], add(o, b) if op == "+" else sub(o, b)))
                if op == "-" and b.a[0][0] == "ptr" and b.a[0][1] is a.a[0][1]:
                    return sub(a.a[0][2], b.a[0][2])
            if isinstance(a, (str,)) or isinstance(b, (str,)):
                return mk("ptr" + op, a, b)
            try:
                r = add(a, b) if op == "+" else sub(a, b)
            except TypeError:
                return mk(op, a, b)
            return wrap(r, t)
        try:
            if op == "*":
                return wrap(mul(a, b), t)
        except TypeError:
            pass
        nm = {"/": "udiv" if uns else "div", "%": "umod" if uns else "mod", "&": "and_", "|": "or_", "^": "xor",
              "<<": "shl", ">>": "lshr" if uns else "ashr", "*": "mul"}.get(op, op)
        if fl and op == "/":
            nm = "fdiv"
        if op in ("&", "|", "^"):
            if op == "&" and (a == 0 or b == 0):
                return 0
            if op == "|" and a == 0: return b
            if op == "|" and b == 0: return a
            return comm(nm, a, b)
        if op == "<<" and isinstance(b, int) and not isinstance(a, str):
            return scale(a, 1 << b)
        return mk(nm, a, b)
    def ka(self, v):
        if isinstance(v, T) and v.op == "addr" and v.a[0][0] == "v":
            return v.a[0][1]
        return v
    def ety(self, n):
        k = n["k"]
        if k == "ld":
            return self.ety(n["e"])
        if k == "var":
            return n["v"]["t"]
        return n.get("t", "int")
    def e_assign(self, n, st):
        return [(v, s) for loc, v, s in self.assign(n, st)]
    def assign(self, n, st):
        op = n["op"]
        out = []
        if op == "=":
            for v, s in self.ev(n["y"], st):
                for loc, s2 in self.lv(n["x"], s):
                    if self.isrec(n["t"]):
                        v = self.copyrec(s2, v)
                    self.store(s2, loc, self.known(s2, v))
                    out.append((loc, v, s2))
            return out
        for b, s in self.ev(n["y"], st):
            for loc, s2 in self.lv(n["x"], s):
                a = self.known(s2, self.load(s2, loc))
                v = self.binop(op[:-1], a, b, {"t": n.get("ct") or n["t"], "x": {"k": "x", "t": n.get("ct") or n["t"]}}, s2)
                v = self.convint(v, n["t"], n.get("ct") or n["t"])
                self.store(s2, loc, v)
                out.append((loc, v, s2))
        return out
    def convint(self, v, t, ft):
        if isinstance(v, (int,)):
            e = self.enumof(t)
            return wrap(v, e["u"] if e else t)
        wt, wf = WIDTH.get(strip(t)), WIDTH.get(strip(ft))
        if isinstance(v, T) and wt and wf and wt[0] < wf[0] and wt[0] > 1:
            if v.op in ("at", "deref", "fld", "sym", "elem") :
                # already an object of that type?
                pass
            return self.trunc(v, wt)
        return v
    def trunc(self, v, w):
        if v.op in ("u8", "s8", "u16", "s16", "u32", "s32") and v.op == ("s" if w[1] else "u") + str(w[0]):
            return v
        return mk(("s" if w[1] else "u") + str(w[0]), v)
    def e_cond(self, n, st):
        out = []
        for c, s in self.ev(n["c"], st):
            for b, s2 in self.branch(s, c):
                out += self.ev(n["x"] if b else n["y"], s2)
        return out
    def e_bcond(self, n, st):
        out = []
        for c, s in self.ev(n["c"], st):
            for b, s2 in self.branch(s, c):
                out += [(c, s2)] if b else self.ev(n["y"], s2)
        return out
    def e_cast(self, n, st):
        ck = n["ck"]
        out = []
        if ck == "ArrayToPointerDecay":
            e = n["e"]
            if e["k"] == "str":
                return [(e["v"], st)]
            for loc, s in self.lv(e, st):
                if loc[0] == "v":
                    out.append((loc[1], s))
                else:
                    v = st.get(loc[1], loc[2]) if loc[0] == "c" else None
                    if loc[0] == "c" and not (isinstance(v, T) and v.op == "vec"):
                        # array object: identify by its address
                        out.append((addr(("ptr", mk("arr", loc[1], loc[2]), 0)), s))
                    else:
                        out.append((addr(loc), s))
            return out
        for v, s in self.ev(n["e"], st):
            if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
                v = self.tobool(s, v)
                if isinstance(v, T) and ck == "IntegralToBoolean" and not self.boolish(v) and v.op != "not":
                    v = lnot(eq(v, 0))
                elif isinstance(v, T) and ck == "PointerToBoolean":
                    v = self.known(s, lnot(eq(v, NULL)))
            elif ck in ("IntegralCast", "BooleanToSignedIntegral"):
                v = self.convint(v, n["t"], n["ft"])
            elif ck == "IntegralToFloating":
                v = float(v) if isinstance(v, int) else mk("tofloat", v)
            elif ck == "FloatingToIntegral":
                v = int(v) if isinstance(v, float) and abs(v) < 1e18 else mk("toint", n["t"], v)
            elif ck == "NullToPointer":
                v = NULL
            elif ck == "IntegralToPointer":
                v = NULL if v == 0 else v
            out.append((v, s))
        return out
    def e_sizeof(self, n, st):
        return [(mk("sizeof", n["of"]), st)]
    def e_stdinit(self, n, st):
        return self.ev(n["e"], st)
    def e_ilist(self, n, st):
        t = n["t"]
        if self.isrec(t):
            c = strip(t)
            out = []
            fs = self.p.allfields(c)
            for vs, s in self.evs(n["a"], st):
                o = self.newobj(s, c)
                vs = list(vs)
                if vs and len(vs) != len(fs):
                    # base-class initialisers come as one nested object
                    exp = []
                    for v in vs:
                        exp.append(v)
                    vs = exp
                for f, v in zip(fs, vs):
                    s.set(o, f["n"], v)
                out.append((o, s))
            return out
        if not n["a"] and not t.endswith("]"):
            return [(self.zeroval(st, t), st)]
        if (strip(t) in WIDTH or t.endswith("*")) and len(n["a"]) == 1:
            return self.ev(n["a"][0], st)
        out = []
        for vs, s in self.evs(n["a"], st):
            if short(strip(t)) == "std::pair" and len(vs) == 2:
                out.append((mk("pair", *vs), s))
            elif short(strip(t)) == "std::array" and len(vs) == 1:
                out.append((vs[0], s))
            else:
                out.append((mk("vec", *vs), s))
        return out
    def e_stmtexpr(self, n, st):
        out = []
        for ctl, v, s in self.ex(n["s"], st):
            out.append((v, s))
        return out
    def e_delete(self, n, st):
        out = []
        for v, s in self.ev(n["e"], st):
            s.add("delete", (v,), None, self.stack[-1][0], n["l"])
            out.append((VOID, s))
        return out
    def e_new(self, n, st):
        t = n["t"]
        if self.isrec(t):
            i = n.get("i")
            if i is not None:
                return self.ev(i, st)
            return [(self.newobj(st, strip(t)), st)]
        out = []
        if n.get("i") is not None:
            for v, s in self.ev(n["i"], st):
                if isinstance(v, T) and v.op.startswith("make:llvm::"):
                    out.append((v, s))
                    continue
                o = mk("tmp", s.fresh())
                s.set(o, "*", v)
                out.append((addr(("c", o, "*")), s))
            return out
        args = [n["arr"]] if n.get("arr") is not None else []
        for vs, s in self.evs(args, st):
            o = mk("sym", "&new%d" % s.fresh())
            s.add("new", (t,) + vs, o, self.stack[-1][0], n["l"])
            out.append((o, s))
        return out
    def e_lambda(self, n, st):
        clo = mk("clo", st.fresh())
        fr = self.stack[-1][1]
        outs = [st]
        for c in n["caps"]:
            nxt = []
            for s in outs:
                if c.get("this"):
                    s.set(clo, "this", self.this(s))
                    nxt.append(s)
                    continue
                v = c.get("v")
                if v is None:
                    nxt.append(s)
                    continue
                init = c.get("i")
                if init is not None and c.get("ref"):
                    for loc, s2 in self.lv(init, s):
                        if v["t"].endswith("&"):
                            s2.set(clo, v["id"], addr(loc) if loc[0] != "v" else loc[1])
                        else:
                            s2.set(clo, v["id"], mk("capref", loc))
                        nxt.append(s2)
                elif init is not None:
                    for x, s2 in self.ev(init, s):
                        s2.set(clo, v["id"], x)
                        nxt.append(s2)
                else:
                    loc = self.lookup(s, v["id"])
                    if loc:
                        s.set(clo, v["id"], mk("capref", loc))
                    nxt.append(s)
            outs = nxt
        lam = mk("lam", n["fn"]["id"], clo)
        self.lams[n["fn"]["id"]] = n["fn"]
        return [(lam, s) for s in outs]
    def calllam(self, lam, args, st):
        fn = self.lams[lam.a[0]]
        return self.invoke(fn, None, args, st, parent=lam.a[1])

    def e_unk(self, n, st):
        return [(self.unk(st, n), st)]

    # ---- constructors
    def e_ctor(self, n, st):
        cls = n["cls"]
        fid = n["f"]["id"]
        if cls in self.p.classes:
            r = self.trymodel(n, n["f"], None, None, st)
            if r is not None:
                return r
            fn = self.p.fns.get(fid)
            implicit = fn is None or fn.get("implicit")
            if n.get("copy") and implicit:
                out = []
                for v, s in self.ev(n["a"][0], st):
                    out.append((self.copyrec(s, v, None), s))
                return out
            if fn is None:
                out = []
                for vs, s in self.evargs(n["a"], n["f"]["pt"], st):
                    o = self.newobj(s, cls)
                    self.fieldinits(s, o, cls)
                    s.add("ctor", (cls,) + vs, o, self.stack[-1][0] if self.stack else None, n["l"])
                    out.append((o, s))
                return out
            out = []
            for vs, s in self.evargs(n["a"], n["f"]["pt"], st):
                o = self.newobj(s, cls)
                for v, s2 in self.invoke(fn, o, vs, s):
                    s2.set(o, "__cls", cls)
                    out.append((o, s2))
            return out
        return self.stdctor(n, st)
    def fieldinits(self, st, o, cls):
        c = self.p.classes.get(cls)
        for b in c.get("bases", []):
            if b in self.p.classes:
                self.fieldinits(st, o, b)
        for f in c["fields"]:
            if st.get(o, f["n"]) is None:
                if f.get("i") is not None:
                    r = self.ev(f["i"], st)
                    st.set(o, f["n"], r[0][0])
                elif not self.isrec(f["t"]) and strip(f["t"]) not in WIDTH and not f["t"].endswith("*") and "::" in f["t"]:
                    z = self.zeroval(st, f["t"])
                    if z != 0:
                        st.set(o, f["n"], z)

    def stdctor(self, n, st):
        cls = short(n["cls"])
        out = []
        for vs, s in self.evargs(n["a"], n["f"]["pt"], st):
            vs = tuple(self.val(s, v) for v in vs)
            r = None
            if n.get("copy"):
                r = vs[0]
            elif cls in ("std::vector", "std::deque", "std::__cxx11::list", "std::list"):
                if not vs:
                    r = mk("vec")
                elif isinstance(vs[0], T) and vs[0].op == "vec":
                    r = vs[0]
                elif len(vs) == 1 or n["f"]["pt"][0].startswith("unsigned long"):
                    if isinstance(vs[0], int) and vs[0] < 200:
                        el = n["cls"][n["cls"].find("<") + 1:].split(",")[0]
                        init = vs[1] if len(vs) > 1 and not n["f"]["pt"][1].startswith("const std::allocator") else self.zeroval(s, el)
                        r = mk("vec", *([init] * vs[0]))
                elif len(vs) >= 2:
                    r = self.itrange(s, vs[0], vs[1])
            elif cls in ("std::basic_string", "std::string", "std::basic_string_view"):
                if not vs:
                    r = ""
                elif n["f"]["pt"] and n["f"]["pt"][0].startswith("unsigned long") and isinstance(vs[0], int) and isinstance(vs[1], int):
                    r = chr(vs[1]) * vs[0]
                elif len(vs) == 1 or "alloc" in n["f"]["pt"][1]:
                    r = vs[0]
            elif cls in ("std::map", "std::set", "std::unordered_map", "std::unordered_set"):
                if not vs:
                    r = mk("map")
                elif isinstance(vs[0], T) and vs[0].op == "vec":
                    if "map" in cls:
                        r = mk("map", *[(x.a[0], x.a[1]) if isinstance(x, T) and x.op == "pair" else (x, x) for x in vs[0].a])
                    else:
                        r = mk("map", *[(x, x) for x in vs[0].a])
            elif cls == "std::pair":
                if len(vs) == 2:
                    r = mk("pair", *vs)
                elif not vs:
                    r = mk("pair", 0, 0)
                elif isinstance(vs[0], T) and vs[0].op == "pair":
                    r = vs[0]
            elif cls == "std::tuple":
                r = mk("tuple", *vs)
            elif cls in ("std::unique_ptr", "std::shared_ptr"):
                r = vs[0] if vs else NULL
            elif cls == "std::function":
                r = vs[0] if vs else NULL
            elif cls == "std::optional":
                r = vs[0] if vs else NULL
            elif cls == "std::reverse_iterator" or cls.endswith("iterator"):
                r = vs[0] if len(vs) == 1 else None
            elif cls in ("llvm::ArrayRef", "llvm::StringRef", "llvm::Twine", "llvm::FunctionCallee", "std::initializer_list",
                         "llvm::MaybeAlign", "llvm::Align", "std::vector::const_iterator", "llvm::ArrayRef::iterator", "llvm::cl::initializer"):
                if len(vs) == 1:
                    r = vs[0]
                elif cls == "llvm::ArrayRef" and len(vs) == 2 and isinstance(vs[1], int) and isinstance(vs[0], T) and vs[0].op == "addr" and vs[0].a[0][0] == "ptr" \
                        and vs[0].a[0][2] == 0 and vs[1] <= 4096:
                    # the elements of a local array
                    r = mk("vec", *[self.load(s, ("ptr", vs[0].a[0][1], i)) for i in range(vs[1])])
                elif not vs:
                    r = "" if cls in ("llvm::StringRef", "llvm::Twine") else mk("none", cls)
            if r is None:
                r = mk("make:" + cls, *vs)
                if cls == "llvm::GlobalVariable" and self.presets.get("#whole"):
                    for x in vs:
                        if isinstance(x, str) and x and s.get("glob", "#gvar:" + x) is None:
                            s.set("glob", "#gvar:" + x, r)
                if cls.startswith("llvm::") and cls not in ("llvm::APInt", "llvm::APFloat", "llvm::Align"):
                    s.add("make:" + cls, vs, r, self.stack[-1][0] if self.stack else None, n["l"])
            out.append((r, s))
        return out
    def itrange(self, s, a, b):
        if isinstance(a, T) and a.op == "it" and isinstance(b, T) and b.op == "it" and a.a[0] == b.a[0]:
            c = self.load(s, a.a[0])
            i, j = a.a[1], b.a[1]
            if isinstance(c, T) and c.op == "vec":
                i = self.endidx(c, i)
                j = self.endidx(c, j)
                if isinstance(i, int) and isinstance(j, int):
                    return mk("vec", *c.a[i:j])
            return mk("slice", c, i, j)
        return None
    def endidx(self, c, i):
        if isinstance(i, int):
            return i
        d = sub(i, mk("size", c)) if isinstance(i, T) else None
        if isinstance(d, int) and c.op == "vec":
            return len(c.a) + d
        return i

    # ---- calls
    def val(self, st, v):
        """Reads through a reference argument."""
        if isinstance(v, T) and v.op == "addr" and len(v.a) == 2 and v.a[1] == "ref":
            return self.known(st, self.load(st, v.a[0]))
        return v
    def evargs(self, ns, pts, st):
        outs = [((), st)]
        for i, n in enumerate(ns):
            pt = pts[i] if i < len(pts) else ""
            nxt = []
            for vs, s in outs:
                if pt.endswith("&") and n is not None:
                    for loc, s2 in self.lv(n, s):
                        if loc[0] == "v":
                            nxt.append((vs + (loc[1],), s2))
                        else:
                            v = self.load(s2, loc)
                            if self.isrec(pt) or (isinstance(v, T) and v.op in ("obj",) and not pt.rstrip(" &").endswith("*")):
                                nxt.append((vs + (v,), s2))
                            else:
                                nxt.append((vs + (mk("addr", loc, "ref"),), s2))
                else:
                    for v, s2 in self.ev(n, s):
                        nxt.append((vs + (v,), s2))
            outs = nxt
        return outs
    def e_call(self, n, st):
        f = n.get("f")
        if f is None:
            # through a pointer
            out = []
            for fp, s in self.ev(n["fp"], st):
                for vs, s2 in self.evs(n["a"], s):
                    if isinstance(fp, T) and fp.op == "fn" and fp.a[0] in self.p.fns:
                        out += self.invoke(self.p.fns[fp.a[0]], None, vs, s2)
                    elif isinstance(fp, T) and fp.op == "lam":
                        out += self.calllam(fp, vs, s2)
                    else:
                        if isinstance(fp, T) and fp.op == "fn" and self.hook:
                            h = self.hook(self, n, {"n": fp.a[0], "p": [], "pt": []}, None, vs, s2)
                            if h is not None:
                                out += h
                                continue
                        r = mk("callptr", fp, *vs)
                        s2.add("callptr", (fp,) + vs, r, self.stack[-1][0], n["l"])
                        out.append((r, s2))
            return out
        if "o" in n:
            out = []
            cls = f.get("cls", "")
            repo = cls in self.p.classes
            for o, s in (self.ev(n["o"], st) if (repo or n["oa"]) else self.objloc(n["o"], st)):
                o = self.known(s, o)
                if repo and isinstance(o, T) and o.op == "addr" and o.a[0][0] != "ptr":
                    o = self.load(s, o.a[0])
                for vs, s2 in self.evargs(n["a"], f["pt"], s):
                    out += self.dispatch(n, f, o, vs, s2)
            return out
        out = []
        for vs, s in self.evargs(n["a"], f["pt"], st):
            out += self.dispatch(n, f, None, vs, s)
        return out
    def objloc(self, n, st):
        """Object of a method call on a library value: its address."""
        out = []
        for loc, s in self.lv(n, st):
            if loc[0] == "v":
                out.append((loc[1], s))
            else:
                out.append((mk("addr", loc, "obj"), s))
        return out
    def trymodel(self, n, f, o, vs, st):
        if self.hook:
            return self.hook(self, n, f, o, vs, st)
        return None
    def dispatch(self, n, f, o, vs, st):
        if o is NULL and f.get("cls", "") in self.p.classes:
            st.add("nullderef", (f["n"],), None, self.stack[-1][0] if self.stack else None, n["l"])
            if n.get("v"):
                return []
        last = f["n"].split("::")[-1]
        if last == "operator()" and isinstance(o, T):
            lam = o
            if lam.op == "addr":
                lam = self.load(st, lam.a[0])
            if isinstance(lam, T) and lam.op == "lam":
                fid2 = f["id"]
                if fid2 in self.p.fns and fid2 != lam.a[0] and self.p.fns[fid2].get("body"):
                    return self.invoke(self.p.fns[fid2], None, vs, st, parent=lam.a[1])
                return self.calllam(lam, vs, st)
        if last in self.noop:
            return [(VOID, st)]
        r = self.trymodel(n, f, o, vs, st)
        if r is not None:
            return r
        fid = f["id"]
        if n.get("v") and o is not None:
            m = st.get(o, "m:" + f["n"].split("::")[-1])
            if m is VOID and last == "accept" and vs and self.cls(st, vs[0]) not in (None, "TypeCheckVisitor"):
                # a visitor that looks for something gets to see the opaque node itself
                v = next((g for g in self.p.fns.values() if g["n"] == self.cls(st, vs[0]) + "::visit" or g.get("cls") == self.cls(st, vs[0]) and g["n"].endswith("::visit")), None)
                if v:
                    return [(VOID, s2) for _, s2 in self.invoke(v, vs[0], (o,), st)]
            if m is not None:
                return [(m, st)]
            c = self.cls(st, o)
            if c:
                fid = self.p.resolve(c, fid) or fid
            elif len(self.stack) and self.p.fns.get(fid) is None or True:
                nm = f["n"].split("::")[-1]
                res = mk("v:" + nm, o, *vs)
                if not f.get("const"):
                    k = st.count(("v", nm, o))
                    if k:
                        res = mk("v:" + nm, o, *(vs + (("#", k),)))
                st.add("v:" + nm, (o,) + vs, res, self.stack[-1][0] if self.stack else None, n["l"])
                if nm in self.bbmethods and not (nm == "Address" and o in SIMPLE):
                    st.set("glob", "#bb", mk("after", res))
                return [(res, st)]
        fn = self.p.fns.get(fid)
        if fn is not None and fn.get("body") is None:
            fn = None
        q = fn["n"] if fn is not None else f["n"]
        if fn is not None and f.get("cls", "") and "lambda" in f and False:
            fn = None
        if f.get("lambda"):
            pass
        if fn is not None and not (q in self.opaque or fid in self.opaque) and len(self.stack) < self.maxdepth \
                and sum(1 for x in self.stack if x[0] == q) < ((40 if self.presets.get("#whole") else 6) if q.endswith("LlvmType") else self.maxrec) and not (fn.get("implicit") and q.endswith("operator=")):
            return self.invoke(fn, o, vs, st)
        if self.overrun is not None and fn is not None and (q.startswith("Parser::") or q.startswith("Lexer::")) and not fn.get("implicit"):
            self.overrun({"rec": q}, [st])
        if fn is not None and fn.get("implicit") and q.endswith("operator="):
            src = vs[0]
            d = st.h.get(src) if isinstance(src, T) else None
            if isinstance(o, T):
                if d:
                    for k, v in list(d.items()):
                        if k not in ("__cls",):
                            st.set(o, k, v)
                else:
                    st.set(o, "__proto", src)
                    for k in list((st.h.get(o) or {}).keys()):
                        if k not in ("__cls", "__proto"):
                            st.set(o, k, mk("fld", src, k))
            return [(o, st)]
        s = short(f["n"])
        if fn is None and fid not in self.p.decls:
            r = self.model(s, n, f, o, vs, st)
            if r is not None:
                return r
        # opaque call
        vals = tuple(self.val(st, v) for v in vs)
        if self.cstr:
            vals = tuple(self.cstring(st, v, f["pt"][i] if i < len(f["pt"]) else "") for i, v in enumerate(vals))
            if f["n"] == "strlen" and isinstance(vals[0], str):
                return [(len(vals[0]), st)]
        if fn is None and fid not in self.p.decls and not f["n"].startswith("llvm::"):
            nm = s
        else:
            nm = q if fn is not None or fid in self.p.decls else s
        if f.get("noret"):
            st.add("noreturn:" + nm, vals, None, self.stack[-1][0] if self.stack else None, n["l"])
            self.exits.append(("x", st))
            return []
        pre = (o,) if o is not None else ()
        if o is not None and isinstance(o, T) and o.op == "addr" and len(o.a) == 2:
            pre = (self.load(st, o.a[0]),)
        res = mk("call:" + nm, *(pre + vals))
        if not self.pure(nm, f):
            k = st.count(res)
            if k:
                res = mk("call:" + nm, *(pre + vals + (("#", k),)))
        st.add(nm, pre + vals, res if n.get("t") != "void" else None, self.stack[-1][0] if self.stack else None, n["l"])
        # reference outputs
        for i, (v, pt) in enumerate(zip(vs, f["pt"])):
            if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&") and isinstance(v, T) and v.op == "addr" \
                    and not pt.startswith(("llvm::", "std::basic_ostream", "std::ostream")):
                self.store(st, v.a[0], mk("out", res, i))
        return [(VOID if n.get("t") == "void" else res, st)]
    cstr = False
    def cstring(self, st, v, t):
        """Contents of a local character array passed as a string to the C library."""
        if not t.startswith("const char") or not isinstance(v, T) or v.op not in ("addr", "lin"):
            return v
        l = self.deref(v)
        if l[0] != "ptr" or not (isinstance(l[1], T) and l[1].op == "arr") or not isinstance(l[2], int):
            return v
        r = ""
        for k in range(l[2], l[2] + 300):
            c = st.get(l[1], ("at", k))
            if not isinstance(c, int):
                return v
            if c == 0:
                return r
            r += chr(c & 255)
        return v
    def pure(self, nm, f):
        return bool(f.get("const")) or nm.startswith(("llvm::ConstantInt", "llvm::Type::", "llvm::PointerType", "llvm::ArrayType",
                    "llvm::StructType::get", "llvm::FunctionType", "llvm::ConstantFP", "llvm::Constant"))
    def invoke(self, fn, o, vs, st, parent=None):
        """Analyses a repository function body in context; [(value, state)]"""
        self.visited.add(fn["id"])
        fr = mk("fr", st.fresh())
        st.h[fr] = {}
        st.own.add(fr)
        if o is not None:
            st.set(fr, "this", o)
        if parent is not None:
            st.set(fr, "__parent", parent)
        for i, p in enumerate(fn["p"]):
            if i < len(vs):
                v = vs[i]
                if not p["t"].endswith("&"):
                    v = self.val(st, v)
                elif isinstance(v, T) and v.op == "addr":
                    v = addr(v.a[0])
                elif not isinstance(v, T) or v.op not in ("obj",):
                    if not self.isrec(p["t"]):
                        tm = mk("tmp", st.fresh())
                        st.set(tm, "*", v)
                        v = addr(("c", tm, "*"))
                st.set(fr, p["id"], v)
        self.stack.append((fn["n"], fr, fn))
        try:
            states = [st]
            if fn.get("ctor"):
                nxt = []
                for s in states:
                    nxt += self.ctorinits(fn, o, s)
                states = nxt
            outs = []
            for s in states:
                outs += self.ex(fn["body"], s) if fn.get("body") else [("n", VOID, s)]
            res = []
            for ctl, v, s in outs:
                s.h.pop(fr, None)
                res.append(("r", v, s))
            res = self.merge(res)
        finally:
            self.stack.pop()
        return [(v, s) for ctl, v, s in res]
    def ctorinits(self, fn, o, st):
        outs = [st]
        done = set()
        for i in fn.get("inits", []):
            nxt = []
            for s in outs:
                if "m" in i:
                    done.add(i["m"])
                    e = i["e"]
                    ft = None
                    for f in (self.p.classes.get(fn["cls"]) or {}).get("fields", []):
                        if f["n"] == i["m"]:
                            ft = f["t"]
                    if ft and ft.endswith("&"):
                        for loc, s2 in self.lv(e, s):
                            v = self.load(s2, loc)
                            s2.set(o, i["m"], v if self.isrec(ft) else addr(loc))
                            nxt.append(s2)
                    else:
                        for v, s2 in self.ev(e, s):
                            s2.set(o, i["m"], self.known(s2, v))
                            nxt.append(s2)
                elif "base" in i or "deleg" in i:
                    e = i["e"]
                    while e["k"] in ("temp",):
                        e = e["e"]
                    if e["k"] == "ctor" and e["cls"] in self.p.classes:
                        f2 = self.p.fns.get(e["f"]["id"])
                        if f2 is None or f2.get("implicit"):
                            if f2 is not None and f2["p"] and e.get("copy"):
                                for v, s2 in self.ev(e["a"][0], s):
                                    for k, x in list((s2.h.get(v) or {}).items()):
                                        s2.set(o, k, x)
                                    nxt.append(s2)
                                continue
                            if f2 is not None:
                                for vs, s2 in self.evargs(e["a"], e["f"]["pt"], s):
                                    nxt += [s3 for v, s3 in self.invoke(f2, o, vs, s2)]
                            else:
                                self.fieldinits(s, o, e["cls"])
                                nxt.append(s)
                            continue
                        for vs, s2 in self.evargs(e["a"], e["f"]["pt"], s):
                            nxt += [s3 for v, s3 in self.invoke(f2, o, vs, s2)]
                    elif e["k"] == "unk" and e.get("w") == "inhctor":
                        # inherited constructor: forward the parameters
                        b = i["base"]
                        cands = [g for g in self.p.fns.values() if g.get("ctor") and g.get("cls") == b and not g.get("implicit")
                                 and [p["t"] for p in g["p"]] == [p["t"] for p in fn["p"]]]
                        if len(cands) != 1:
                            cands = [g for g in self.p.fns.values() if g.get("ctor") and g.get("cls") == b
                                     and [p["t"] for p in g["p"]] == [p["t"] for p in fn["p"]]
                                     and not (len(g["p"]) == 1 and strip(g["p"][0]["t"]) == b)]
                        if len(cands) != 1:
                            # the inheriting class's base itself inherits
                            self.unk(s, {"k": "inhctor", "w": "inhctor " + b})
                            nxt.append(s)
                            continue
                        vs = tuple(s.get(self.stack[-1][1], p["id"]) for p in fn["p"])
                        nxt += [s3 for v, s3 in self.invoke(cands[0], o, vs, s)]
                    else:
                        nxt += [s2 for v, s2 in self.ev(e, s)]
                else:
                    nxt.append(s)
            outs = nxt
        for s in outs:
            c = self.p.classes.get(fn["cls"])
            if c:
                for f in c["fields"]:
                    if f["n"] not in done and f.get("i") is not None and s.get(o, f["n"]) is None:
                        r = self.ev(f["i"], s)
                        s.set(o, f["n"], r[0][0])
                    elif f["n"] not in done and s.get(o, f["n"]) is None:
                        z = self.zeroval(s, f["t"]) if ("std::" in f["t"] and not f["t"].endswith("*")) else None
                        if z is not None and z != 0:
                            s.set(o, f["n"], z)
        return outs

    # ---- library models: return [(value, state)] or None
    def model(self, s, n, f, o, vs, st):
        from . import models
        return models.model(self, s, n, f, o, vs, st)

    # ---- statements: [(ctl, value, state)]
    def ex(self, n, st):
        if n is None:
            return [("n", VOID, st)]
        self.nsteps += 1
        return getattr(self, "s_" + n["k"], self.s_bad)(n, st)
    def s_bad(self, n, st):
        raise AnalysisError("statement %s" % (n.get("w") or n["k"]))
    def s_nop(self, n, st):
        return [("n", VOID, st)]
    def s_expr(self, n, st):
        return self.merge([("n", VOID, s) for v, s in self.ev(n["e"], st)])
    def s_block(self, n, st):
        return self.scope(n["s"], st)
    def scope(self, ss, st):
        """The statements of a block; the locals whose destructors do
        something are destroyed, last first, however the block is left."""
        for i, x in enumerate(ss):
            d = self.destructor(x)
            if d is None:
                continue
            fr = self.stack[-1][1]
            vid = x["v"]["id"]
            res = []
            for ctl, v, s in self.seq(ss[:i + 1], st):
                if ctl != "n":
                    res.append((ctl, v, s))
                    continue
                for c2, v2, s2 in self.scope(ss[i + 1:], s):
                    for _, s3 in self.invoke(d, s2.get(fr, vid), [], s2):
                        res.append((c2, v2, s3))
            return self.merge(res)
        return self.seq(ss, st)
    def destructor(self, x):
        if x is None or x["k"] != "decl" or x.get("static") or x["v"]["t"].endswith(("&", "*")):
            return None
        cls = strip(x["v"]["t"])
        if cls in ("TimeTrace", "TimeTraceImpl", "DebugInfo"):
            return None
        tab = getattr(self.p, "_dtors", None)
        if tab is None:
            tab = self.p._dtors = {f["cls"]: f for f in self.p.fns.values() if f.get("dtor") and f.get("body") and f["body"]["s"]}
        return tab.get(cls)
    def seq(self, ss, st):
        cur = [st]
        out = []
        for x in ss:
            nxt = []
            for s in cur:
                for o in self.ex(x, s):
                    if o[0] == "n":
                        nxt.append(o)
                    else:
                        out.append(o)
            cur = [o[2] for o in self.merge(nxt)]
            if not cur:
                break
        return self.merge(out + [("n", VOID, s) for s in cur])
    def s_decl(self, n, st):
        v = n["v"]
        if n.get("static"):
            if st.get("glob", v["id"]) is None:
                if v["id"] in self.presets:
                    st.set("glob", v["id"], self.presets[v["id"]])
                elif "i" in n and n["i"] is not None:
                    return [("n", VOID, self._setg(s, v["id"], x)) for x, s in self.ev(n["i"], st)]
                else:
                    st.set("glob", v["id"], self.zeroval(st, v["t"]))
            return [("n", VOID, st)]
        fr = self.stack[-1][1]
        out = []
        t = v["t"]
        if n.get("i") is not None and n["i"]["k"] == "str" and t.startswith("char[") and t.endswith("]"):
            a = mk("arr", fr, v["id"])
            x = n["i"]["v"]
            for k in range(int(t[5:-1] or 0) or len(x) + 1):
                st.set(a, ("at", k), ord(x[k]) if k < len(x) else 0)
            return [("n", VOID, st)]
        if "i" not in n or n["i"] is None:
            if self.isrec(t):
                st.set(fr, v["id"], self.newobj(st, strip(t)))
            else:
                st.set(fr, v["id"], mk("undef", v["name"]))
            return [("n", VOID, st)]
        if t.endswith("&"):
            for loc, s in self.lv(n["i"], st):
                if loc[0] == "v":
                    x = loc[1]
                    if isinstance(x, T) and x.op in ("obj",) or (self.isrec(t) and isinstance(x, T)):
                        s.set(fr, v["id"], x)
                    else:
                        o = mk("tmp", s.fresh())
                        s.set(o, "*", x)
                        s.set(fr, v["id"], addr(("c", o, "*")))
                else:
                    x = self.load(s, loc)
                    s.set(fr, v["id"], x if self.isrec(t) else addr(loc))
                out.append(("n", VOID, s))
        else:
            i = n["i"]
            if i["k"] == "ilist" and t.endswith("]"):
                et, _, num = t.partition("[")
                for x, s in self.ev(i, st):
                    if isinstance(x, T) and x.op == "vec" and num[:-1].isdigit() and int(num[:-1]) <= 4096 and ARITH.fullmatch(et.strip()) and all(isinstance(e, int) for e in x.a):
                        # a modifiable array of numbers: its elements are stored one by one, the rest are zero
                        a = mk("arr", fr, v["id"])
                        for k in range(int(num[:-1])):
                            s.set(a, ("at", k), x.a[k] if k < len(x.a) else 0)
                        out.append(("n", VOID, s))
                        continue
                    s.set(fr, v["id"], x)
                    out.append(("n", VOID, s))
            else:
                for x, s in self.ev(i, st):
                    if isinstance(x, T) and x.op == "addr" and len(x.a) == 2 and x.a[1] == "ref":
                        x = self.val(s, x)
                    s.set(fr, v["id"], x)
                    out.append(("n", VOID, s))
        if n.get("bind"):
            res = []
            for ctl, x, s in out:
                ok = [s]
                for b in n["bind"]:
                    nx = []
                    for s1 in ok:
                        e = b.get("h") or b.get("e")
                        for loc, s2 in self.lv(e, s1):
                            s2.set(fr, b["id"], addr(loc))
                            nx.append(s2)
                    ok = nx
                res += [("n", VOID, s2) for s2 in ok]
            out = res
        return self.merge(out)
    def _setg(self, s, g, v):
        s.set("glob", g, v)
        return s
    def s_if(self, n, st):
        outs = [("n", VOID, st)]
        for pre in ("init", "cv"):
            if pre in n:
                outs = [o2 for o in outs for o2 in self.ex(n[pre], o[2])]
        res = []
        for _, _, s in outs:
            conds = []
            for c, s2 in self.ev(n["c"], s):
                for b, s3 in self.branch(s2, c):
                    conds.append((b, VOID, s3))
            for b, _, s3 in self.merge(conds):
                if b:
                    res += self.ex(n["x"], s3)
                elif "y" in n:
                    res += self.ex(n["y"], s3)
                else:
                    res.append(("n", VOID, s3))
        return self.merge(res)
    def s_return(self, n, st):
        if "e" not in n or n["e"] is None:
            return [("r", VOID, st)]
        fn = self.stack[-1][2]
        if fn["rt"].endswith("&"):
            out = []
            for loc, s in self.lv(n["e"], st):
                if loc[0] == "v":
                    out.append(("r", loc[1], s))
                else:
                    v = self.load(s, loc)
                    if self.isrec(fn["rt"]):
                        out.append(("r", v, s))
                    else:
                        out.append(("r", mk("addr", loc, "ref"), s))
            return self.merge(out)
        return self.merge([("r", self.val(s, v), s) for v, s in self.ev(n["e"], st)])
    def s_break(self, n, st):
        return [("b", VOID, st)]
    def s_continue(self, n, st):
        return [("c", VOID, st)]
    def s_label(self, n, st):
        return self.ex(n["s"], st)
    def s_goto(self, n, st):
        raise AnalysisError("goto")
    def s_case(self, n, st):
        return self.ex(n["s"], st)
    s_default = s_case
    def flat(self, n):
        """Switch body as a list of (labels, stmt)."""
        items = []
        body = n["b"]
        ss = body["s"] if body and body["k"] == "block" else [body]
        for x in ss:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            items.append((labels, x))
        return items
    def s_switch(self, n, st):
        outs = [("n", VOID, st)]
        for pre in ("init", "cv"):
            if pre in n:
                outs = [o2 for o in outs for o2 in self.ex(n[pre], o[2])]
        items = self.flat(n)
        res = []
        for _, _, s in outs:
            for c, s2 in self.ev(n["c"], s):
                entries = []
                rest = s2
                dflt = None
                for i, (labels, _) in enumerate(items):
                    for l in labels:
                        if l["k"] == "default":
                            dflt = i
                            continue
                        if rest is None:
                            continue
                        lo = l["v"]["v"]
                        if l.get("h"):
                            cond = mk("and", lnot(lt(c, lo)), lnot(lt(l["h"]["v"], c))) if isinstance(c, T) else int(lo <= c <= l["h"]["v"])
                        else:
                            cond = eq(c, lo)
                        br = self.branch(rest, cond)
                        rest = None
                        for b, s3 in br:
                            if b:
                                entries.append((i, s3))
                            else:
                                rest = s3
                if rest is not None:
                    if dflt is not None:
                        entries.append((dflt, rest))
                    else:
                        res.append(("n", VOID, rest))
                # run; states entering the same item are joined
                pend = {}
                for i, s3 in entries:
                    pend.setdefault(i, []).append(s3)
                for i in range(len(items)):
                    cur = pend.get(i)
                    if not cur:
                        continue
                    cur = [o[2] for o in self.merge([("n", VOID, s4) for s4 in cur])]
                    for s4 in cur:
                        for ctl, v, s5 in self.ex(items[i][1], s4):
                            if ctl == "n":
                                if i + 1 < len(items):
                                    pend.setdefault(i + 1, []).append(s5)
                                else:
                                    res.append(("n", VOID, s5))
                            elif ctl == "b":
                                res.append(("n", VOID, s5))
                            else:
                                res.append((ctl, v, s5))
        return self.merge(res)
    # loops
    def s_while(self, n, st):
        return self.loop(n, st, None, n["c"], None, n["b"], False)
    def s_do(self, n, st):
        return self.loop(n, st, None, n["c"], None, n["b"], True)
    def s_for(self, n, st):
        res = []
        for _, _, s in self.ex(n.get("i"), st):
            res += self.loop(n, s, None, n.get("c"), n.get("n"), n["b"], False)
        return self.merge(res)
    def evcond(self, n, c, s):
        """[(bool, state)] for a loop condition, with its declared variable."""
        pre = [("n", VOID, s)]
        if "cv" in n:
            pre = self.ex(n["cv"], s)
        if c is None:
            return [(True, s)]
        out = []
        for _, _, s1 in pre:
            for v, s2 in self.ev(c, s1):
                out += self.branch(s2, v)
        return [(b, s2) for b, _, s2 in self.merge([(b, VOID, s3) for b, s3 in out])]
    def loop(self, n, st, _, c, inc, body, post):
        """Unrolls while the condition is decided; otherwise summarises."""
        res = []
        work = [st]
        first = post
        for it in range(self.unroll):
            nxt = []
            if it >= 3 and len(work) > 8:
                break
            for s in work:
                if first:
                    outs = [(True, s)]
                else:
                    probe = s.copy()
                    outs = self.evcond(n, c, probe)
                    if len(outs) > 1 and {b for b, _ in outs} == {True, False}:
                        res += self.absloop(n, s, c, inc, body)
                        continue
                for b, s2 in outs:
                    if not b:
                        res.append(("n", VOID, s2))
                        continue
                    for ctl, v, s3 in self.ex(body, s2):
                        if ctl in ("n", "c"):
                            if inc is not None:
                                nxt += [s4 for _, s4 in self.ev(inc, s3)]
                            else:
                                nxt.append(s3)
                        elif ctl == "b":
                            res.append(("n", VOID, s3))
                        else:
                            res.append((ctl, v, s3))
            first = False
            work = [o[2] for o in self.merge([("n", VOID, s) for s in nxt])]
            if not work:
                return self.merge(res)
        if it + 1 >= self.unroll and self.overrun is not None:
            self.overrun(n, work)
        for s in work:
            res += self.absloop(n, s, c, inc, body)
        return self.merge(res)
    def body_once(self, n, s, c, inc, body):
        """(back states, exit-by-condition states, [(ctl,v,st)] others)"""
        back, ext, oth = [], [], []
        for b, s2 in self.evcond(n, c, s):
            if not b:
                ext.append(s2)
                continue
            for ctl, v, s3 in self.ex(body, s2):
                if ctl in ("n", "c"):
                    if inc is not None:
                        back += [s4 for _, s4 in self.ev(inc, s3)]
                    else:
                        back.append(s3)
                elif ctl == "b":
                    oth.append(("n", VOID, s3))
                else:
                    oth.append((ctl, v, s3))
        return back, ext, oth
    def changed(self, s0, backs):
        ch = set()
        for b in backs:
            for base, d in b.h.items():
                d0 = s0.h.get(base)
                if d0 is d:
                    continue
                if d0 is None:
                    if isinstance(base, T) and base.op in ("fr", "tmp", "obj", "clo"):
                        continue
                    d0 = {}
                for f, v in d.items():
                    if f in d0:
                        if d0[f] is not v and d0[f] != v:
                            ch.add((base, f))
                    elif not (isinstance(base, T) and base.op == "fr"):
                        ch.add((base, f))
        return ch
    def absloop(self, n, st, c, inc, body):
        lid = st.count("loop")
        W = {}
        saved_exits = len(self.exits)
        for rnd in range(12):
            s0 = st.copy()
            for (b, f) in W:
                self.havoc(s0, b, f, lid)
            self.dropfacts(s0, W, lid)
            e0 = s0.eff
            del self.exits[saved_exits:]
            back, ext, oth = self.body_once(n, s0.copy(), c, inc, body)
            ch = self.changed(s0, back)
            new = [x for x in ch if x not in W]
            if not new:
                break
            for x in new:
                W[x] = 1
        else:
            raise Limit("loop does not stabilise in " + self.stack[-1][0])
        # effects of one round
        paths = []
        for b in back:
            es = tuple(e.key() for e in b.effects(e0))
            ups = tuple(sorted(((repr(x), b.get(*x)) for x in W), key=lambda y: y[0]))
            if (es, ups) not in paths:
                paths.append((es, ups))
        inits = tuple(sorted(((repr(x), st.get(*x)) for x in W), key=lambda y: y[0]))
        item = Eff(("loop", (lid, tuple(paths), inits), None, self.stack[-1][0], n.get("l", 0)))
        res = []
        has = any(p[0] for p in paths) or True
        for s in ext:
            s.eff = self.insert(s.eff, e0, item)
            res.append(("n", VOID, s))
        for ctl, v, s in oth:
            s.eff = self.insert(s.eff, e0, item)
            res.append((ctl, v, s))
        for i in range(saved_exits, len(self.exits)):
            k, s = self.exits[i]
            s.eff = self.insert(s.eff, e0, item)
        self.onloop(n, back, ext, oth, e0)
        return res
    def onloop(self, n, back, ext, oth, e0):
        pass
    def insert(self, eff, e0, item):
        tail = []
        e = eff
        while e is not None and e is not e0:
            tail.append(e[1])
            e = e[0]
        if e is not e0:
            return eff
        r = (e0, item)
        for x in reversed(tail):
            r = (r, x)
        return r
    def havoc(self, s, b, f, lid):
        s.set(b, f, mk("loopv", lid, b if not isinstance(b, T) or b.op != "fr" else "local", f))
    def dropfacts(self, s, W, lid):
        pass
    def s_rfor(self, n, st):
        outs = [("n", VOID, st)]
        if "init" in n:
            outs = self.ex(n["init"], st)
        res = []
        for _, _, s0 in outs:
            for loc, s in self.lv(n["r"], s0):
                c = self.known(s, self.load(s, loc))
                if isinstance(c, T) and c.op == "vec" and len(c.a) <= self.unroll:
                    cur = [s]
                    for i in range(len(c.a)):
                        nxt = []
                        for s1 in cur:
                            for s2 in self.bindelem(n["v"], s1, ("e", loc, i), c.a[i]):
                                for ctl, v, s3 in self.ex(n["b"], s2):
                                    if ctl in ("n", "c"):
                                        nxt.append(s3)
                                    elif ctl == "b":
                                        res.append(("n", VOID, s3))
                                    else:
                                        res.append((ctl, v, s3))
                        cur = [o[2] for o in self.merge([("n", VOID, x) for x in nxt])]
                    res += [("n", VOID, x) for x in cur]
                elif isinstance(c, str) and "string" in n["rt"] and len(c) <= 64:
                    cur = [s]
                    for x in c:
                        nxt = []
                        for s1 in cur:
                            el = (ord(x) ^ 128) - 128 if ord(x) < 256 else ord(x)
                            for s2 in self.bindelem(n["v"], s1, ("v", el), el):
                                for ctl, v, s3 in self.ex(n["b"], s2):
                                    if ctl in ("n", "c"):
                                        nxt.append(s3)
                                    elif ctl == "b":
                                        res.append(("n", VOID, s3))
                                    else:
                                        res.append((ctl, v, s3))
                        cur = [o[2] for o in self.merge([("n", VOID, x) for x in nxt])]
                    res += [("n", VOID, x) for x in cur]
                elif isinstance(c, T) and c.op == "map":
                    cur = [s]
                    ismap = "map" in short(strip(n["rt"]))
                    for k, val in c.a:
                        nxt = []
                        for s1 in cur:
                            el = mk("pair", k, val) if ismap else k
                            for s2 in self.bindelem(n["v"], s1, ("v", el), el):
                                for ctl, v, s3 in self.ex(n["b"], s2):
                                    if ctl in ("n", "c"):
                                        nxt.append(s3)
                                    elif ctl == "b":
                                        res.append(("n", VOID, s3))
                                    else:
                                        res.append((ctl, v, s3))
                        cur = [o[2] for o in self.merge([("n", VOID, x) for x in nxt])]
                    res += [("n", VOID, x) for x in cur]
                else:
                    res += self.absrfor(n, s, loc, c)
        return self.merge(res)
    def bindelem(self, decl, st, loc, v):
        fr = self.stack[-1][1]
        d = decl["v"]
        if d["t"].endswith("&"):
            if self.isrec(d["t"]):
                st.set(fr, d["id"], v)
            else:
                st.set(fr, d["id"], addr(loc))
        else:
            if self.isrec(d["t"]):
                v = self.copyrec(st, v)
            st.set(fr, d["id"], v)
        outs = [st]
        for b in decl.get("bind", []):
            nx = []
            for s in outs:
                for l2, s2 in self.lv(b.get("h") or b.get("e"), s):
                    s2.set(fr, b["id"], addr(l2))
                    nx.append(s2)
            outs = nx
        return outs
    def absrfor(self, n, st, loc, c):
        lid = st.count("loop")
        W = {}
        saved_exits = len(self.exits)
        el = mk("each", c, lid)
        fr = self.stack[-1][1]
        for rnd in range(12):
            s0 = st.copy()
            for (b, f) in W:
                self.havoc(s0, b, f, lid)
            e0 = s0.eff
            del self.exits[saved_exits:]
            back, oth = [], []
            for s1 in self.bindelem(n["v"], s0.copy(), ("v", el), el):
                for ctl, v, s3 in self.ex(n["b"], s1):
                    if ctl in ("n", "c"):
                        back.append(s3)
                    elif ctl == "b":
                        oth.append(("n", VOID, s3))
                    else:
                        oth.append((ctl, v, s3))
            ch = self.changed(s0, back)
            ch = {x for x in ch if not (x[0] is fr and x[1] == n["v"]["v"]["id"])}
            new = [x for x in ch if x not in W]
            if not new:
                break
            for x in new:
                W[x] = 1
        else:
            raise Limit("loop does not stabilise in " + self.stack[-1][0])
        paths = []
        for b in back:
            es = tuple(e.key() for e in b.effects(e0))
            ups = tuple(sorted(((repr(x), b.get(*x)) for x in W), key=lambda y: y[0]))
            if (es, ups) not in paths:
                paths.append((es, ups))
        inits = tuple(sorted(((repr(x), st.get(*x)) for x in W), key=lambda y: y[0]))
        item = Eff(("foreach", (c, lid, tuple(paths), inits), None, self.stack[-1][0], n.get("l", 0)))
        res = []
        fin = s0.copy()
        # single-valued recurrences get a closed form
        for x in W:
            vals = {b.get(*x) for b in back}
            if len(vals) == 1:
                stepv = vals.pop()
                fin.set(x[0], x[1], mk("fold", c, st.get(*x), stepv, lid))
        fin.eff = self.insert(fin.eff, e0, item)
        res.append(("n", VOID, fin))
        for ctl, v, s in oth:
            s.eff = self.insert(s.eff, e0, item)
            res.append((ctl, v, s))
        for i in range(saved_exits, len(self.exits)):
            k, s = self.exits[i]
            s.eff = self.insert(s.eff, e0, item)
        self.onloop(n, back, [fin], oth, e0)
        return res

    # ---- entry points
    def run(self, fn, this=None, args=(), st=None, setup=None):
        """Analyses fn from an abstract entry state: [(outcome, value, state)], outcome 'r' or 'x'."""
        if isinstance(fn, str):
            fn = self.p.fn(fn)
        st = st or St()
        self.exits = []
        self.stack = [("<entry>", mk("fr", 0), {"rt": "void"})]
        st.h.setdefault(self.stack[0][1], {})
        if setup:
            setup(self, st)
        outs = [("r", v, s) for v, s in self.invoke(fn, this, args, st)]
        return outs + [("x", VOID, s) for k, s in self.exits]
    def make(self, st, cls, *args, n=None):
        """Constructs an object by analysing its constructor; requires a single result."""
        cands = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == cls and not f.get("implicit")
                 and (len(f["p"]) == (len(args) if n is None else n))]
        cands = [f for f in cands if not (len(f["p"]) == 1 and strip(f["p"][0]["t"]) == cls)]
        if len(cands) != 1:
            # fall back: inherited constructors are marked implicit
            cands = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == cls
                     and (len(f["p"]) == len(args)) and not (len(f["p"]) == 1 and strip(f["p"][0]["t"]) == cls)]
        if len(cands) != 1:
            raise AnalysisError("constructor of %s with %d arguments: %d" % (cls, len(args), len(cands)))
        if not self.stack:
            self.stack = [("<entry>", mk("fr", 0), {"rt": "void"})]
            st.h.setdefault(self.stack[0][1], {})
        o = self.newobj(st, cls)
        r = self.invoke(cands[0], o, tuple(args), st)
        if len(r) != 1:
            raise AnalysisError("constructor of %s forks" % cls)
        st2 = r[0][1]
        if st2 is not st:
            st.h, st.own, st.facts, st.eff, st.n, st.cnt = st2.h, set(), st2.facts, st2.eff, st2.n, st2.cnt
        st.set(o, "__cls", cls)
        return o
