"""Abstract worlds for analysing code generation: type objects, opaque child expressions, and result rendering."""
from .repo import *
from .interp import *
from . import cfg, llvmm

INT = "Types::IntegerXDecl<32, Types::TypeDecl::TK_Integer>"
INT64 = "Types::IntegerXDecl<64, Types::TypeDecl::TK_LongInt>"

_bm = {}
def blockmakers(p):
    """Functions whose own body creates basic blocks or moves the insertion point."""
    if p.kind not in _bm:
        r = set()
        for i, f in p.fns.items():
            def g(n, i=i):
                if n["k"] == "call" and n.get("f") and (n["f"]["n"] == "llvm::BasicBlock::Create" or n["f"]["n"].endswith("::SetInsertPoint")):
                    r.add(i)
            walk(f.get("body"), g)
        _bm[p.kind] = r
    return _bm[p.kind]

class World:
    def __init__(self, prog=None, **kw):
        self.p = prog or program("cxx")
        self.I = Interp(self.p, **kw)
        self.I.cstr = self.p.kind != "cxx"
        self.st = St()
        self.I.stack = [("<e>", mk("fr", 0), {"rt": "void"})]
        self.st.h[mk("fr", 0)] = {}
        if self.p.kind != "cxx":
            for i, g in self.p.globals.items():
                e, b, _ = g["v"]["t"].partition("[")
                if b and e.strip() in self.p.classes:
                    STRUCTARR.add(i)
        self.tcache = {}
        self.syms = 0
        self.I.opaque |= {"TypeCheckVisitor::Error", "Error", "Semantics::AddFixup"}
    def preset(self, **kw):
        self.I.presets.update(kw)
    def stack(self, gid, *levels):
        """Gives a Stack<> object (a global's id) known contents: one dict per level."""
        o = self.I.newobj(self.st, "Stack") if False else mk("glob", gid)
        self.st.set(o, "stack", mk("vec", *[mk("map", *sorted(l.items())) for l in levels]))
        return o
    def invoke(self, fn, this, args=()):
        r = self.I.invoke(fn, this, tuple(args), self.st)
        if len(r) != 1:
            raise AnalysisError("%s forks (%d)" % (fn["n"], len(r)))
        v, s = r[0]
        if s is not self.st:
            self.adopt(s)
        return v
    def adopt(self, s):
        st = self.st
        st.h, st.own, st.facts, st.eff, st.n, st.cnt = s.h, set(), s.facts, s.eff, s.n, s.cnt
    def make(self, cls, *args):
        return self.I.make(self.st, cls, *args)
    def get(self, cls):
        f = [f for f in self.p.fns.values() if f["n"] == "Types::Get" and f.get("ta") == [cls]]
        if len(f) != 1:
            raise AnalysisError("Types::Get<%s>: %d" % (cls, len(f)))
        return self.invoke(f[0], None)
    def ty(self, k):
        """Type objects by a short name: int long char bool real complex str<N> text enum3 ptr(T) arr(lo,hi,T) sub(lo,hi[,T]) set(lo,hi[,T]) file(T)"""
        if k in self.tcache:
            return self.tcache[k]
        t = self._ty(k)
        self.tcache[k] = t
        return t
    def _ty(self, k):
        base = {"int": INT, "long": INT64, "char": "Types::CharDecl", "bool": "Types::BoolDecl", "real": "Types::RealDecl",
                "complex": "Types::ComplexDecl", "void": "Types::VoidDecl", "text": "Types::TextDecl"}
        if k in base:
            return self.get(base[k])
        nm, _, rest = k.partition("(")
        a = self.split(rest[:-1]) if rest else []
        if nm == "str":
            return self.make("Types::StringDecl", int(a[0]))
        if nm == "range":
            return self.make("Types::Range", int(a[0]), int(a[1]))
        if nm == "sub":
            return self.make("Types::RangeDecl", self.make("Types::Range", int(a[0]), int(a[1])), self.ty(a[2] if len(a) > 2 else "int"))
        if nm == "ptr":
            return self.I_make_ptr(a[0])
        if nm == "arr":
            return self.make("Types::ArrayDecl", self.ty(a[2]), mk("vec", self.ty("sub(%s,%s,%s)" % (a[0], a[1], a[3] if len(a) > 3 else "int"))))
        if nm == "arr2":
            return self.make("Types::ArrayDecl", self.ty(a[4]), mk("vec", self.ty("sub(%s,%s)" % (a[0], a[1])), self.ty("sub(%s,%s)" % (a[2], a[3]))))
        if nm == "set":
            return self.make("Types::SetDecl", self.ty("sub(%s,%s,%s)" % (a[0], a[1], a[2] if len(a) > 2 else "int")), self.ty(a[2] if len(a) > 2 else "int"))
        if nm == "enum":
            cs = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == "Types::EnumDecl" and len(f["p"]) == 2]
            o = self.I.newobj(self.st, "Types::EnumDecl")
            self.invoke(cs[0], o, (mk("vec", *["e%d" % i for i in range(int(a[0]))]), self.ty("int")))
            self.st.set(o, "__cls", "Types::EnumDecl")
            return o
        if nm == "file":
            cs = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == "Types::FileDecl" and len(f["p"]) == 1 and f["p"][0]["t"].endswith("*")]
            o = self.I.newobj(self.st, "Types::FileDecl")
            self.invoke(cs[0], o, (self.ty(a[0]),))
            self.st.set(o, "__cls", "Types::FileDecl")
            return o
        if nm == "rec":
            fs = [self.make("Types::FieldDecl", "f%d" % i, self.ty(x), 0, 0) for i, x in enumerate(a)]
            return self.mk2("Types::RecordDecl", (mk("vec", *fs), NULL))
        raise AnalysisError("type " + k)
    def mk2(self, cls, args, sel=None):
        cs = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == cls and len(f["p"]) == len(args)
              and not (len(f["p"]) == 1 and strip(f["p"][0]["t"]) == cls)]
        if sel:
            cs = [f for f in cs if sel(f)]
        if len(cs) != 1:
            raise AnalysisError("constructor of %s: %d" % (cls, len(cs)))
        o = self.I.newobj(self.st, cls)
        self.invoke(cs[0], o, args)
        self.st.set(o, "__cls", cls)
        return o
    def I_make_ptr(self, t):
        return self.mk2("Types::PointerDecl", (self.ty(t),), lambda f: "TypeDecl *" in f["p"][0]["t"])
    def split(self, s):
        out, d, cur = [], 0, ""
        for c in s:
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
                continue
            d += c == "("
            d -= c == ")"
            cur += c
        if cur:
            out.append(cur)
        return out
    def child(self, name, t, kind="EK_BinaryExpr"):
        """An opaque expression of a given type and node kind."""
        x = sym(name)
        NNSYM.add(x)
        self.st.set(x, "m:accept", VOID)
        if kind == "EK_VariableExpr":
            # a plain variable's Address emits no block (an obligation of C06)
            SIMPLE.add(x)
        if t is not None:
            t = self.ty(t) if isinstance(t, str) else t
            self.st.set(x, "m:Type", t)
            self.st.set(x, "type", t)
        if kind:
            self.st.set(x, "kind", self.ek(kind))
        return x
    def ek(self, kind):
        return self.p.enumconst["ExprAST::ExprKind::" + kind]
    def tok(self, name):
        o = self.I.newobj(self.st, "Token")
        self.st.set(o, "type", self.p.enumconst["Token::TokenType::" + name])
        return o
    def node(self, cls, kind, **fields):
        o = self.I.newobj(self.st, cls)
        self.st.set(o, "kind", self.ek(kind))
        self.st.set(o, "type", NULL)
        for k, v in fields.items():
            self.need(cls, k)
            self.st.set(o, k, v)
        return o
    def need(self, cls, f):
        if not any(x["n"] == f for x in self.p.allfields(cls)):
            raise AnalysisError("anchor field %s::%s" % (cls, f))
    def run(self, fn, this, args=()):
        """[(outcome, value, state, effects since the start)]"""
        if isinstance(fn, str):
            fn = self.p.fn(fn)
        s = self.st.copy()
        s.eff = None
        return self.I.run(fn, this, tuple(args), s)
    def sema(self, node, st=None):
        """Runs the type checker over a tree (its accept): [(kind, state)], kind 'r' accepted, 'e' diagnosed, 'x' internal error."""
        s = (st or self.st).copy()
        o = self.I.newobj(s, "TypeCheckVisitor")
        c = self.I.cls(s, node)
        acc = self.p.fns[self.p.resolve(c, self.p.fn("ExprAST::accept")["id"]) or self.p.fn("ExprAST::accept")["id"]]
        out = []
        for k, v, s1 in self.I.run(acc, node, (o,), s):
            if k == "x":
                out.append(("x", s1))
            elif any(e[0] in ("TypeCheckVisitor::Error", "Semantics::AddError") for e in s1.effects()):
                out.append(("e", s1))
            else:
                out += self.fixups(s1)
        return out
    def fixups(self, s):
        """Applies the deferred fix-ups the checker registered."""
        states = [("r", s)]
        for e in s.effects():
            if e[0] == "Semantics::AddFixup":
                nxt = []
                for k, s1 in states:
                    if k != "r":
                        nxt.append((k, s1))
                        continue
                    fx = e[1][-1]
                    c = self.I.cls(s1, fx)
                    if not c:
                        raise AnalysisError("unknown fix-up object")
                    for k2, v, s2 in self.I.run(self.p.fn(c + "::DoIt"), fx, (), s1):
                        if k2 == "r" and any(e[0] in ("TypeCheckVisitor::Error", "Semantics::AddError") for e in s2.effects()):
                            k2 = "e"
                        nxt.append((k2, s2))
                states = nxt
        return states
    def checked(self, fn, node, args=(), st=None):
        """Type checks node, then analyses fn on the accepted states: [(kind, value, state)]."""
        out = []
        for k, s in self.sema(node, st):
            if k != "r":
                out.append((k, VOID, s))
                continue
            s.eff = None
            out += self.I.run(self.p.fn(*fn) if isinstance(fn, tuple) else self.p.fn(fn), node, tuple(args), s)
        return out
    def meta(self, where=""):
        return {"unknown": sorted(map(str, self.I.unknown)), "where": where, "problems": getattr(self, "problems", []),
                "rt": sorted((repr(n) if not isinstance(n, str) else n, show(t), w) for n, t, w in self.I.rtcalls),
                "blockfns": sorted(self.I.visited & blockmakers(self.p))}
    def texts(self, fn, this, args=()):
        """Canonical emitted graphs: [(outcome, text)], internal-error exits as 'x'."""
        out = []
        for k, v, s in self.run(fn, this, args):
            if k == "x":
                out.append(("x", ""))
            else:
                out.append(("r", cfg.render(s, v)))
        return out
