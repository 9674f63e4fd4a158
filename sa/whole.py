"""Whole programs: the real compile pipeline (parser, closures, type check, code generation) followed abstractly, and the
instructions it emits, function by function, with the provenance of every address."""
from .pworld import *
from . import cfg

def ci_val(t):
    return t.a[1] if isinstance(t, T) and t.op == "ci" else None

class Whole:
    def __init__(self, src, preset=None, maxstates=80, unroll=400):
        self.src = src
        W = self.W = PWorld(src, unroll=unroll)
        W.I.maxstates = maxstates
        W.builtins()
        W.preset(**{"#whole": 1, "disableMemcpyOpt": 0, "debugInfo": 0, "verbosity": 0, "emitType": 0, "rangeCheck": 0, "optimization": 1, "callGraph": 0})
        W.preset(**(preset or {}))
        W.stack("variables@expr.cpp", {})
        W.stack("labels@expr.cpp", {})
        for i, g in W.p.globals.items():
            x = g.get("i")
            if g["v"]["t"].startswith("std::vector") and isinstance(x, dict) and x.get("k") == "ctor" and not x.get("a") and W.st.get("glob", i) is None:
                W.st.set("glob", i, mk("vec"))
        W.st.eff = None
        self.stage = "parse"
        self.error = None
        self.effects = []
    def one(self, r, what):
        if len(r) != 1:
            raise AnalysisError("%s of the program forks (%d)" % (what, len(r)))
        return r[0]
    def parse(self, kind=0):
        W = self.W
        k, ast, s = self.one(W.run("Parser::Parse", W.P, (kind,)), "parsing")
        if k == "x":
            self.error = "internal error while parsing"
            return False
        self.errs = W.diags(s)
        W.adopt(s)
        W.st.eff = None
        self.ast = ast
        if self.errs or ast is NULL:
            self.error = "rejected by the parser"
            return False
        return True
    def closures(self):
        W = self.W
        f = [f for f in W.p.fns.values() if f["n"] == "BuildClosures"]
        k, v, s = self.one(W.run(f[0], None, (self.ast,)), "building closures")
        if k == "x":
            self.error = "internal error while building closures"
            return False
        W.adopt(s)
        W.st.eff = None
        return True
    def sema(self):
        W = self.W
        k, s = self.one(W.sema(self.ast), "the type check")
        self.semaerrs = [e[1][2] if len(e[1]) > 2 else "?" for e in s.effects() if e[0] in ("TypeCheckVisitor::Error", "Semantics::AddError")]
        self.semaeff = s.effects()
        if k == "x":
            self.error = "internal error in the type check"
            return False
        if self.semaerrs:
            self.error = "rejected by the type check: %s" % self.semaerrs[0]
            return False
        W.adopt(s)
        W.st.eff = None
        return True
    def codegen(self):
        W = self.W
        f = W.p.fns[W.p.resolve(W.I.cls(W.st, self.ast), W.p.fn("ExprAST::CodeGen")["id"])]
        k, v, s = self.one(W.run(f, self.ast), "code generation")
        if k == "x":
            self.error = "internal error in code generation"
            return False
        self.final = s
        self.effects = list(s.effects())
        self.value = v
        self.split()
        return True
    def all(self, kind=0):
        return self.parse(kind) and self.closures() and self.sema() and self.codegen()

    # ---- the emitted module
    def split(self):
        """instrs: [(function name or None, op, args, result)] in order of emission."""
        self.instrs = []
        cur = None
        for e in self.effects:
            if e[0] == "SetInsertPoint":
                cur = self.final.get(e[1][0], "#fn")
                cur = cur.a[0] if isinstance(cur, T) and cur.op == "rtfn" else None
            elif e[0] in ("setfield",):
                continue
            else:
                self.instrs.append((cur, e[0], tuple(norm(x) for x in e[1]), norm(e[2])))
        self.calls = {}
        for f, op, a, r in self.instrs:
            if op == "CreateCall":
                c = callee(a[0])
                args = list(a[1].a) if isinstance(a[1], T) and a[1].op == "vec" else []
                if isinstance(c, T) and c.op == "rtfn" and c.a[0] == "llvm.init.trampoline":
                    if len(args) == 3 and isinstance(args[1], T) and args[1].op == "rtfn":
                        self.calls.setdefault(args[1].a[0], []).append((f, [args[2]]))
                elif isinstance(c, T) and c.op == "rtfn":
                    self.calls.setdefault(c.a[0], []).append((f, list(a[1].a) if isinstance(a[1], T) and a[1].op == "vec" else None))
    def stores(self, fn):
        return [(a[0], a[1]) for f, op, a, r in self.instrs if f == fn and op == "CreateStore"]
    def base(self, fn, addr, seen=()):
        """Set of the storages an address in function fn stands for: alloca, global, argument - or ('?', term)."""
        if not isinstance(addr, T):
            return {("?", addr)}
        if addr.op == "CreateAlloca":
            own = addr.a[2].a[0] if len(addr.a) > 2 and isinstance(addr.a[2], T) and addr.a[2].op == "rtfn" else None
            if own != fn:
                return {("foreign", own, fn, addr)}
            return {addr}
        if addr.op in ("make:llvm::GlobalVariable", "gvar", "CreateGlobalString"):
            return {addr}
        if addr.op == "arg":
            if addr.a[0] != fn:
                return {("foreign", addr.a[0], fn, addr)}
            return {addr}
        if addr.op in ("CreateGEP", "CreateBitCast", "CreateStructGEP"):
            return self.base(fn, addr.a[1] if addr.op == "CreateGEP" else addr.a[0], seen)
        if addr.op == "CreateLoad":
            p = addr.a[1]
            if isinstance(p, T) and p.op == "CreateGEP" and isinstance(p.a[1], T) and p.a[1].op == "arg" and p.a[1].a[1] == 0 and not isdyn(p.a[0]):
                k = ci_val(p.a[2].a[-1]) if isinstance(p.a[2], T) and p.a[2].op == "vec" else None
                if k is None or p.a[1].a[0] != fn:
                    return {("?", addr)}
                return self.captured(fn, k, seen)
            b = self.base(fn, p, seen)
            return {("loaded", frozenset(b))} if b else set()
        return {("?", addr.op)}
    def captured(self, fn, k, seen=()):
        if (fn, k) in seen:
            return set()
        seen = seen + ((fn, k),)
        out = set()
        for caller, args in self.calls.get(fn, []):
            if not args:
                out.add(("?", "call of %s without arguments" % fn))
                continue
            c = args[0]
            if isinstance(c, T) and c.op == "CreateLoad":
                c = c.a[1]
            if isinstance(c, T) and c.op == "arg":
                # the caller's own closure handed on
                if c.a[0] == caller:
                    out |= self.captured(caller, k, seen)
                    continue
            vals = []
            for v, p in self.stores(caller):
                if isinstance(p, T) and p.op == "CreateGEP" and p.a[1] == c and isinstance(p.a[2], T) and ci_val(p.a[2].a[-1]) == k:
                    vals.append(v)
            if not vals:
                out.add(("?", "no entry %d in the closure for %s made in %s" % (k, fn, caller)))
            for v in vals:
                out |= self.base(caller, v, seen)
        return out

def isdyn(t):
    """The descriptor of a dynamic array: address and two bounds (a closure holds addresses only)."""
    return isinstance(t, T) and t.op == "lstruct" and any(isinstance(x, T) and x.op == "lty" and x.a[0] == "i32" for x in t.a[-1].a)

def callee(c):
    while isinstance(c, T) and c.op in ("callee", "make:llvm::FunctionCallee"):
        c = c.a[1]
    return c

def norm(x):
    """&*arg_iterator is the argument."""
    if isinstance(x, T):
        if x.op == "addr" and isinstance(x.a[0], tuple) and x.a[0][0] == "e" and x.a[0][1][0] == "v" and isinstance(x.a[0][2], int):
            c = x.a[0][1][1]
            if isinstance(c, T) and c.op == "vec" and x.a[0][2] < len(c.a):
                return c.a[x.a[0][2]]
        return mk(x.op, *[norm(y) for y in x.a])
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    return x
