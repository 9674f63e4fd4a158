"""Scopes: what a name means, decided from the code or diagnosis the compiler gives for whole programs."""
import json, random
from sa.whole import *
from sa import runner
from checks.c18 import subterms, show

POOL = ["alpha", "beta", "gamma", "maxint", "sqr", "pi", "round", "text2"]

def vary(r, s):
    """The same word in other letter cases."""
    k = r.random()
    if k < 0.4:
        return s
    if k < 0.6:
        return s.upper()
    return "".join(c.upper() if r.random() < 0.5 else c for c in s)

KEYWORDS = {"program", "const", "type", "var", "procedure", "function", "begin", "end", "with", "do", "of", "array", "record", "if", "then", "else", "integer", "char", "sizeof", "ord"}
class Sc:
    def __init__(self, name, parent):
        self.name, self.parent, self.decl, self.subs, self.body, self.ord = name, parent, {}, [], [], []
    def find(self, n):
        s = self
        while s is not None:
            if n in s.decl:
                return s, s.decl[n]
            s = s.parent
        return None, None
    def path(self):
        return (self.parent.path() + "." if self.parent is not None else "") + self.name

class Gen:
    """expect: marker -> what the statement after it must do."""
    def __init__(self, seed, fault=None):
        self.r = random.Random(seed)
        self.fault = fault
        self.mark, self.num = 500000, 0
        self.expect = {}
        self.top = Sc("P", None)
        self.build(self.top, 0)
        self.text = self.program()
    def n(self):
        self.num += 1
        return self.num
    def build(self, s, depth):
        r = self.r
        names = r.sample(POOL, r.randint(2, 5))
        for x in names:
            k = r.choice(["const", "type", "var", "var", "enum", "rec", "func"])
            s.decl[x] = (k, self.n() + 40)
        if depth < 3:
            for i in range(r.randint(1, 2) if depth < 2 else r.randint(0, 1)):
                c = Sc("s%d" % self.n(), s)
                for x in r.sample(POOL, r.randint(0, 2)):
                    c.decl[x] = ("par", 0)
                s.subs.append(c)
        for c in s.subs:
            pars = dict(c.decl)
            self.build(c, depth + 1)
            for x, d in pars.items():
                c.decl[x] = d
    def w(self, s):
        return " ".join(vary(self.r, t) if t.lower() in KEYWORDS or t in POOL else t for t in s.split())
    def probes(self, s):
        out = []
        r = self.r
        for x in r.sample(POOL, r.randint(3, 6)):
            o, d = s.find(x)
            if d is None:
                continue
            k, v = d
            self.mark += 1
            m = self.mark
            if k == "const":
                st, ex = "g := %s" % x, ("value", 1000 + v)
            elif k == "type":
                st, ex = "g := sizeof ( %s )" % x, ("value", v)
            elif k == "enum":
                st, ex = "g := ord ( %s )" % x, ("value", v % 7)
            elif k in ("var", "par"):
                st, ex = "%s := 7" % x, ("store", (o.path(), x))
            elif k == "rec":
                st, ex = "%s . f%d := 7" % (x, v), ("store", (o.path(), x))
            else:
                st, ex = "g := %s" % x, ("call", o.path() + "." + x)
            out.append("h := %d ; %s" % (m, st))
            self.expect[m] = (ex, x, s.path())
        # with: the fields of the record come first, those of the last record foremost
        recs = [x for x in POOL if s.find(x)[1] and s.find(x)[1][0] == "rec"]
        if recs and r.random() < 0.8:
            ws = r.sample(recs, min(len(recs), r.randint(1, 2)))
            inner = []
            for x in r.sample(POOL, 4):
                owner = None
                for q in ws:
                    v = s.find(q)[1][1]
                    if x in self.fields(v):
                        owner = q
                o, d = s.find(x)
                # a record that stands in the list hides nothing for those before it
                self.mark += 1
                if owner is not None:
                    inner.append("h := %d ; %s := 7" % (self.mark, x))
                    self.expect[self.mark] = (("store", (s.find(owner)[0].path(), owner), self.fields(s.find(owner)[1][1]).index(x) + 1), x, s.path())
                elif d and d[0] in ("var", "par"):
                    inner.append("h := %d ; %s := 7" % (self.mark, x))
                    self.expect[self.mark] = (("store", (o.path(), x)), x, s.path())
            if inner and all(q not in self.fields(s.find(p)[1][1]) for i, p in enumerate(ws) for q in ws[i + 1:]):
                out.append("with %s do begin %s end" % (" , ".join(ws), " ; ".join(inner)))
                # and they are gone after it
                for x in r.sample(POOL, 3):
                    o, d = s.find(x)
                    if d and d[0] in ("var", "par"):
                        self.mark += 1
                        out.append("h := %d ; %s := 7" % (self.mark, x))
                        self.expect[self.mark] = (("store", (o.path(), x)), x, s.path())
            else:
                for st in inner:
                    self.expect.pop(int(st.split()[2]), None)
        return out
    def fields(self, v):
        rr = random.Random(v)
        return rr.sample(POOL, 2)
    def decls(self, s):
        items = []
        for x, (k, v) in s.decl.items():
            if k == "const":
                items.append("const %s = %d ;" % (x, 1000 + v))
            elif k == "type":
                items.append("type %s = array [ 1 .. %d ] of char ;" % (x, v))
            elif k == "var":
                items.append("var %s : integer ;" % x)
            elif k == "enum":
                e = ["e%d_%d" % (v, i) for i in range(v % 7)] + [x, "e%d_z" % v]
                items.append("var ev%d : ( %s ) ;" % (v, " , ".join(e)))
            elif k == "rec":
                f = self.fields(v)
                items.append("var %s : record f%d : integer ; %s , %s : integer end ;" % (x, v, f[0], f[1]))
            elif k == "func":
                items.append("function %s : integer ; begin %s := 1 end ;" % (x, x))
        self.r.shuffle(items)
        # a type is not always visible for what is declared before a routine
        for c in s.subs:
            ps = [x for x, d in c.decl.items() if d[0] == "par"]
            hd = "procedure %s" % c.name + (" ( " + " ; ".join("%s : integer" % x for x in ps) + " )" if ps else "")
            items.append(hd + " ; " + self.decls(c) + " begin " + self.body(c) + " end ;")
        return " ".join(items)
    def body(self, s):
        b = self.probes(s)
        for c in s.subs:
            n = sum(d[0] == "par" for d in c.decl.values())
            b.append(c.name + (" ( " + " , ".join("1" for i in range(n)) + " )" if n else ""))
        return " ; ".join(b)
    def program(self):
        return self.w("program p ; var g , h : integer ; " + self.decls(self.top) + " begin " + self.body(self.top) + " end .")

def fname(s):
    return "__PascalMain" if s == "P" else s

def judge(src, expect):
    w = Whole(src)
    if not w.all():
        return ["a correct program: %s (%s)" % (w.error, "; ".join(str(e)[:80] for e in getattr(w, "errs", [])[:2]))], 0
    if w.semaerrs:
        return ["a correct program is rejected: %s" % str(w.semaerrs[0])[:160]], 0
    bad, n = [], 0
    stores = [(f, a[0], a[1]) for f, op, a, r in w.instrs if op == "CreateStore"]
    at = {ci_val(v): i for i, (f, v, p) in enumerate(stores) if (ci_val(v) or 0) > 500000}
    first, owner = {}, {}
    for m in sorted(expect):
        ex, x, sc = expect[m]
        if m not in at:
            bad.append("the statement that uses %s in %s is not in the emitted code" % (x, sc))
            continue
        f, v, p = stores[at[m] + 1]
        n += 1
        if ex[0] == "value":
            if ci_val(v) != ex[1]:
                bad.append("%s in %s stands for %s and not for the value %s" % (x, sc, str(v)[:60], ex[1]))
        elif ex[0] == "call":
            cs = [callee(t.a[0]) for t in subterms(v) if t.op == "CreateCall"]
            got = [c.a[0].lower() for c in cs if isinstance(c, T) and c.op == "rtfn"]
            if got != [ex[1].lower()]:
                bad.append("%s in %s calls %s and not %s" % (x, sc, got, ex[1]))
        else:
            b = w.base(f, p)
            if not b:
                continue
            if len(b) != 1:
                bad.append("%s in %s has several storages" % (x, sc))
                continue
            b = next(iter(b))
            key = ex[1]
            if key in first and first[key] != b:
                bad.append("%s in %s is %s and not %s" % (x, sc, show(b), show(first[key])))
            elif b in owner and owner[b] != key:
                bad.append("%s in %s is the storage of %s of %s and not of %s of %s" % (x, sc, owner[b][1], owner[b][0], key[1], key[0]))
            first.setdefault(key, b)
            owner.setdefault(b, key)
            if isinstance(b, T) and b.op == "CreateAlloca":
                of = b.a[2].a[0]
                want = fname(key[0])
                if of != want:
                    bad.append("%s in %s is a variable of %s and not of %s" % (x, sc, of, want))
            elif isinstance(b, T) and b.op == "make:llvm::GlobalVariable" and key[0] != "P":
                bad.append("%s in %s is a global variable and not one of %s" % (x, sc, key[0]))
            if len(ex) > 2:
                idx = [ci_val(i) for t in subterms(p) if t.op == "CreateGEP" and isinstance(t.a[2], T) and t.a[2].op == "vec" for i in t.a[2].a[-1:]]
                if idx[:1] != [ex[2]]:
                    bad.append("%s in %s is field %s and not %s of the record" % (x, sc, idx[:1], ex[2]))
    return sorted(set(bad)), n

def case(seed):
    def f():
        g = Gen(seed)
        bad, n = judge(g.text, g.expect)
        return [[json.dumps([bad, n, g.text]), []]], {}
    return f

# ---- texts that must be diagnosed, and texts that must not ------------------------------------------------------
D = {"const": "const %s = 3 ;", "type": "type %s = integer ;", "var": "var %s : integer ;", "enum": "type t%d = ( %s , zz%d ) ;", "func": "function %s : integer ; begin %s := 1 end ;", "proc": "procedure %s ; begin end ;"}
U = {"const": "g := %s", "type": "g := sizeof ( %s )", "var": "%s := 1", "enum": "g := ord ( %s )", "func": "g := %s", "proc": "%s"}
def dec(k, x, i=0):
    return D[k] % ((i, x, i) if k == "enum" else (x, x) if k == "func" else x)

def neg():
    """(text, must it be accepted)"""
    out = {}
    P0 = "program p ; var g : integer ; "
    for k in D:
        out["%s declared" % k] = (P0 + dec(k, "a") + " begin " + U[k] % "a" + " end .", True)
        out["%s declared, other case" % k] = (P0 + dec(k, "aBc") + " begin " + U[k] % "AbC" + " end .", True)
        out["%s not declared" % k] = (P0 + "begin " + U[k] % "a" + " end .", False)
        out["%s used before it is declared" % k] = (P0 + "procedure q ; begin " + U[k] % "a" + " end ; " + dec(k, "a") + " begin q end .", False)
        out["%s of an inner routine used after it" % k] = (P0 + "procedure q ; " + dec(k, "a") + " begin " + U[k] % "a" + " end ; begin q ; " + U[k] % "a" + " end .", False)
        out["%s of an inner routine used in the next one" % k] = (P0 + "procedure q ; " + dec(k, "a") + " begin end ; procedure r ; begin " + U[k] % "a" + " end ; begin q ; r end .", False)
        out["%s of a routine used in its own routines" % k] = (P0 + "procedure q ; " + dec(k, "a") + " procedure r ; begin " + U[k] % "a" + " end ; begin r end ; begin q end .", True)
        out["%s after a failed routine" % k] = (P0 + "procedure q ; " + dec(k, "a") + " begin ( end ; begin " + U[k] % "a" + " end .", False)
        for k2 in D:
            out["%s and %s of the same name in one scope" % (k, k2)] = (P0 + dec(k, "a", 1) + " " + dec(k2, "a", 2) + " begin end .", False)
            out["%s and %s of the same name, other case" % (k, k2)] = (P0 + dec(k, "ab", 1) + " " + dec(k2, "aB", 2) + " begin end .", False)
            out["%s and %s of the same name in one routine" % (k, k2)] = (P0 + "procedure q ; " + dec(k, "a", 1) + " " + dec(k2, "a", 2) + " begin end ; begin end .", False)
            out["%s and %s of the same name in different scopes" % (k, k2)] = (P0 + dec(k, "a", 1) + " procedure q ; " + dec(k2, "a", 2) + " begin " + U[k2] % "a" + " end ; begin q ; " + U[k] % "a" + " end .", True)
        out["parameter and %s of the same name" % k] = (P0 + "procedure q ( a : integer ) ; " + dec(k, "a", 1) + " begin end ; begin end .", False)
    out["two parameters of the same name"] = (P0 + "procedure q ( a : integer ; a : char ) ; begin end ; begin end .", False)
    out["two parameters of the same name in one group"] = (P0 + "procedure q ( a , b , A : integer ) ; begin end ; begin end .", False)
    out["two variables of the same name in one group"] = (P0 + "var a , b , a : integer ; begin end .", False)
    out["parameter used after its routine"] = (P0 + "procedure q ( a : integer ) ; begin a := 1 end ; begin a := 2 end .", False)
    out["two fields of the same name"] = (P0 + "var r : record a : integer ; a : char end ; begin end .", False)
    out["two fields of the same name, other case"] = (P0 + "var r : record a : integer ; A : char end ; begin end .", False)
    out["a field and a field of a variant part"] = (P0 + "var r : record a : integer ; case b : boolean of true : ( a : char ) end ; begin end .", False)
    out["a field alone"] = (P0 + "var r : record a : integer end ; begin a := 1 end .", False)
    out["a field after with"] = (P0 + "var r : record a : integer end ; begin with r do a := 1 ; a := 2 end .", False)
    out["a field in the other branch"] = (P0 + "var r : record a : integer end ; begin if g > 1 then with r do a := 1 else a := 2 end .", False)
    out["a field in with"] = (P0 + "var r : record a : integer end ; begin with r do A := 1 end .", True)
    out["two constants of one enumeration"] = (P0 + "type t = ( a , b , a ) ; begin end .", False)
    out["one constant of two enumerations"] = (P0 + "type t = ( a , b ) ; u = ( c , b ) ; begin end .", False)
    out["forward and its definition"] = (P0 + "procedure q ; forward ; procedure r ; begin q end ; procedure q ; begin end ; begin q end .", True)
    out["forward twice"] = (P0 + "procedure q ; forward ; procedure q ; begin end ; procedure q ; begin end ; begin q end .", False)
    out["label not declared"] = (P0 + "begin goto 3 ; 3 : g := 1 end .", False)
    out["label of another routine"] = (P0 + "procedure q ; label 3 ; begin 3 : end ; begin 3 : g := 1 end .", False)
    out["the result outside the function"] = (P0 + "function f : integer ; begin f := 1 end ; begin f := 2 end .", False)
    out["pointer to a type declared later"] = (P0 + "type p = ^ r ; r = record n : p ; v : integer end ; var q : p ; begin q ^ . n := q end .", True)
    out["pointer to a type never declared"] = (P0 + "type p = ^ r ; var q : p ; begin end .", False)
    out["predefined names declared by the program"] = (P0 + "const maxint = 3 ; type real = integer ; var abs , sqr : integer ; function ord ( x : char ) : integer ; begin ord := 4 end ; var r : real ; begin abs := maxint ; sqr := ord ( 'a' ) ; r := 3 end .", True)
    out["type as variable"] = (P0 + "type t = integer ; begin t := 1 end .", False)
    out["variable as type"] = (P0 + "var t : integer ; u : t ; begin end .", False)
    out["constant as target"] = (P0 + "const c = 1 ; begin c := 2 end .", False)
    out["procedure as value"] = (P0 + "procedure q ; begin end ; begin g := q end .", False)
    out["program name is free"] = (P0 + "var p : integer ; begin p := 1 end .", True)
    return out

def ncase(src, ok):
    def f():
        w = Whole(src)
        r = w.parse()
        if r:
            r = w.closures() and w.sema()
        acc = bool(r)
        bad = []
        if w.error and w.error.startswith("internal"):
            bad.append(w.error)
        elif acc and not ok:
            bad.append("accepted")
        elif ok and not acc:
            bad.append("rejected: %s" % "; ".join(str(e)[:100] for e in (getattr(w, "errs", None) or getattr(w, "semaerrs", []))[:2]))
        # every scope that was entered is left again
        d = depth(w)
        n = 1
        if d is not None:
            n += 1
            if d != base():
                bad.append("%d scopes are open after the program" % d)
        return [[json.dumps([bad, n, src]), []]], {}
    return f

_base = []
def base():
    if not _base:
        w = Whole("program p ; begin end .")
        w.parse()
        _base.append(depth(w))
    return _base[0]

def depth(w):
    s = w.W.st
    st = s.get(w.W.P, "nameStack@Parser") or s.get(w.W.P, "nameStack")
    c = s.get(st, "stack") if isinstance(st, T) else None
    return len(c.a) if isinstance(c, T) and c.op == "vec" else None

SEEDS = 200
def cases():
    c = {}
    for k, (s, ok) in neg().items():
        c["rule: " + k] = ncase(s, ok)
    for s in range(SEEDS):
        c["generated %d" % s] = case(s)
    return c

EXPLAIN = ("Programs in which the same few names (also predefined ones) are declared as constants, types, variables, parameters, enumeration constants, records and functions in nested routines, with the letter case of names "
           "and keywords varied, are followed abstractly through parser, closure construction, type check and code generation; for every marked use the emitted code tells which declaration was taken. A catalogue of "
           "duplicate, missing, late and left declarations is followed through parser and type check.")
RULE = "Each use stands for the innermost declaration visible at that place; catalogue texts are diagnosed or accepted as the scope rules say; the scope stack is as deep after the program as before."

def main(argv):
    return runner.oracle_check("C14", "c14", argv, EXPLAIN, RULE)
