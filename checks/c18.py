"""Captured variables: whole programs are compiled abstractly; the storage every use ends up at is compared with the declaration it means."""
import json, random
from sa.whole import *
from sa import runner

# ---- programs --------------------------------------------------------------------------------------------------
class R:
    """A routine of a generated program."""
    def __init__(self, name, parent, fn):
        self.name, self.parent, self.fn = name, parent, fn
        self.params, self.locals, self.subs, self.body, self.procparam = [], [], [], [], None
    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth()
    def own(self):
        return [n for n, k in self.params + self.locals]

KINDS = ["int", "int", "int", "arr", "rec", "chr"]
TYPES = {"int": "integer", "arr": "tarr", "rec": "trec", "chr": "char", "var": "integer", "dyn": "array [ lo%d .. hi%d : integer ] of integer", "vdyn": "array [ lo%d .. hi%d : integer ] of integer"}

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.k = 1000
        self.uses = {}          # probe number -> (owner, variable) expected
        self.n = 0
        self.dyn = 0
        self.all = []
        self.tree(seed)
    def probe(self, owner, name):
        self.k += 1
        self.uses[self.k] = (owner, name)
        return self.k
    def tree(self, seed):
        r = self.r
        n = r.randint(2, 5)
        for i in range(n):
            c = [x for x in self.all if x.depth() < 3]
            parent = None if i == 0 or r.random() < 0.15 else r.choice(c[-2:])
            f = R("r%d" % i, parent, r.random() < 0.3)
            names = ["x", "y", "z", "v", "w"]
            r.shuffle(names)
            k = r.randint(1, 4)
            for nm in names[:k]:
                kind = r.choice(KINDS)
                if r.random() < 0.4:
                    f.params.append((nm, r.choice(["int", "var", "int", "dyn", "vdyn"]) if r.random() < 0.8 else "chr"))
                else:
                    f.locals.append((nm, kind))
            if parent:
                parent.subs.append(f)
            self.all.append(f)
        for f in self.all:
            self.fill(f)
    def lookup(self, f, nm):
        while f is not None:
            for n, k in f.params + f.locals:
                if n == nm:
                    return f, k
            f = f.parent
        return None, "int"
    def visible(self, f):
        """Routines f may call: itself, its ancestors, what they declared before, and its own."""
        out, g, below = [], f, None
        while True:
            if g is not None:
                out.append(g)
            subs = g.subs if g is not None else [x for x in self.all if x.parent is None]
            for s in subs:
                if s is below:
                    break
                out.append(s)
            if g is None:
                break
            below, g = g, g.parent
        u = []
        for x in out:
            if x not in u:
                u.append(x)
        return u
    def root(self, f):
        return f if f.parent is None else self.root(f.parent)
    def args(self, f, g):
        """Actual arguments for a call of g from f."""
        a = []
        for n, k in g.params:
            if k == "int":
                a.append(str(self.r.randint(1, 9)))
            elif k == "chr":
                a.append("'q'")
            elif k == "var":
                c = [n2 for n2 in ("x", "y", "z", "v", "w") if self.lookup(f, n2)[0] is not None and self.lookup(f, n2)[1] in ("int", "var")]
                a.append(self.r.choice(c) if c else "g0")
            else:
                a.append("ga")
        return " ( " + " , ".join(a) + " )" if a else ""
    def use(self, f, nm):
        o, k = self.lookup(f, nm)
        if o is None:
            return None
        p = self.probe(o.name, nm)
        t = self.r.choice([nm, nm, nm.upper()])
        if k in ("int", "var"):
            if self.r.random() < 0.3:
                return "g0 := %s + %d" % (t, p)
            return "%s := %d" % (t, p)
        if k in ("arr", "dyn", "vdyn"):
            return "%s [ 2 ] := %d" % (t, p)
        if k == "rec":
            return ("%s . b := %d" if self.r.random() < 0.5 else "with %s do b := %d") % (t, p)
        self.uses.pop(p)
        p = self.k = p
        del p
        return "%s := 'c'" % t
    def fill(self, f):
        names = ["x", "y", "z", "v", "w"]
        # every variable is used once where it is declared: this tells its storage
        b = []
        for n, k in f.params + f.locals:
            if k == "chr":
                continue
            p = self.probe(f.name, n)
            self.uses[p] = (f.name, n)
            f.body.append({"int": "%s := %d", "var": "%s := %d", "arr": "%s [ 1 ] := %d", "dyn": "%s [ 1 ] := %d", "vdyn": "%s [ 1 ] := %d", "rec": "%s . a := %d"}[k] % (n, p))
        if f.fn:
            p = self.probe(f.name, "=" + f.name)
            f.body.append("%s := %d" % (f.name, p))
        for nm in self.r.sample(names, self.r.randint(1, 3)):
            u = self.use(f, nm)
            if u:
                f.body.append(u)
        g = f.parent
        while g is not None:
            if g.fn and self.r.random() < 0.4:
                p = self.probe(g.name, "=" + g.name)
                f.body.append("%s := %d" % (g.name, p))
            g = g.parent
        for g in self.r.sample(self.visible(f), min(len(self.visible(f)), self.r.randint(1, 3))):
            f.body.append(self.call(f, g))
        for g in f.subs:
            if self.r.random() < 0.7:
                f.body.append(self.call(f, g))
        if not f.params or True:
            c = [g for g in self.visible(f) if not g.params and not g.fn]
            if c and self.r.random() < 0.5:
                f.body.append("apply ( %s )" % self.r.choice(c).name)
    def call(self, f, g):
        c = g.name + self.args(f, g)
        if not g.fn:
            return c
        return self.r.choice(["g0 := %s", "if %s > 3 then g0 := 1", "writeln ( %s )"]) % c
    def text(self, f):
        ps = []
        for n, k in f.params:
            t = TYPES[k]
            if "%d" in t:
                self.dyn += 1
                t = t % (self.dyn, self.dyn)
            ps.append(("var " if k in ("var", "vdyn") else "") + n + " : " + t)
        s = ("function " if f.fn else "procedure ") + f.name + (" ( " + " ; ".join(ps) + " )" if ps else "") + (" : integer" if f.fn else "") + " ; "
        if f.locals:
            s += "var " + " ".join("%s : %s ;" % (n, TYPES[k]) for n, k in f.locals) + " "
        s += "".join(self.text(g) for g in f.subs)
        return s + "begin " + " ; ".join(f.body) + " end ; "
    def program(self):
        s = "program p ; type tarr = array [ 1 .. 3 ] of integer ; trec = record a , b : integer end ; var g0 : integer ; ga : tarr ; procedure apply ( procedure q ) ; begin q end ; "
        tops = [f for f in self.all if f.parent is None]
        s += "".join(self.text(f) for f in tops)
        body = []
        for f in tops:
            if not any(k == "var" for n, k in f.params) or True:
                c = f.name + (" ( " + " , ".join({"int": "1", "chr": "'q'", "var": "g0", "dyn": "ga", "vdyn": "ga"}[k] for n, k in f.params) + " )" if f.params else "")
                body.append("g0 := " + c if f.fn else c)
        return s + "begin " + " ; ".join(body) + " end ."

def P(src, **uses):
    return src, {int(k[1:]): tuple(v.split("/")) for k, v in uses.items()}

HAND = {
"for variable": P("program p ; var g : integer ; procedure a ; var i : integer ; procedure b ; begin for i := 12 to 13 do g := i + 14 end ; begin i := 11 ; b end ; begin a end .", k11="a/i", k12="a/i", k14="a/i"),
"forward routine": P("program p ; procedure a ; var x : integer ; procedure c ; forward ; procedure b ; var x : integer ; begin x := 12 ; c end ; procedure c ; begin x := 13 ; if x > 3 then b end ; begin x := 11 ; b end ; begin a end .", k11="a/x", k12="b/x", k13="a/x"),
"routine of a routine parameter": P("program p ; procedure a ; var x : integer ; procedure d ( procedure q ( k : integer ) ) ; begin q ( 3 ) end ; procedure b ( k : integer ) ; begin x := 12 ; k := 13 end ; begin x := 11 ; d ( b ) end ; begin a end .", k11="a/x", k12="a/x", k13="b/k"),
"argument of an argument": P("program p ; function id ( function f : integer ) : integer ; begin id := f end ; procedure a ; var x , y : integer ; function b : integer ; begin y := 12 ; b := 15 end ; procedure c ; var x : integer ; begin x := id ( b ) ; x := 13 end ; begin y := 11 ; x := 14 ; c end ; begin a end .", k11="a/y", k12="a/y", k13="c/x", k14="a/x"),
"deep": P("program p ; procedure a ; var x : integer ; procedure b ; procedure c ; procedure d ; procedure e ; begin x := 12 end ; begin e end ; begin d end ; begin c end ; begin x := 11 ; b end ; begin a end .", k11="a/x", k12="a/x"),
"cousins": P("program p ; procedure a ; var x , y : integer ; procedure b ; procedure c ; begin x := 12 end ; begin c end ; procedure d ; procedure e ; begin y := 14 ; b end ; begin e end ; begin x := 11 ; y := 13 ; d end ; begin a end .", k11="a/x", k12="a/x", k13="a/y", k14="a/y"),
"mutual recursion": P("program p ; procedure a ; var x , y , z : integer ; procedure c ; forward ; procedure b ; begin x := 12 ; c end ; procedure c ; begin y := 14 ; b end ; begin x := 11 ; y := 13 ; z := 15 ; b end ; begin a end .", k11="a/x", k12="a/x", k13="a/y", k14="a/y", k15="a/z"),
"record result and with": P("program p ; type t = record a , b : integer end ; var g : integer ; procedure q ; var s : t ; procedure i ; begin with s do begin a := 12 ; b := 13 end ; s . b := 14 end ; begin s . a := 11 ; i end ; begin q end .", k11="q/s", k12="q/s", k13="q/s", k14="q/s"),
"var parameter": P("program p ; var g : integer ; procedure a ( var x : integer ) ; procedure b ( var y : integer ) ; begin x := 12 ; y := 13 ; b ( x ) end ; begin x := 11 ; b ( x ) end ; begin a ( g ) end .", k11="a/x", k12="a/x", k13="b/y"),
"nested in two units of recursion": P("program p ; procedure a ( n : integer ) ; var x : integer ; procedure b ; begin x := 12 ; n := 14 ; if n > 0 then a ( n - 1 ) end ; begin x := 11 ; n := 13 ; b end ; begin a ( 3 ) end .", k11="a/x", k12="a/x", k13="a/n", k14="a/n"),
"shadowed in between": P("program p ; procedure a ; var x : integer ; procedure b ; begin x := 12 end ; procedure c ; var x : char ; procedure d ; begin b ; x := 'a' end ; begin d end ; begin x := 11 ; c end ; begin a end .", k11="a/x", k12="a/x"),
"pointer variable": P("program p ; type t = ^ integer ; procedure a ; var q : t ; procedure b ; begin new ( q ) ; q ^ := 12 end ; begin q ^ := 11 ; b end ; begin a end .", k11="a/q", k12="a/q"),
"string": P("program p ; procedure a ; var s : array [ 1 .. 2 ] of array [ 1 .. 2 ] of integer ; procedure b ; begin s [ 1 , 2 ] := 12 ; s [ 2 ] [ 1 ] := 13 end ; begin s [ 1 , 1 ] := 11 ; b end ; begin a end .", k11="a/s", k12="a/s", k13="a/s"),
"read and case": P("program p ; procedure a ; var x , y : integer ; procedure b ; begin case x of 1 : y := 12 ; 2 .. 5 : y := 13 ; otherwise y := 14 end ; while y < 3 do x := 16 ; repeat y := 17 until x > 3 ; if not ( y > 3 ) then x := 18 else y := 19 end ; begin y := 11 ; x := 15 ; b end ; begin a end .",
                   k11="a/y", k12="a/y", k13="a/y", k14="a/y", k15="a/x", k16="a/x", k17="a/y", k18="a/x", k19="a/y"),
}

def find_probe(w, k):
    """[(function, address)] the probe number k is stored to or added to the content of."""
    out = []
    for f, op, a, r in w.instrs:
        if op == "CreateStore" and ci_val(a[0]) == k:
            out.append((f, a[1]))
        elif op == "CreateStore" and isinstance(a[0], T):
            for t in subterms(a[0]):
                if t.op == "CreateAdd" and any(ci_val(x) == k for x in t.a):
                    o = [x for x in t.a if ci_val(x) != k]
                    if o and isinstance(o[0], T) and o[0].op == "CreateLoad":
                        out.append((f, o[0].a[1]))
    return out

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, T) and t not in seen:
        seen.add(t)
        yield t
        for x in t.a:
            yield from subterms(x, seen)

def show(b):
    if isinstance(b, T) and b.op == "CreateAlloca":
        return "%s of %s" % (b.a[3] if len(b.a) > 3 else "?", b.a[2].a[0] if isinstance(b.a[2], T) else "?")
    if isinstance(b, T) and b.op == "arg":
        return "argument %s of %s" % (b.a[1], b.a[0])
    if isinstance(b, tuple) and b and b[0] == "foreign":
        return "the storage of %s used directly in %s" % (b[1], b[2])
    if isinstance(b, tuple) and b and b[0] == "loaded":
        return "*(" + " / ".join(sorted(map(show, b[1]))) + ")"
    return str(b)[:120]

def judge(src, uses):
    w = Whole(src)
    if not w.all():
        return [w.error + " (" + str([str(e)[:160] for e in getattr(w, "errs", [])][:2]) + ")"], 0, w
    if w.semaerrs:
        return ["the program is rejected: %s" % str(w.semaerrs[0])[:200]], 0, w
    bad, n = [], 0
    bases = {}
    first = {}
    for k in sorted(uses):
        v = uses[k]
        ps = find_probe(w, k)
        if not ps:
            bad.append("the use of %s of %s marked %d is not in the emitted code" % (v[1], v[0], k))
            continue
        for f, addr in ps:
            b = w.base(f, addr)
            # a routine that nothing calls gets no captured variables at all
            if not b:
                continue
            n += 1
            if len(b) != 1:
                bad.append("%s of %s, used in %s, is %d different storages: %s" % (v[1], v[0], f, len(b), ", ".join(sorted(map(show, b)))))
                continue
            x = next(iter(b))
            if isinstance(x, tuple) and x[0] in ("?", "foreign"):
                bad.append("%s of %s, used in %s, is %s" % (v[1], v[0], f, show(x)))
                continue
            if v not in first:
                first[v] = (x, f)
                if x in bases:
                    bad.append("%s of %s and %s of %s share the storage %s" % (v[1], v[0], bases[x][1], bases[x][0], show(x)))
                bases[x] = v
                if not f.endswith("." + v[0]):
                    bad.append("the first use of %s of %s is in %s" % (v[1], v[0], f))
            elif first[v][0] != x:
                bad.append("%s of %s, used in %s, is %s and not %s" % (v[1], v[0], f, show(x), show(first[v][0])))
    # no instruction uses a local of another function
    for f, op, a, r in w.instrs:
        if f is None:
            continue
        for x in a:
            for t in subterms(x):
                own = t.a[2].a[0] if t.op == "CreateAlloca" and len(t.a) > 2 and isinstance(t.a[2], T) and t.a[2].op == "rtfn" else t.a[0] if t.op == "arg" else None
                if own is not None and own != f:
                    bad.append("an instruction of %s uses %s directly" % (f, show(t)))
    return sorted(set(bad)), n, w

def case(src, uses):
    def f():
        bad, n, w = judge(src, uses)
        return [[json.dumps([bad, n, src]), []]], {"unknown": sorted(map(str, w.W.I.unknown))}
    return f

SEEDS = 320
def cases():
    c = {}
    for n, (src, uses) in HAND.items():
        c["hand " + n] = case(src, uses)
    for s in range(SEEDS):
        g = Gen(s)
        c["generated %d" % s] = case(g.program(), g.uses)
    return c

EXPLAIN = ("Programs with nested routines (shadowing, recursion, calls between siblings, cousins and outwards, routines as arguments, parameters of every mode, function results, loop variables, records, arrays, "
           "conformant arrays, names in other letter cases) are followed abstractly through the real parser, closure construction, type check and code generation. For every marked use the storage its address "
           "stands for is traced through the emitted instructions: through closure parameters to every call and trampoline that supplies them.")
RULE = ("Every use of a variable stands for exactly one storage, that of the variable visible by that name in the source; different variables have different storage; no function uses a local of another one directly.")

def main(argv):
    return runner.oracle_check("C18", "c18", argv, EXPLAIN, RULE)
