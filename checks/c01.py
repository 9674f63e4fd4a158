"""C01: a diagnosed error fails the compilation. The driver, the reporters, the import of units and the writer of the output are followed
abstractly under every combination of failing stages; structural rules bind the rest of the compiler to the reporters."""
import time
from sa.world import *
from sa.pworld import PWorld
from sa import runner
from sa.graph import Graph, callsites

EXPLAIN = ("Compile() is followed abstractly with its stages opaque: for every single failing stage (source not readable, parse errors, type errors, no code, errors "
           "counted during code generation, output not written) and every output kind the exit value must be non-zero and, for errors, no output may be "
           "written; without a failure it must be zero and the output written. Counts of 1 and 256 are used (an exit status is one byte). main() must hand the value on. "
           "The three reporters are followed from an arbitrary state: every path adds to the count their GetErrors returns (or exits non-zero). No other "
           "function may change a count except by adding (unit import: the count of the unit's parser is added on every path). CreateBinary is followed with "
           "every library call that can fail failing in turn: the result must be false. Every function that prints to the error stream and is reachable "
           "from the stages outside dumping must report, fail the run, or be guarded by the verbosity option.")
RULE = ("One obligation per scenario path of Compile and main, per path of each reporter, per writing site of a counter, per path of CreateBinary, per unit import path, per "
        "call of exit, per printing function.")

class Bad(list):
    def __call__(self, what, detail):
        self.append({"what": what, "detail": detail})

def one(p, name, n=None):
    fs = [f for f in p.fns.values() if f["n"] == name and f.get("body") and (n is None or len(f["p"]) == n)]
    if len(fs) != 1:
        raise AnalysisError("%s: %d definitions" % (name, len(fs)))
    return fs[0]

# ---- Compile
STAGES = ["open", "parse", "sema", "code", "gen", "binary"]
def compile_case(p, sc, emit, cg, late, bad):
    W = World(p)
    W.preset(verbosity=0, emitType=emit, callGraph=cg)
    def hook(I, n, f, o, vs, st):
        nm = f["n"]
        last = nm.split("::")[-1]
        def ret(v, *eff):
            for e in eff:
                st.add(e, (), None)
                st.set("#c", e, 1)
            return [(v, st)]
        on = lambda e: st.get("#c", e)
        if last == "operator bool" and ("FileSource" in nm or "basic_ios" in nm or nm == "Source::operator bool"):
            return ret(0 if "open" in sc else 1)
        if last == "operator!" and "basic_ios" in nm:
            return ret(1 if "open" in sc else 0)
        if nm == "CreateModule":
            return ret(I.newobj(st, "llvm::Module"))
        if nm == "GetParser":
            return ret(I.newobj(st, "ParserInterface"))
        if last == "Parse" and "Parser" in nm:
            return ret(I.newobj(st, "ExprAST"), "parse")
        if last == "GetErrors" and "Parser" in nm:
            return ret(sc.get("parse", 0) if on("parse") else 0)
        if nm == "Semantics::Analyse":
            return ret(VOID, "sema")
        if nm == "Semantics::GetErrors":
            return ret(sc.get("sema", 0) if on("sema") else 0)
        if nm == "GetErrors":
            return ret(sc.get("gen", 0) if on("backpatch" if late else "code") else 0)
        if last == "CodeGen":
            return ret(NULL if "code" in sc else I.newobj(st, "llvm::Value"), "code")
        if nm == "BackPatch":
            return ret(VOID, "backpatch")
        if nm == "CreateBinary":
            return ret(0 if "binary" in sc else 1, "binary")
        if nm in ("CallGraph", "BuildClosures", "Builtin::InitBuiltins", "RunOptimisationPasses"):
            return ret(VOID, nm)
        return None
    W.I.hook = hook
    k = 0
    for kind, v, s in W.run(one(p, "Compile"), None, (sym("file"),)):
        k += 1
        eff = [e[0] for e in s.effects()]
        done = lambda e: e in eff
        what = "Compile, %s%s, output kind %d%s" % (", ".join("%s=%s" % x for x in sorted(sc.items())) or "no failure", " (late)" if late else "", emit, ", call graph" if cg else "")
        if kind == "x":
            if not sc:
                bad("%s: ends in an internal error" % what, str(eff))
            continue
        if not isinstance(v, int):
            raise AnalysisError("%s: result %s" % (what, str(v)[:80]))
        failed = [f for f in sc if f in ("open", "parse", "sema") or done({"code": "code", "gen": "code", "binary": "binary"}[f])]
        if failed:
            if v & 255 == 0:
                bad("%s: exit status %d is success" % (what, v & 255), "stages run: %s" % eff)
            if failed != ["binary"] and done("binary"):
                bad("%s: the output is written all the same" % what, "stages run: %s" % eff)
            if set(failed) & {"open", "parse", "sema"} and done("code"):
                bad("%s: code is generated all the same" % what, "stages run: %s" % eff)
        else:
            if v & 255:
                bad("%s: exit status %d is a failure" % (what, v & 255), "stages run: %s" % eff)
            if emit != 2 and not done("binary"):
                bad("%s: no output is written" % what, "stages run: %s" % eff)
        if not sc:
            for e in ("parse", "sema") + (("code", "backpatch") if emit != 2 else ()):
                if not done(e):
                    bad("%s: stage %s is left out" % (what, e), "stages run: %s" % eff)
            order = [e for e in eff if e in ("parse", "BuildClosures", "sema", "code", "backpatch", "binary")]
            if order != sorted(order, key=["parse", "BuildClosures", "sema", "code", "backpatch", "binary"].index):
                bad("%s: stages out of order" % what, "stages run: %s" % order)
    return k

def main_case(p, bad):
    k = 0
    for val in (0, 1, 3):
        W = World(p)
        def hook(I, n, f, o, vs, st):
            if f["n"] == "Compile":
                st.add("compile", (), None)
                return [(val, st)]
            if f["n"] in ("GetPath", "llvm::cl::ParseCommandLineOptions"):
                return [(sym("x"), st)]
            return None
        W.I.hook = hook
        for kind, v, s in W.run(one(p, "main"), None, (sym("argc"), sym("argv"))):
            k += 1
            if kind == "x":
                continue
            if "compile" not in [e[0] for e in s.effects()]:
                if v == 0:
                    bad("main: success without compiling", "")
                continue
            if not isinstance(v, int) or (v & 255 != 0) != (val != 0):
                bad("main: Compile's result %d becomes exit status %s" % (val, v), "")
    return k

# ---- reporters
def counters(g):
    """[("f", field) or ("g", global id)] the variables a getter mentions."""
    out = []
    def w(n):
        if n["k"] == "mem" and ("f", n["f"]) not in out:
            out.append(("f", n["f"]))
        if n["k"] == "var" and n["v"].get("g") and ("g", n["v"]["id"]) not in out:
            out.append(("g", n["v"]["id"]))
    walk(g["body"], w)
    if not out:
        raise AnalysisError("%s returns no variable" % g["n"])
    return out

def reporter_case(p, name, getter, count, loc, bad):
    W = World(p)
    W.I.opaque -= {"Error", "TypeCheckVisitor::Error"}
    W.preset(verbosity=0)
    f = [f for f in p.fns.values() if f["n"] == name and f.get("body") and any("basic_string" in a["t"] for a in f["p"])]
    if len(f) != 1:
        raise AnalysisError("%s: %d" % (name, len(f)))
    f = f[0]
    g = one(p, getter, 0)
    st = W.st
    this = W.I.newobj(st, f["cls"]) if f.get("cls") else None
    def hook(I, n, fn, o, vs, s):
        last = fn["n"].split("::")[-1]
        if last == "Loc":
            return [(sym("loc"), s)]
        if last == "operator bool":
            return [(loc, s)]
        if last == "PrintSource":
            return [(VOID, s)]
        if last in ("exit", "abort", "_exit"):
            s.add("exit", tuple(vs), None)
            I.exits.append(("x", s))
            return []
        return None
    W.I.hook = hook
    holder = this
    if name.startswith("TypeCheckVisitor"):
        holder = W.I.newobj(st, "Semantics")
        ptr = [n["f"] for n in mems(f) if "Semantics" in n.get("t", "")]
        if not ptr:
            raise AnalysisError("%s does not mention the Semantics object" % name)
        st.set(this, ptr[0], holder)
    first = True
    for k, nm in counters(g):
        st.set(holder if k == "f" else "glob", nm, count if first else 0)
        first = False
    def read(s):
        s = s.copy()
        r = W.I.run(g, holder if g.get("cls") else None, (), s)
        return r[0][1] if len(r) == 1 and r[0][0] == "r" else None
    if read(st) != count:
        bad("%s returns %s for a count of %d" % (getter, read(st), count), "")
    args = ["msg" if "basic_string" in a["t"] or "char" in a["t"] else 7 if a["t"] == "int" else sym("arg:" + a["name"]) for a in f["p"]]
    k = 0
    for kind, v, s in W.run(f, this, tuple(args)):
        k += 1
        what = "%s with %d errors before%s" % (name, count, "" if loc else ", no location")
        if kind == "x":
            ex = [e[1] for e in s.effects() if e[0] == "exit" and e[1]]
            if ex and isinstance(ex[-1][0], int) and ex[-1][0] & 255 == 0:
                bad("%s: exits with success" % what, "")
            continue
        if read(s) != count + 1:
            bad("%s: the count is %s afterwards" % (what, read(s)), "counter %s" % (counters(g),))
    return k

def mems(fn):
    out = []
    def w(n):
        if n["k"] == "mem":
            out.append(n)
    walk(fn.get("body"), w)
    return out

def samecounter(n, t):
    """Is the expression the sum of this counter and something else?"""
    while n["k"] == "cast":
        n = n["e"]
    if n["k"] == "bin" and n["op"] == "+":
        for x in (n["x"], n["y"]):
            while x["k"] in ("ld", "cast"):
                x = x["e"]
            if lval(x) == t:
                return True
    return False

def lval(e):
    if e["k"] == "mem":
        return ("f", e.get("cls"), e["f"])
    if e["k"] == "var" and e["v"].get("g"):
        return ("g", None, e["v"]["id"])
    return None

def writes(p, bad):
    """Counters only ever grow."""
    cs = {}
    for _, cls, getter in REPORTERS:
        for k, nm in counters(one(p, getter, 0)):
            cs[(k, cls if k == "f" else None, nm)] = getter
    k = 0
    for f in p.fns.values():
        def w(n):
            nonlocal k
            if n["k"] == "assign" and lval(n["x"]) in cs:
                k += 1
                if n["op"] == "+=" or n["op"] == "=" and samecounter(n["y"], lval(n["x"])):
                    return
                if f.get("ctor") and f.get("cls") == lval(n["x"])[1]:
                    return
                bad("%s: the error count is overwritten" % f["n"], "line %d: operator %s on the counter that %s returns" % (n["l"], n["op"], cs[lval(n["x"])]))
            elif n["k"] == "un" and lval(n["e"]) in cs:
                k += 1
                if n["op"] not in ("p++", "++", "++p"):
                    bad("%s: operator %s on the error count" % (f["n"], n["op"]), "line %d, counter of %s" % (n["l"], cs[lval(n["e"])]))
        walk(f.get("body"), w)
    return k

REPORTERS = [("Parser::PrintError", "Parser", "Parser::GetErrors"), ("TypeCheckVisitor::Error", "Semantics", "Semantics::GetErrors"), ("Error", None, "GetErrors")]

# ---- import of units
def local_parsers(p):
    """Functions that have a parser of their own (an automatic object)."""
    out = []
    for f in p.fns.values():
        hit = []
        def w(n):
            if n["k"] == "decl" and n["v"].get("t") == "Parser" and not n.get("static"):
                hit.append(n)
        walk(f.get("body"), w)
        if hit:
            out.append(f)
    return out

def import_case(p, f, inner, result, readable, bad):
    W = PWorld("uses foo ; begin end .")
    W.builtins()
    W.begin()
    g = one(p, "Parser::GetErrors", 0)
    fld = counters(g)[0][1]
    W.st.set(W.P, fld, 3)
    base = W.I.hook
    def hook(I, n, fn, o, vs, s):
        nm, last = fn["n"], fn["n"].split("::")[-1]
        if last == "operator bool" and "basic_ios" in nm or nm.startswith("FileSource::operator"):
            return [(1 if readable else 0, s)]
        if last == "operator!" and "basic_ios" in nm:
            return [(0 if readable else 1, s)]
        if nm == "GetPath":
            return [("dir", s)]
        if nm == "Parser::Parse" and o is not W.P:
            s.add("inner", (), None)
            return [(NULL if result == "null" else s.get("#u", "ua"), s)]
        if nm == "Parser::GetErrors" and o is not W.P:
            return [(inner, s)]
        if nm == "Parser::AddInterface":
            return [(1, s)]
        return base(I, n, fn, o, vs, s)
    W.I.hook = hook
    ua = W.I.newobj(W.st, "UnitAST")
    W.st.set("#u", "ua", ua)
    k = 0
    for kind, v, s in W.run(f, W.P):
        k += 1
        if kind == "x":
            continue
        eff = [e[0] for e in s.effects()]
        t = s.get(W.P, fld)
        diags = eff.count("diag")
        if not isinstance(t, int):
            raise AnalysisError("%s: the count becomes %s" % (f["n"], str(t)[:60]))
        if readable and "inner" not in eff:
            bad("%s: the unit is not parsed" % f["n"], str(eff[-10:]))
        want = 3 + (inner if readable else 0)
        if t + diags < want or not readable and not diags:
            bad("%s: %d errors in the unit%s, %d reported here, count %d -> %d" % (f["n"], inner, "" if readable else " (not readable)", diags, 3, t), "unit parser returns %s" % result)
    return k

# ---- writing the output
def truth(s, x):
    """Set of truth values a result may have at the end of a path."""
    f = s.facts.get(x)
    if f and f[0] == "in":
        return {not (y == 0 or y is NULL) for y in f[1]}
    if f and f[0] == "out" and (0 in f[1] or NULL in f[1]):
        return {True}
    return {True, False}

def binary_case(p, emit, bad):
    W = World(p)
    W.preset(verbosity=0, debugInfo=0)
    exts = {}
    def hook(I, n, f, o, vs, st):
        nm, last = f["n"], f["n"].split("::")[-1]
        if nm == "replace_ext":
            return [(mk("ext", *vs), st)]
        if last in ("exit", "_exit"):
            st.add("exit", tuple(vs), None)
            I.exits.append(("x", st))
            return []
        return None
    W.I.hook = hook
    k = 0
    for kind, v, s in W.run(one(p, "CreateBinary"), None, (sym("module"), sym("file"), emit)):
        k += 1
        if kind == "x":
            continue
        fails = []
        eff = [e[0] for e in s.effects()]
        for e in s.effects():
            c = FAIL.get(e[0].split(":")[-1])
            if c is None or not isinstance(e[2], T):
                continue
            r = truth(s, e[2])
            if c == "null" and r == {False}:
                fails.append(e[0])
            elif c == "true" and r == {True}:
                fails.append(e[0])
            elif len(r) > 1:
                fails.append(e[0] + " (result not looked at)")
        what = "CreateBinary, output kind %d: %s" % (emit, ", ".join(sorted(set(fails))) or "no failure")
        if fails and (not isinstance(v, int) or v):
            bad("%s, yet the result is success" % what, str(eff[-12:]))
        if not fails and v != 1 and v is not True:
            bad("%s, yet the result is %s" % (what, v), str(eff[-12:]))
        if not fails and (emit == 0 and eff.count("system") != 1 or not any(x.endswith("::keep") for x in eff)):
            bad("%s: nothing is kept" % what, str(eff[-12:]))
        if fails and fails != ["system"] and "system" in eff:
            bad("%s, yet the program is linked" % what, str(eff[-12:]))
        if [x for x in fails if x != "system"] and any(x.endswith("::keep") for x in eff):
            bad("%s, yet the file is kept" % what, str(eff[-12:]))
    return k
# what a failing library call returns
FAIL = {"lookupTarget": "null", "createTargetMachine": "null", "addPassesToEmitFile": "true", "system": "true", "operator bool": "true"}

# ---- everything that prints or exits
def is_print(n):
    """An output statement to the error stream, with its leading text."""
    hit = []
    def w(x):
        if x["k"] == "var" and x["v"].get("name") == "cerr":
            hit.append(1)
    walk(n, w)
    if not hit:
        return None
    lits = []
    def w2(x):
        if x["k"] == "str":
            lits.append(x["v"])
    walk(n, w2)
    return lits

def calls_of(n):
    out = []
    def w(x):
        if x["k"] in ("call", "ctor") and x.get("f"):
            out.append(x)
    walk(n, w)
    return out

def mentions(n, names):
    hit = []
    def w(x):
        if x["k"] == "var" and x["v"].get("name") in names:
            hit.append(1)
    walk(n, w)
    return bool(hit)

def reports(p):
    """Ids of the functions that report on every call: some unconditional statement calls a reporter."""
    r = {i for i, f in p.fns.items() if f["n"] in [x[0] for x in REPORTERS] or f["n"] == "InternalCompilerError"}
    while True:
        new = set()
        for i, f in p.fns.items():
            if i in r or not f.get("body"):
                continue
            for s in f["body"].get("s", []):
                if s["k"] in ("expr", "return", "decl") and any(c["f"]["id"] in r for c in calls_of(s)):
                    new.add(i)
                if s["k"] == "return":
                    break
        if not new:
            return r
        r |= new

def badend(s, rep):
    """Does the statement certainly report or end the run?"""
    if s["k"] in ("expr", "return", "decl"):
        for c in calls_of(s):
            if c["f"]["id"] in rep or c["f"]["n"].split("::")[-1] in ("abort", "exit", "_exit"):
                return True
    if s["k"] == "block":
        return any(badend(x, rep) for x in s["s"])
    if s["k"] == "if" and s.get("y"):
        return badend(s["x"], rep) and badend(s["y"], rep)
    return False

# trace() follows the compiler itself; a constant that cannot be evaluated is a null result its callers diagnose, which C12 decides
SILENT = {"trace", "Constants::ErrorConst"}
def printing(p, G, bad):
    """Functions reachable from main (outside dumps and reporters) that write to the error stream."""
    rep = reports(p)
    dumps = {i for i, f in p.fns.items() if f["n"].split("::")[-1] in ("dump", "DoDump") or f["n"].startswith("operator<<")}
    names = [x[0] for x in REPORTERS]
    stop = dumps | {i for i, f in p.fns.items() if f["n"] in names or f["n"] == "InternalCompilerError"}
    binary = G.reach([one(p, "CreateBinary")["id"], one(p, "CreateModule")["id"]])
    roots = [one(p, "main")["id"]]
    par = G.reach(roots, stop)
    k = 0
    for i in sorted(par):
        f = p.fns[i]
        if i in stop or i in binary or f["n"] in SILENT or i == one(p, "Compile")["id"] or not f.get("body"):
            continue        # Compile and CreateBinary with what they call are followed path by path
        def scan(n, guarded, follow):
            nonlocal k
            if not isinstance(n, dict):
                return
            if n["k"] == "block":
                for j, x in enumerate(n["s"]):
                    scan(x, guarded, n["s"][j + 1:] + follow)
            elif n["k"] == "if":
                g = guarded or mentions(n["c"], ("verbosity", "debugInfo", "timetrace"))
                scan(n["x"], g, follow)
                scan(n.get("y"), guarded, follow)
            elif n["k"] in ("for", "rfor", "while", "do", "switch"):
                scan(n["b"], guarded, follow)
            elif n["k"] in ("case", "default", "label"):
                scan(n["s"], guarded, follow)
            elif n["k"] == "expr":
                l = is_print(n)
                if l is None:
                    return
                k += 1
                if guarded or badend(n, rep) or any(badend(x, rep) for x in follow) or l and l[0].startswith("Skipping"):
                    return
                bad("%s prints and goes on as if nothing had happened" % f["n"], "line %d, text %s; reached: %s" % (n["l"], l, G.path(par, i)))
        scan(f["body"], False, [])
    return k

def exits(p, bad):
    k = 0
    for f in p.fns.values():
        for c in callsites(f):
            if c.get("f") and c["f"]["n"] in ("exit", "std::exit", "_exit", "_Exit", "std::_Exit", "quick_exit", "std::quick_exit"):
                k += 1
                a = c["a"][0]
                while a["k"] == "cast":
                    a = a["e"]
                if a["k"] != "int" or a["v"] & 255 == 0:
                    bad("%s leaves the compiler with a status that is not a failure" % f["n"], "line %d: exit(%s)" % (c["l"], a.get("v", a["k"])))
    return k

def main(argv):
    t0 = time.time()
    p = program("cxx")
    G = Graph(p)
    bad, errs, n = Bad(), {}, {}
    def do(name, fn, *a):
        try:
            n[name] = n.get(name, 0) + fn(*a)
        except (AnalysisError, KeyError, IndexError, TypeError, RecursionError) as e:
            errs[name + str(a[1:-1])[:80]] = "%s: %s" % (type(e).__name__, str(e)[:200])
    scs = [{}] + [{x: c} for x in ("parse", "sema", "gen") for c in (1, 256)] + [{"open": 1}, {"code": 1}, {"binary": 1}, {"parse": 1, "sema": 1}, {"code": 1, "gen": 2}]
    late = bool(set(G.reach([one(p, "BackPatch")["id"]])) & {i for i, f in p.fns.items() if f["n"] == "Error"})
    for sc in scs:
        for emit in (0, 1, 2):
            for cg in (0, 1):
                do("paths of Compile", compile_case, p, sc, emit, cg, False, bad)
                if late and "gen" in sc:
                    do("paths of Compile", compile_case, p, sc, emit, cg, True, bad)
    do("paths of main", main_case, p, bad)
    for name, cls, getter in REPORTERS:
        for count in (0, 1, 7, 29, 30, 31, 255):
            for loc in (0, 1):
                do("paths of reporters", reporter_case, p, name, getter, count, loc, bad)
    do("writes of counters", writes, p, bad)
    ps = local_parsers(p)
    if not ps:
        errs["import"] = "no function has a parser of its own"
    for f in ps:
        for inner in (0, 1, 4):
            for res in ("null", "unit"):
                for rd in (1, 0):
                    do("paths of unit import", import_case, p, f, inner, res, rd, bad)
    for emit in (0, 1):
        do("paths of CreateBinary", binary_case, p, emit, bad)
    do("printing statements", printing, p, G, bad)
    do("exits", exits, p, bad)
    seen, ub = set(), []
    for x in bad:
        if x["what"] not in seen:
            seen.add(x["what"])
            ub.append(x)
    tot = sum(n.values())
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": tot, "distinct_nontrivial": tot, "obligations": tot, "per_rule": n, "not_decided": len(errs), "source": REPO}
    if errs and not ub:
        for a, b in list(errs.items())[:5]:
            print("not decided: %s: %s" % (a, b))
    return runner.finish("C01", t0, cov, ub, errs)
