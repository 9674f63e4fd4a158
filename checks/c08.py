"""C08: the interface between compiled programs and the runtime library: routines, layouts and constants."""
import re, time
from sa.world import *
from sa import runner
from sa.repo import program, REPO
from sa.graph import callsites

MODS = runner.CODEGEN
KINDS = {"c64": 8, "c32": 4}

# C library routines and compiler intrinsics a program may call, with (result, parameters)
D, I32, I64, I1, P = "double", "i32", "i64", "i1", "ptr"
LIB = {"exit": ("void", [I32]), "atan": (D, [D]), "atan2": (D, [D, D]), "fmod": (D, [D, D]), "tan": (D, [D])}
INTR = {"sqrt": 1, "sin": 1, "cos": 1, "exp": 1, "log": 1, "fabs": 1, "floor": 1, "round": 1, "trunc": 1, "copysign": 2, "pow": 2, "maxnum": 2, "minnum": 2, "ctpop": 1}

# ---- types as lists of (kind, offset, size)
def csize(t):
    return {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long long": 8, "unsigned long long": 8,
            "float": 4, "double": 8}.get(t)

def cflat(p, t, ptr, off=0):
    t = strip(t)
    if t == "void":
        return []
    if t.endswith("*"):
        return [("ptr", off, ptr)]
    m = re.match(r"(.*)\[(\d+)\]$", t)
    if m:
        e = cflat(p, m.group(1), ptr)
        n = csz(p, m.group(1), ptr)
        return [(k, off + i * n + o, s) for i in range(int(m.group(2))) for k, o, s in e]
    t = re.sub(r"^(struct|enum) ", "", t)
    if t in p.classes:
        r = []
        for f in p.classes[t]["fields"]:
            r += cflat(p, f["t"], ptr, off + f["off"] // 8)
        return r
    if t in ("long", "unsigned long"):
        return [("int", off, ptr)]
    n = csize(t)
    if n is None:
        raise AnalysisError("C type " + t)
    return [("fp" if t in ("float", "double") else "int", off, n)]
def csz(p, t, ptr):
    t = re.sub(r"^(struct|enum) ", "", strip(t))
    if t in p.classes:
        return p.classes[t]["size"]
    return sum(s for _, _, s in cflat(p, t, ptr))

def lsize(t, ptr):
    """(size, alignment) of an LLVM type on x86."""
    if t.op == "lty":
        n = t.a[0]
        if n == "ptr":
            return ptr, ptr
        if n == "double":
            return 8, ptr if ptr == 4 else 8
        if n[0] == "i":
            b = max(1, (int(n[1:]) + 7) // 8)
            return b, min(b, ptr)
    if t.op == "larr":
        s, a = lsize(t.a[0], ptr)
        return s * t.a[1], a
    if t.op == "lstruct":
        o, al = 0, 1
        for x in t.a[1].a:
            s, a = lsize(x, ptr)
            o = -(-o // a) * a + s
            al = max(al, a)
        return -(-o // al) * al, al
    raise AnalysisError("LLVM type %s" % show(t))
def lflat(t, ptr, off=0):
    if t.op == "lty":
        n = t.a[0]
        if n == "void":
            return []
        return [("ptr" if n == "ptr" else "fp" if n == "double" else "int", off, lsize(t, ptr)[0])]
    if t.op == "larr":
        s = lsize(t.a[0], ptr)[0]
        e = lflat(t.a[0], ptr)
        return [(k, off + i * s + o, z) for i in range(t.a[1]) for k, o, z in e]
    if t.op == "lstruct":
        r, o = [], 0
        for x in t.a[1].a:
            s, a = lsize(x, ptr)
            o = -(-o // a) * a
            r += lflat(x, ptr, off + o)
            o += s
        return r
    if t.op == "call:getType":
        return None
    raise AnalysisError("LLVM type %s" % show(t))

def parse_lty(s):
    """The type term from its printed form (cases run in other processes)."""
    ns = {"lty": lambda n: mk("lty", n), "larr": lambda t, n: mk("larr", t, n), "vec": lambda *a: mk("vec", *a), "lstruct": lambda n, f: mk("lstruct", n, f),
          "lfnty": lambda r, a, v: mk("lfnty", r, a, v)}
    try:
        return eval(s, {"__builtins__": {}}, ns)
    except Exception:
        return None

def masked(p, fn, i, seen=()):
    """True if parameter i of a C function is only used as (p & 1), directly or by what it is passed on to."""
    pid = fn["p"][i]["id"]
    ok = [True]
    def w(n, under=None):
        if isinstance(n, list):
            for x in n:
                w(x, under)
            return
        if not isinstance(n, dict):
            return
        if n.get("k") == "var" and n["v"]["id"] == pid and not n["v"].get("g"):
            if under != "mask":
                ok[0] = False
            return
        if n.get("k") == "bin" and n.get("op") == "&" and any(peel(n[x]).get("v") == 1 for x in ("x", "y")):
            for v in n.values():
                if isinstance(v, (dict, list)):
                    w(v, "mask")
            return
        if n.get("k") == "call":
            g = p.fns.get((n.get("f") or {}).get("id"))
            for j, a in enumerate(n.get("a") or []):
                x = peel(a)
                if isinstance(x, dict) and x.get("k") == "var" and x["v"]["id"] == pid and g and g["id"] not in seen and j < len(g["p"]):
                    if not masked(p, g, j, seen + (fn["id"],)):
                        ok[0] = False
                else:
                    w(a, under)
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                w(v, under if n.get("k") in ("cast", "paren", "ld") else None)
    w(fn["body"])
    return ok[0]

def peel(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "paren", "ld") and isinstance(n.get("e"), dict):
        n = n["e"]
    return n

def compat(p, kind, fn, i, lt, ct, consts):
    """None or why LLVM type lt does not fit C type ct (i: parameter number, or None for the result)."""
    ptr = KINDS[kind]
    if lt.op == "call:getType":
        return None
    if i is None and lt is mk("lty", "void") and strip(ct) not in p.classes:
        return None     # the result is not used
    l, c = lflat(lt, ptr), cflat(p, ct, ptr)
    if lt is mk("lty", "i1"):
        if len(c) != 1 or c[0][0] != "int":
            return "a boolean is passed where %s is expected" % ct
        if i is None or consts:
            return None
        if not masked(p, fn, i):
            return "only the low bit of a boolean argument is defined, but %s uses more of its parameter '%s'" % (fn["n"], fn["p"][i].get("name") or fn["p"][i].get("n"))
        return None
    if l != c:
        return "compiler passes %s, runtime expects %s" % (show(lt), ct)
    return None

EXPLAIN = ("Every runtime routine that the code generators ask for by name, with the function type they declare - collected by abstract interpretation of the code generators over all cases of the table checks - "
           "is compared with the prototype of that routine in the runtime library's source, parsed for 64 and for 32 bit: existence, number of parameters, and the flattened layout of each "
           "parameter and result type. Booleans may only reach parameters of which the routine uses the low bit. Record layouts, string and set constants known to both sides are compared field by field.")
RULE = ("One obligation per (routine, declared type, target) and per shared layout or constant (per target).")

def main(argv):
    t0 = time.time()
    bad, errs, n = [], {}, 0
    R = {}
    visited = set()
    for m in MODS:
        for name, (out, meta, err, dt) in runner.run_cases(m).items():
            if err:
                errs["%s %s" % (m, name)] = err
            for nm, ty, site in (meta or {}).get("rt", ()):
                R.setdefault((nm, ty), (site, "%s %s" % (m, name)))
                visited.add(site)
    P = {k: program(k) for k in KINDS}
    px = program("cxx")
    def report(what, detail):
        bad.append({"what": what, "detail": detail})
    names = set()
    for (nm, ty), (site, case) in sorted(R.items()):
        where = "declared in %s (case %s)" % (site, case)
        t = parse_lty(re.sub(r"call:getType\((?:[^()]|\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\))*\)", "lty('?')", ty))
        if t is None or t.op != "lfnty":
            errs[nm] = "function type %s" % ty
            continue
        rt, args = t.a[0], t.a[1].a
        names.add(nm)
        if nm.startswith("llvm."):
            n += 1
            b = nm.split(".")
            if b[1] in INTR and len(b) == 3:
                s = {"f64": D}.get(b[2], b[2])
                if rt is not mk("lty", s) or len(args) != INTR[b[1]] or any(a is not mk("lty", s) for a in args):
                    report(nm, "the intrinsic %s does not have the type %s; %s" % (nm, ty, where))
            elif nm == "llvm.readcyclecounter":
                if rt is not mk("lty", I64) or args:
                    report(nm, "the intrinsic does not have the type %s; %s" % (ty, where))
            elif b[1] == "cttz":
                if rt is not mk("lty", b[2]) or [show(a) for a in args] != ["lty('%s')" % b[2], "lty('i1')"]:
                    report(nm, "the intrinsic does not have the type %s; %s" % (ty, where))
            elif b[1:] not in (["init", "trampoline"], ["adjust", "trampoline"], ["va_start"]):
                report(nm, "no such intrinsic is known; %s" % where)
            continue
        if nm in LIB:
            n += 1
            if (rt.a[0], [a.a[0] for a in args]) != LIB[nm]:
                report(nm, "the C library's %s does not have the type %s; %s" % (nm, ty, where))
            continue
        for k in KINDS:
            n += 1
            p = P[k]
            fs = [f for f in p.fns.values() if f["n"] == nm and f.get("body") and not f.get("static")]
            if not fs:
                report("%s %s" % (nm, k), "no routine of this name in the runtime library; %s" % where)
                continue
            f = fs[0]
            if len(f["p"]) != len(args):
                report("%s %s" % (nm, k), "declared with %d parameters, the runtime routine has %d; %s" % (len(args), len(f["p"]), where))
                continue
            for i, (a, c) in enumerate([(rt, f["rt"])] + [(x, y["t"]) for x, y in zip(args, f["p"])]):
                if a is mk("lty", "?"):
                    continue
                # the text flag of reset, rewrite and append is a constant, which is passed as a full word
                w = compat(p, k, f, i - 1 if i else None, a, c, nm in ("__reset", "__rewrite", "__append"))
                if w:
                    report("%s %s" % (nm, k), "%s: %s; %s" % ("result" if i == 0 else "parameter %d" % i, w, where))
    # literal routine names anywhere in the compiler
    lits = {}
    for f in px.fns.values():
        for c in callsites(f):
            if c["k"] == "call" and (c.get("f") or {}).get("n") == "GetFunction":
                def w(x):
                    if isinstance(x, dict):
                        if x.get("k") == "str" and isinstance(x.get("v"), str):
                            lits.setdefault(x["v"], f["n"])
                        for y in x.values():
                            w(y)
                    elif isinstance(x, list):
                        for y in x:
                            w(y)
                w(c)
    rts = {f["n"] for f in P["c64"].fns.values()}
    for l, f in sorted(lits.items()):
        if not l.startswith("__"):
            continue
        n += 1
        if l not in rts and not any(x.startswith(l) for x in rts):
            report("literal %s" % l, "%s asks for a runtime routine '%s', which does not exist" % (f, l))
    # layouts
    W = World()
    def ll(ty):
        r = W.run("Types::TypeDecl::LlvmType", ty, ())
        return r[0][1] if len(r) == 1 else None
    def names_of(ty):
        fs = W.st.get(ty, "fields")
        return [W.st.get(x, "name") for x in fs.a] if isinstance(fs, T) and fs.op == "vec" else None
    shared = [("file", ll(W.ty("file(int)")), "File", None), ("text", ll(W.ty("text")), "File", None), ("string[255]", ll(W.ty("str(255)")), "String", None),
              ("complex", ll(W.ty("complex")), "Complex", None)]
    for fn, c in (("Types::GetTimeStampType", "TimeStamp"), ("Types::GetBindingType", "BindingType")):
        ty = W.invoke(W.p.fn(fn), None)
        shared.append((c, ll(ty), c, names_of(ty)))
    for k, ptr in KINDS.items():
        p = P[k]
        for nm, lt, c, fns in shared:
            n += 1
            if lt is None or c not in p.classes:
                errs["layout " + nm] = "not derived"
                continue
            a, b = lflat(lt, ptr), cflat(p, c, ptr)
            if a != b or lsize(lt, ptr)[0] != p.classes[c]["size"]:
                d = [(x, y) for x, y in zip(a + [None] * len(b), b + [None] * len(a)) if x != y]
                report("layout of %s %s" % (nm, k), "compiler's %s and the runtime's struct %s differ: (kind, offset, size) %s" % (show(lt)[:300], c, d[:3]))
            cn = [x["n"] for x in p.classes[c]["fields"]]
            if fns and [x.lower() for x in fns] != [x.lower() for x in cn]:
                report("fields of %s %s" % (nm, k), "compiler: %s, runtime: %s" % (fns, cn))
        n += 1
        cn = [x["n"].lower() for x in p.classes["File"]["fields"]]
        en = sorted((v, x.split("::")[-1].lower()) for x, v in px.enumconst.items() if re.match(r"Types::FileDecl::(.*::)?(Handle|Buffer|RecordSize|IsText)$", x))
        if [x for _, x in en] != cn or [v for v, _ in en] != list(range(len(cn))):
            report("file field numbers %s" % k, "compiler: %s, runtime: %s" % (en, cn))
        n += 1
        sb = [v for x, v in px.enumconst.items() if x.endswith("SetBits")]
        wt = cflat(p, p.classes["Set"]["fields"][0]["t"], ptr)[0]
        st = ll(W.ty("set(0,100)"))
        if not sb or sb[0] != 8 * wt[2] or st is None or lflat(st, ptr)[0][2] != wt[2] or len(lflat(st, ptr)) != -(-101 // sb[0]):
            report("set words %s" % k, "compiler: %s bits per word, %s; runtime: %s" % (sb, show(st), wt))
        n += 1
        r = W.run("MakeEnumToString", None, (W.ty("enum(3)"),)) if k == "c64" else r
        gv = [v for kk, v, s in r if kk == "r"]
        txt = " ".join(sorted({repr(v) for v in gv})) if gv else ""
        m = [x for v in gv for x in subterms(v) if x.op == "lstruct"] or [x for kk, v, s in r for e in s.effects() for x in subterms(e[1]) if x.op == "lstruct"]
        if not m:
            errs["enum table"] = "not derived"
        elif lflat(m[0], ptr)[:2 + 1] != cflat(p, "EnumToString", ptr) or lsize(m[0], ptr)[0] != p.classes["EnumToString"]["size"] + 8:
            report("layout of enumeration name table %s" % k, "compiler: %s, runtime: %s" % (show(m[0]), [x["t"] for x in p.classes["EnumToString"]["fields"]]))
        # what the runtime library needs from the program
        lits = all_literals(px)
        for g in externs(p):
            n += 1
            if g not in lits:
                report("%s %s" % (g, k), "the runtime library needs the symbol '%s', which the compiler never defines" % g)
    allf = {f["n"] for f in px.fns.values() for c in callsites(f) if (c.get("f") or {}).get("n") == "GetFunction"}
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": n, "distinct_nontrivial": len(names), "not_decided": len(errs), "routines": sorted(names),
           "functions_that_declare_routines_not_analysed": sorted(allf - visited), "source": REPO}
    return runner.finish("C08", t0, cov, bad, errs)

def subterms(t):
    if isinstance(t, T):
        yield t
        for x in t.a:
            yield from subterms(x)
    elif isinstance(t, tuple):
        for x in t:
            yield from subterms(x)

def all_literals(px):
    r = set()
    def w(x):
        if isinstance(x, dict):
            if x.get("k") == "str" and isinstance(x.get("v"), str):
                r.add(x["v"])
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for f in px.fns.values():
        w(f.get("body"))
    return r

def externs(p):
    """Names the runtime library uses but neither it nor the C library defines."""
    r = set()
    for i, g in p.globals.items():
        if g.get("ext"):
            r.add(g["v"]["name"])
    for f in p.fns.values():
        if f["n"].startswith("__Pascal") and not f.get("body"):
            r.add(f["n"])
    for d in getattr(p, "decls", {}).values():
        if isinstance(d, dict) and str(d.get("n", "")).startswith("__Pascal"):
            r.add(d["n"])
    return r
