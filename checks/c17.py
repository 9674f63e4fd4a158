"""C17: nothing in the compiler's output depends on addresses, hashing order, time, environment or uninitialised memory."""
import re, time
from sa.world import *
from sa import runner
from sa.graph import Graph
from checks.c01 import one, Bad

SCALAR = {"int", "unsigned int", "bool", "char", "long", "unsigned long", "double", "short", "float", "unsigned short", "unsigned char", "signed char", "long long", "unsigned long long", "long double"}
def scalar(p, t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t.endswith("&") or "[" in t:
        return False
    if t.endswith("*") or t in SCALAR or t.endswith("*const"):
        return True
    return t in p.enums or "unnamed enum" in t

# ------------------------------------------------------------------ sources of chance
# external function (last name) -> compiler functions in which it may be used and why
SOURCES = {
    "now": (("TimeTraceImpl",), "times are printed on the error stream when asked for"),
    "getDefaultTargetTriple": (("CreateModule",), "the target"),
    "getHostCPUName": (("CreateObject", "CreateModule"), "-mcpu=native"),
    "realpath": (("GetPath",), "where the runtime library and units lie"),
    "getMainExecutable": (("main", "Compile"), "where the runtime library lies"),
}
CHANCE = re.compile(r"(^|::)(time|clock|now|rand|rand_r|random|srandom|srand|drand48|lrand48|arc4random|getrandom|getentropy|getenv|secure_getenv|getpid|getppid|gettid|gettimeofday|clock_gettime|timespec_get|localtime|gmtime|ctime|uname|"
                    r"gethostname|getcwd|current_path|hash|hash_value|hash_combine|_Hash_bytes|getHostCPUName|getHostCPUFeatures|getDefaultTargetTriple|getProcessTriple|getMainExecutable|realpath|random_device|GetRandomNumber|getRandomNumber|this_thread|get_id|"
                    r"hardware_concurrency|last_write_time|getLastModificationTime|stat|fstat|getpwuid|getuid|getlogin|sysconf|times|getrusage|mersenne_twister_engine|linear_congruential_engine|uniform_int_distribution|createUniqueFile|createTemporaryFile|tmpnam|mkstemp|tempnam|async|thread)$")
def chance(p, G, bad):
    par = G.reach([one(p, "main")["id"]])
    callers = {}
    for i, o in G.out.items():
        for j in o:
            callers.setdefault(j, set()).add(i)
    def within(i, names, seen=()):
        if any(x in names for x in p.fns[i]["n"].split("::")):
            return True
        cs = [c for c in callers.get(i, ()) if c in par]
        return bool(cs) and i not in seen and all(within(c, names, seen + (i,)) for c in cs)
    k = 0
    for i in sorted(par):
        for x in sorted(G.ext.get(i, ())):
            b = re.sub(r"<.*", "", x)
            m = CHANCE.search(b)
            if not m:
                continue
            if x.startswith("llvm::hash"):
                continue
            k += 1
            allowed = SOURCES.get(m.group(2))
            if not allowed or not within(i, allowed[0]):
                bad("%s calls %s, whose result is not determined by source, options and target" % (p.fns[i]["n"], x[:80]), "reached: %s" % G.path(par, i))
    # values that global variables start with
    for gi, g in sorted(p.globals.items()):
        def w(n):
            nonlocal k
            if n["k"] in ("call", "ctor") and "f" in n:
                k += 1
                m = CHANCE.search(re.sub(r"<.*", "", n["f"]["n"]))
                if m and not n["f"]["n"].startswith("llvm::hash") and m.group(2) not in SOURCES:
                    bad("the global %s starts with the result of %s" % (g["v"].get("name"), n["f"]["n"][:80]), "%s:%s" % (g.get("file"), g.get("line")))
        walk(g.get("i"), w)
    return k + len(par)

# ------------------------------------------------------------------ order of addresses and of hashing
def targs(t):
    out, d, cur = [], 0, ""
    i = t.find("<")
    for c in t[i + 1:t.rfind(">")]:
        if c == "<":
            d += 1
        if c == ">":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]

def unordered(t):
    """Why going through a container of this type in order is not reproducible."""
    t = re.sub(r"^const ", "", t.replace("&", "").strip())
    m = re.match(r"(std::|llvm::)(__cxx11::)?(\w+)<", t)
    if not m:
        return None
    n, a = m.group(3), targs(t)
    if n.startswith("unordered_") or n in ("DenseMap", "SmallDenseMap", "DenseSet", "SmallDenseSet", "StringMap", "StringSet", "SmallPtrSet", "SmallPtrSetImpl"):
        return "its elements are in the order of their hashes"
    if n in ("map", "set", "multimap", "multiset", "priority_queue"):
        cmp = [x for x in a[1:] if "less" in x or "greater" in x or "(" in x or "lambda" in x]
        if a[0].endswith("*") and (not cmp or re.match(r"std::(less|greater)<", cmp[0])):
            return "its elements are in the order of their addresses"
    return None

def declared(p):
    """types of all variables and fields by name of their place"""
    for i, g in p.globals.items():
        yield i, g["v"]["t"]
    for c, d in p.classes.items():
        for f in d["fields"]:
            yield "%s::%s" % (c, f["n"]), f["t"]

def order(p, G, bad):
    k = 0
    for f in p.fns.values():
        def w(n):
            nonlocal k
            if n["k"] == "rfor":
                k += 1
                r = unordered(n.get("rt", ""))
                if r:
                    bad("%s goes through a %s: %s" % (f["n"], n["rt"].split("<")[0], r), "line %s" % n.get("l"))
            if n["k"] == "call":
                g = n.get("f") or {"n": "", "id": None}
                last = g["n"].split("::")[-1]
                cls = str(g.get("cls") or "")
                if last in ("begin", "cbegin", "rbegin", "crbegin"):
                    k += 1
                    r = unordered(cls)
                    if r:
                        bad("%s goes through a %s: %s" % (f["n"], cls.split("<")[0], r), "line %s" % n.get("l"))
                base = re.sub(r"<.*", "", g["n"])
                if base in ("std::sort", "std::stable_sort", "std::partial_sort", "std::nth_element", "llvm::sort", "std::min_element", "std::max_element", "std::set_union", "std::set_difference", "std::set_intersection", "std::make_heap"):
                    k += 1
                    pt = g.get("pt") or []
                    named = [x for x in pt if "**" in x or re.search(r"\*\s*,|\*>|\* \*", x)]
                    if named and not any("lambda" in x or "Compare" in x or "(" in x for x in pt[-1:]):
                        bad("%s sorts addresses" % f["n"], "%s, line %s" % (g["n"][:80], n.get("l")))
                if last in ("operator<", "operator>", "operator<=", "operator>=", "operator()") and re.match(r"std::(less|greater|less_equal|greater_equal)<[^<>]*\*>", cls):
                    k += 1
                    bad("%s compares addresses" % f["n"], "line %s" % n.get("l"))
                if last in ("operator<<", "write_hex", "format", "format_hex") and any(re.match(r"(const )?void \*$", x.strip()) for x in (g.get("pt") or [])):
                    k += 1
                    if f["n"].split("::")[-1] not in ("dump", "DoDump"):
                        bad("%s writes an address" % f["n"], "line %s" % n.get("l"))
                if last in ("to_string", "utostr", "utohexstr", "itostr"):
                    k += 1
            if n["k"] == "bin" and n.get("op") in ("<", ">", "<=", ">="):
                k += 1
                t = [typeof(n[y]) for y in ("x", "y")]
                if any(x.rstrip().endswith("*") and re.sub(r"const |\*| ", "", x) not in [s.replace(" ", "") for s in SCALAR] for x in t if x):
                    bad("%s compares the addresses of two objects" % f["n"], "line %s" % n.get("l"))
            if n["k"] == "cast" and n.get("ck") in ("PointerToIntegral",):
                k += 1
                bad("%s takes an address as a number" % f["n"], "line %s" % n.get("l"))
        walk(f.get("body"), w)
        walk(f.get("inits"), w)
    return k

def typeof(n):
    while isinstance(n, dict):
        if n["k"] == "var":
            return n["v"]["t"]
        if "t" in n and isinstance(n["t"], str):
            return n["t"]
        if n["k"] == "call":
            return (n.get("f") or {}).get("rt", "")
        n = n.get("e")
    return ""

# ------------------------------------------------------------------ memory without a value
# fields that some constructor leaves out and whose reading is guarded by another field; the guard is decided elsewhere
GUARDED = {("Token", "intVal"): "read for integer tokens only", ("Token", "realVal"): "read for real tokens only",
           ("Lexer", "curChar"): "read when curValid says so", ("Lexer", "nextChar"): "read when curValid says so"}
# constructors that leave a field out and whose objects nobody asks for it
GUARDED_CTOR = {
    ("Types::EnumDecl", "uniqueID"): (r"TypeKind, const std::vector<std::(__cxx11::)?(basic_string|string)", "makes BoolDecl only (its other use assigns the number); Booleans are written by __write_bool"),
    ("VariableExprAST", "flags"): (r"NamedObject", "set for a VarDef, and every caller has a VarDef"),
}

def assigned_in(p, f, depth=3, seen=()):
    """Fields of this that a function gives a value on every way through it (a branch counts when all its arms do)."""
    def stm(n):
        if n is None:
            return set()
        k = n["k"]
        if k == "block":
            out = set()
            for x in n["s"]:
                out |= stm(x)
                if x and x["k"] in ("return", "break", "continue"):
                    break
            return out
        if k == "if":
            out = exp(n.get("c"))
            return out | (stm(n["x"]) & stm(n["y"]) if n.get("y") else set())
        if k in ("for", "while", "rfor", "switch", "case", "default"):
            return exp(n.get("c")) | (stm(n.get("i")) if k == "for" and isinstance(n.get("i"), dict) else set())
        if k == "do":
            return stm(n.get("b"))
        if k in ("expr", "return"):
            return exp(n.get("e"))
        if k == "decl":
            return exp(n.get("i"))
        return set()
    def exp(n):
        out = set()
        if not isinstance(n, dict):
            return out
        if n["k"] in ("lambda",):
            return out
        if n["k"] == "assign" and isinstance(n.get("x"), dict) and n["x"]["k"] == "mem":
            b = n["x"].get("b")
            if isinstance(b, dict) and b["k"] == "this":
                out.add(n["x"]["f"])
        if n["k"] == "call" and isinstance(n.get("o"), dict) and str(n["o"]).find("'this'") >= 0 and depth > 0:
            g = p.fns.get((n.get("f") or {}).get("id"))
            if g is not None and g["id"] not in seen and g.get("body"):
                out |= assigned_in(p, g, depth - 1, seen + (f["id"],))
        if n["k"] == "call":
            # handed over by reference
            for x, t in zip(n.get("a", []), (n.get("f") or {}).get("pt") or []):
                if isinstance(x, dict) and x["k"] == "mem" and t.rstrip().endswith("&") and not t.startswith("const"):
                    out.add(x["f"])
                if isinstance(x, dict) and x["k"] == "un" and x.get("op") == "&" and x["e"]["k"] == "mem":
                    out.add(x["e"]["f"])
        if n["k"] == "bin" and n.get("op") in ("&&", "||"):
            return out | exp(n["x"])
        if n["k"] == "cond":
            return out | exp(n["c"]) | (exp(n["x"]) & exp(n["y"]))
        for key, v in n.items():
            if isinstance(v, dict) and "k" in v:
                out |= exp(v)
            elif isinstance(v, list):
                for x in v:
                    out |= exp(x) if isinstance(x, dict) and "k" in x else set()
        return out
    return stm(f.get("body"))

def reads(p, live):
    """(class, field) -> functions that use its value, among those that can run"""
    out = {}
    for f in p.fns.values():
        if f.get("implicit") or f["id"] not in live:
            continue
        def w(n):
            if n["k"] == "ld" and isinstance(n.get("e"), dict) and n["e"]["k"] == "mem":
                out.setdefault((n["e"]["cls"], n["e"]["f"]), f["n"])
            elif n["k"] == "un" and "++" in str(n.get("op")) + "" or n["k"] == "un" and "--" in str(n.get("op")):
                e = n.get("e")
                if isinstance(e, dict) and e["k"] == "mem":
                    out.setdefault((e["cls"], e["f"]), f["n"])
            elif n["k"] == "assign" and n.get("op") not in ("=", None) and isinstance(n.get("x"), dict) and n["x"]["k"] == "mem":
                out.setdefault((n["x"]["cls"], n["x"]["f"]), f["n"])
        walk(f.get("body"), w)
        walk(f.get("inits"), w)
    return out

def fields(p, G, bad):
    k = 0
    rd = reads(p, G.reach([x["id"] for x in p.fns.values() if x["n"] == "main"]))
    ctors = {}
    for f in p.fns.values():
        if f.get("ctor") and not f.get("implicit") and f.get("cls") in p.classes:
            ctors.setdefault(f["cls"], []).append(f)
    for cls, fs in sorted(ctors.items()):
        c = p.classes[cls]
        for f in fs:
            if f.get("body") is None:
                continue
            ini = {i.get("m") for i in f.get("inits", [])}
            sig = ", ".join(x["t"] for x in f["p"])
            for i in f.get("inits", []):
                if i.get("base") == cls or i.get("deleg"):
                    e = i.get("e")
                    g = p.fns.get(e["f"]["id"]) if isinstance(e, dict) and "f" in e else None
                    if g is None:
                        ini |= {fl["n"] for fl in c["fields"]}
                    else:
                        ini |= {x.get("m") for x in g.get("inits", [])} | assigned_in(p, g)
            asg = None
            for fl in c["fields"]:
                if not scalar(p, fl["t"]):
                    continue
                k += 1
                if fl.get("i") is not None or fl["n"] in ini:
                    continue
                if asg is None:
                    asg = assigned_in(p, f)
                if fl["n"] in asg or (cls, fl["n"]) in GUARDED or (cls, fl["n"]) not in rd:
                    continue
                gc = GUARDED_CTOR.get((cls, fl["n"]))
                if gc and re.search(gc[0], sig):
                    continue
                bad("%s leaves %s without a value, %s reads it" % (f["n"] + "(" + sig + ")", fl["n"], rd[(cls, fl["n"])]), "%s:%s" % (f["file"], f["line"]))
    # classes without a constructor: fields without a value when an object is declared or made without braces
    plain = {}
    for cls, c in p.classes.items():
        if cls in ctors:
            continue
        un = [fl["n"] for fl in c["fields"] if scalar(p, fl["t"]) and fl.get("i") is None and (cls, fl["n"]) in rd]
        if un:
            plain[cls] = un
    for f in p.fns.values():
        def w(n):
            nonlocal k
            if n["k"] == "decl":
                t = n["v"]["t"].replace("const ", "")
                i = n.get("i")
                if t in plain and not n.get("static") and not n["v"].get("g") and (i is None or isinstance(i, dict) and i["k"] == "ctor" and not i.get("a") and not i.get("zero") and not i.get("list")):
                    k += 1
                    later = laterset(f, n["v"]["id"])
                    un = [x for x in plain[t] if x not in later]
                    if un:
                        bad("%s: the fields %s of %s have no value" % (f["n"], ", ".join(un), n["v"]["name"]), "line %s" % n.get("l"))
        walk(f.get("body"), w)
    return k

def laterset(f, vid):
    out = set()
    def w(n):
        if n["k"] == "assign" and isinstance(n.get("x"), dict) and n["x"]["k"] == "mem" and isinstance(n["x"].get("b"), dict) and n["x"]["b"]["k"] == "var" and n["x"]["b"]["v"]["id"] == vid:
            out.add(n["x"]["f"])
    walk(f.get("body"), w)
    return out

class Flow:
    """Definite assignment of the local variables of one function."""
    def __init__(self, p, f, report):
        self.p, self.f, self.report = p, f, report
        self.track = {}
        self.n = 0
        self.loops = []
    def go(self):
        self.st(self.f.get("body"), set())
    # sets are the variables with a value; None is 'not reached'
    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a & b
    def use(self, n, s):
        v = n["v"]
        if v["id"] in self.track and v["id"] not in s and not v.get("g"):
            self.report(v["name"], n.get("l"))
            s.add(v["id"])
    def ex(self, n, s):
        """Value of an expression; s is changed in place."""
        if isinstance(n, list):
            for x in n:
                self.ex(x, s)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "ld":
            e = n["e"]
            while isinstance(e, dict) and e.get("k") in ("temp", "paren"):
                e = e.get("e")
            if isinstance(e, dict) and e.get("k") == "var":
                self.use(e, s)
                return
            self.ex(e, s)
        elif k == "var":
            # the variable itself: its address or a reference is taken
            if not n["v"].get("g"):
                s.add(n["v"]["id"])
        elif k == "assign":
            x = n["x"]
            self.ex(n["y"], s)
            if isinstance(x, dict) and x.get("k") == "var":
                if n.get("op") != "=":
                    self.use(x, s)
                s.add(x["v"]["id"])
            else:
                self.ex(x, s)
        elif k == "un" and isinstance(n.get("e"), dict) and n["e"].get("k") == "var" and ("++" in n["op"] or "--" in n["op"]):
            self.use(n["e"], s)
        elif k == "bin" and n.get("op") in ("&&", "||"):
            self.ex(n["x"], s)
            t = set(s)
            self.ex(n["y"], t)
        elif k == "cond":
            self.ex(n["c"], s)
            a, b = set(s), set(s)
            self.ex(n["x"], a)
            self.ex(n["y"], b)
            s &= a & b
            s |= a & b
        elif k == "lambda":
            for c in n.get("caps", []):
                if isinstance(c, dict):
                    if isinstance(c.get("v"), dict) and "id" in c["v"]:
                        s.add(c["v"]["id"])
                    self.ex(c, s)
        elif k in ("unk",):
            pass
        else:
            for key, v in n.items():
                if key in ("f", "v") and isinstance(v, dict) and "k" not in v:
                    continue
                if isinstance(v, (dict, list)):
                    self.ex(v, s)
    def st(self, n, s):
        """State after the statement (None: not reached)."""
        if n is None or s is None:
            return s
        k = n["k"]
        if k == "block":
            for x in n["s"]:
                s = self.st(x, s)
            return s
        if k == "decl":
            v = n["v"]
            if n.get("i") is None and not n.get("static") and not v.get("g") and scalar(self.p, v["t"]):
                self.track[v["id"]] = v["name"]
                self.n += 1
                s = set(s)
                s.discard(v["id"])
                return s
            self.ex(n.get("i"), s)
            return s
        if k == "expr":
            s = set(s)
            self.ex(n.get("e"), s)
            return None if noreturn(n.get("e")) else s
        if k == "return":
            self.ex(n.get("e"), set(s))
            return None
        if k in ("break", "continue"):
            if self.loops:
                j = len(self.loops) - 1
                if k == "continue":
                    while j >= 0 and self.loops[j][0] == "switch":
                        j -= 1
                if j >= 0:
                    self.loops[j][1 if k == "break" else 2].append(set(s))
            return None
        if k == "if":
            s = set(s)
            for pre in ("init", "cv"):
                if pre in n:
                    s = self.st(n[pre], s)
            t, e = self.branches(n["c"], s)
            a = self.st(n["x"], t)
            b = self.st(n["y"], e) if n.get("y") else e
            return self.join(a, b)
        if k in ("while", "for", "rfor", "do"):
            s = set(s)
            for pre in ("init", "cv"):
                if isinstance(n.get(pre), dict):
                    s = self.st(n[pre], s)
            if k == "for" and isinstance(n.get("i"), dict):
                s = self.st(n["i"], s)
            if k == "rfor":
                self.ex(n.get("r"), s)
            self.loops.append((k, [], []))
            out = None
            if k == "do":
                e = self.st(n["b"], set(s))
                for c in self.loops[-1][2]:
                    e = self.join(e, c)
                if e is not None:
                    t, out = self.branches(n["c"], set(e))
            else:
                t = set(s)
                c = n.get("c") if k != "rfor" else None
                if c is not None:
                    t, out = self.branches(c, t)
                elif k == "rfor":
                    out = set(s)
                e = self.st(n["b"], t)
                if k == "for" and n.get("n"):
                    for c2 in self.loops[-1][2]:
                        e = self.join(e, c2)
                    if e is not None:
                        self.ex(n["n"], e)
            _, br, _ = self.loops.pop()
            for b in br:
                out = self.join(out, b)
            return out
        if k == "switch":
            s = set(s)
            for pre in ("init", "cv"):
                if isinstance(n.get(pre), dict):
                    s = self.st(n[pre], s)
            self.ex(n["c"], s)
            self.loops.append(("switch", [], []))
            cur, dflt = None, False
            body = n["b"]["s"] if n["b"] and n["b"]["k"] == "block" else [n["b"]]
            for x in body:
                while x is not None and x["k"] in ("case", "default"):
                    dflt = dflt or x["k"] == "default"
                    cur = self.join(cur, set(s)) if cur is not None else set(s)
                    x = x["s"]
                cur = self.st(x, cur)
            _, br, _ = self.loops.pop()
            out = cur if dflt else self.join(cur, set(s)) if cur is not None else set(s)
            # all enumeration values may be listed: then no value leaves the switch unhandled, which cannot be told here
            if not dflt and n.get("all"):
                out = cur
            for b in br:
                out = self.join(out, b)
            return out
        if k in ("case", "default", "label"):
            return self.st(n["s"], s)
        if k == "goto":
            return None
        self.ex(n, s)
        return s
    def branches(self, c, s):
        """States when the condition holds and when it does not."""
        if isinstance(c, dict) and c.get("k") == "bin" and c.get("op") in ("&&", "||"):
            t, e = self.branches(c["x"], s)
            if c["op"] == "&&":
                t2, e2 = self.branches(c["y"], set(t))
                return t2, self.join(e, e2)
            t2, e2 = self.branches(c["y"], set(e))
            return self.join(t, t2), e2
        if isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
            t, e = self.branches(c["e"], s)
            return e, t
        if isinstance(c, dict) and c.get("k") in ("bool", "int") and c.get("v") in (0, 1, True, False):
            return (set(s), None) if c["v"] else (None, set(s))
        self.ex(c, s)
        return set(s), set(s)

def noreturn(e):
    while isinstance(e, dict) and e.get("k") in ("temp", "cast"):
        e = e.get("e")
    return isinstance(e, dict) and e.get("k") == "call" and "f" in e and e["f"]["n"].split("::")[-1] in ("exit", "abort", "_Exit", "InternalCompilerError", "__builtin_unreachable", "llvm_unreachable_internal", "terminate", "quick_exit")

def locals_(p, G, bad):
    k = 0
    for f in sorted(p.fns.values(), key=lambda f: f["id"]):
        if not f.get("body") or f.get("implicit"):
            continue
        F = Flow(p, f, lambda v, l: bad("%s reads %s before it has a value" % (f["n"], v), "%s:%s" % (f["file"], l)))
        F.go()
        k += F.n
    return k

EXPLAIN = ("The call graph reachable from main is searched for functions whose results depend on time, chance, environment or addresses; every loop over a container, every comparison, cast and output of addresses is looked at; every constructor and "
           "every local variable is followed by a definite-assignment analysis.")
RULE = "No such function outside the named places; no container ordered by address or hash is gone through; addresses are neither ordered nor written; every field and variable that is read has a value on all ways to it."

def main(argv):
    t0 = time.time()
    p = program("cxx")
    G = Graph(p)
    bad, errs, n = Bad(), {}, {}
    for name, fn in (("functions reachable from main", chance), ("loops and comparisons", order), ("constructor fields", fields), ("local variables without initialiser", locals_)):
        try:
            n[name] = fn(p, G, bad)
        except (AnalysisError, KeyError, IndexError, TypeError, RecursionError) as e:
            errs[name] = "%s: %s" % (type(e).__name__, str(e)[:300])
    seen, ub = set(), []
    for x in bad:
        if x["what"] not in seen:
            seen.add(x["what"])
            ub.append(x)
    tot = sum(n.values())
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": tot, "distinct_nontrivial": tot, "obligations": tot, "per_rule": n, "not_decided": len(errs), "source": REPO}
    return runner.finish("C17", t0, cov, ub, errs)
