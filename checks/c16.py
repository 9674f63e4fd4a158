"""C16: options and files. The option table is read from the initialisers of the option objects, the writing of the output, the naming of files,
the optimisation pipeline and the choice of target are followed abstractly; effect rules bind every other access to files."""
import time, shlex
from sa.world import *
from sa.pworld import PWorld
from sa import runner
from sa.graph import Graph, callsites
from checks.c01 import one, Bad, local_parsers

EXPLAIN = ("The command line options are read from the initialisers of the option objects (name, value names, enumerators, variable set) and compared with the documented "
           "table, the variables' initial values with the documented defaults. Compile is followed for each output kind, CreateBinary with concrete file "
           "names (plain, with directories, spaces, quotes and other characters a shell gives meaning to) for each output kind, model, verbosity and debug setting: the files "
           "opened for writing, and the linker's command, split as a shell splits it, must be exactly the ones derived from the input's name; it must be the only command. "
           "replace_ext is followed on a catalogue of names. RunOptimisationPasses and CreateModule are followed for every level and model. Unit import opens exactly the "
           "unit's file beside the importing file. Over the call graph from main, functions of the library that open, create, delete or execute files, or read the "
           "environment may be called from the functions followed above only.")
RULE = ("One obligation per option attribute, per path of each function followed (files and arguments equal to the expected ones), per effect call site.")

OPTIONS = {  # option name or value name -> (variable, value); enumerators by name
    "v": ("verbosity", None), "tt": ("timetrace", None), "no-memcpy": ("disableMemcpyOpt", None), "Cr": ("rangeCheck", None), "g": ("debugInfo", None),
    "callgraph": ("callGraph", None),
    "O0": ("optimization", "O0"), "O1": ("optimization", "O1"), "O2": ("optimization", "O2"), "O3": ("optimization", "O3"),
    "emit=exe": ("emitType", "Exe"), "emit=llvm": ("emitType", "LlvmIr"), "emit=ast": ("emitType", "AST"),
    "m32": ("model", "m32"), "m64": ("model", "m64"),
    "std=none": ("standard", "none"), "std=iso7185": ("standard", "iso7185"), "std=iso10206": ("standard", "iso10206"),
}
DEFAULTS = {"verbosity": 0, "timetrace": 0, "disableMemcpyOpt": 0, "rangeCheck": 0, "debugInfo": 0, "callGraph": 0, "optimization": "O1", "emitType": "Exe", "model": "m64"}

def enum(p, e):
    r = [v for k, v in p.enumconst.items() if k == e or k.endswith("::" + e)]
    if not r:
        raise AnalysisError("enumerator %s" % e)
    return r

def options(p, bad):
    got, k = {}, 0
    for gid, g in p.globals.items():
        if "llvm::cl::opt<" not in g["v"]["t"] or not g.get("i"):
            continue
        items = []
        def w(n):
            if n["k"] == "str":
                items.append(("s", n["v"]))
            elif n["k"] == "var":
                items.append(("v", n["v"]["id"]))
        walk(g["i"], w)
        evs = []
        def w2(n):
            # one value of an enumeration: {name, value, description}
            if n["k"] in ("ilist", "ctor") and "OptionEnumValue" in n.get("t", n.get("cls", "")):
                nm, val = [], []
                walk(n, lambda x: nm.append(x["v"]) if x["k"] == "str" else val.append(x["v"]) if x["k"] == "int" else None)
                if nm and val:
                    evs.append((nm[0], val[0]))
        walk(g["i"], w2)
        locs = [x for t, x in items if t == "v" and x in p.globals]
        strs = [x for t, x in items if t == "s"]
        if not locs:
            continue
        if not evs:
            if strs:
                got[strs[0]] = (locs[-1], None)
        else:
            named = strs and strs[0] not in [a for a, b in evs] and " " not in strs[0] and not strs[0].endswith(":")
            for a, b in evs:
                got[(strs[0] + "=" if named else "") + a] = (locs[-1], b)
    for o, (var, val) in OPTIONS.items():
        k += 1
        if o not in got:
            bad("option -%s is not there" % o, "options found: %s" % sorted(got))
            continue
        v, x = got[o]
        if v.split("@")[0] != var:
            bad("option -%s sets %s instead of %s" % (o, v, var), "")
        elif (val is None) != (x is None) or val is not None and x not in enum(p, val):
            bad("option -%s selects value %s instead of %s" % (o, x, val), "")
    for var, d in DEFAULTS.items():
        k += 1
        gs = [g for i, g in p.globals.items() if i.split("@")[0] == var and "cl::opt" not in g["v"]["t"]]
        if len(gs) != 1:
            raise AnalysisError("variable %s" % var)
        i = gs[0].get("i")
        while isinstance(i, dict) and i["k"] == "cast":
            i = i["e"]
        val = 0 if i is None else i.get("v") if i["k"] in ("int", "bool", "enum") else i
        if val is True or val is False:
            val = int(val)
        if val not in (enum(p, d) if isinstance(d, str) else [d]):
            bad("the default of %s is %s" % (var, str(val)[:60]), "expected %s" % d)
    return k

def isopen(f):
    """A question about the state of a stream."""
    return f["n"].split("::")[-1] in ("operator bool", "operator!", "is_open", "good", "fail", "bad") and ("basic_ios" in f["n"] or "stream" in f["n"])

def opened(I, st, o):
    """The file name the stream was made with."""
    v = I.load(st, o.a[0]) if isinstance(o, T) and o.op == "addr" else o
    return tuple(x if isinstance(x, str) else I.val(st, x) for x in v.a if not isinstance(x, int)) if isinstance(v, T) and v.op.startswith("make") else (str(v),)

def emit_cases(p, bad):
    """What Compile hands to CreateBinary."""
    k = 0
    for emit in (0, 1, 2):
        W = World(p)
        W.preset(verbosity=0, emitType=emit, callGraph=0)
        def hook(I, n, f, o, vs, st):
            nm, last = f["n"], f["n"].split("::")[-1]
            ret = lambda v: [(v, st)]
            if isopen(f):
                st.add("open", opened(I, st, o), None)
                return ret(int(last != "operator!" and last != "fail" and last != "bad"))
            if nm == "CreateModule":
                return ret(I.newobj(st, "llvm::Module"))
            if nm == "GetParser":
                return ret(I.newobj(st, "ParserInterface"))
            if last == "Parse" and "Parser" in nm:
                return ret(I.newobj(st, "ExprAST"))
            if last == "GetErrors":
                return ret(0)
            if last == "CodeGen":
                return ret(I.newobj(st, "llvm::Value"))
            if nm == "CreateBinary":
                st.add("binary", tuple(vs), None)
                return ret(1)
            if nm.startswith("llvm::cl::opt_storage") and "operator" in last or nm.startswith("llvm::cl::opt<EmitType") or last == "operator EmitType":
                return ret(emit)
            if nm in ("CallGraph", "BuildClosures", "Builtin::InitBuiltins", "RunOptimisationPasses", "BackPatch", "Semantics::Analyse"):
                return ret(VOID)
            return None
        W.I.hook = hook
        for kind, v, s in W.run(one(p, "Compile"), None, ("some/prog.pas",)):
            k += 1
            b = [e[1] for e in s.effects() if e[0] == "binary"]
            op = {x for e in s.effects() if e[0] == "open" for x in e[1]}
            if op != {"some/prog.pas"}:
                bad("the source is read from %s" % sorted(map(str, op)), "expected the file given to Compile")
            if emit == 2 and b:
                bad("-emit=ast writes an output file", "")
            if emit != 2:
                if len(b) != 1 or W.I.val(s, b[0][1]) != "some/prog.pas" or b[0][2] != emit:
                    bad("output kind %d: CreateBinary is called with %s" % (emit, [tuple(str(W.I.val(s, x))[:40] for x in y) for y in b]), "")
    return k

NAMES = ["a.pas", "dir/prog.pas", "/tmp/x/y.pas", "a b.pas", "a;b.pas", "a$(c)d.pas", "a'b.pas", 'a"b.pas', "a`b.pas", "a&b.pas", "a|b.pas", "a>b.pas", "a*b.pas", "a\\b.pas", "x.pas.pas", "a.o.pas", ".pas"]
def binary(p, bad):
    k = 0
    for name in NAMES:
        for emit in (0, 1):
            for model in (0, 1):
                for verb, dbg in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    if (verb or dbg) and name not in NAMES[:4]:
                        continue
                    k += binary_one(p, name, emit, model, verb, dbg, bad)
    return k

LIB = "/opt/my lib"
def binary_one(p, name, emit, model, verb, dbg, bad):
    W = World(p)
    W.preset(verbosity=verb, debugInfo=dbg, model=model, libpath=LIB)
    def hook(I, n, f, o, vs, st):
        nm, last = f["n"], f["n"].split("::")[-1]
        if nm.startswith("llvm::TargetRegistry::lookupTarget"):
            return [(I.newobj(st, "llvm::Target"), st)]
        if last == "createTargetMachine":
            return [(I.newobj(st, "llvm::TargetMachine"), st)]
        if last == "addPassesToEmitFile":
            return [(0, st)]
        if last == "getMCPU":
            return [("", st)]
        if last == "operator bool" and "error_code" in nm:
            return [(0, st)]
        if last == "system":
            st.add("system", (I.cstring(st, vs[0], "const char *") if not isinstance(vs[0], str) else vs[0],), None)
            return [(0, st)]
        if last == "exit":
            I.exits.append(("x", st))
            return []
        return None
    W.I.hook = hook
    k = 0
    base = name[:-4]
    m32 = enum(p, "m32")[0]
    what = "output kind %d, file '%s'%s%s%s" % (emit, name, ", 32 bit" if model == m32 else "", ", -v" if verb else "", ", -g" if dbg else "")
    for kind, v, s in W.run(one(p, "CreateBinary"), None, (sym("module"), name, emit)):
        k += 1
        if kind == "x":
            bad("%s: the compiler gives up" % what, "")
            continue
        val = lambda x: W.I.val(s, x)
        opened = [e[1] for e in s.effects() if e[0].endswith("ToolOutputFile")]
        names = [val(a[0]) if a else None for a in opened]
        cmds = [e[1][0] for e in s.effects() if e[0] == "system"]
        want = [base + (".o" if emit == 0 else ".ll")]
        if names != want:
            bad("%s: writes to %s" % (what, [str(x)[:80] for x in names]), "expected %s" % want)
        if emit == 1:
            if cmds:
                bad("%s: runs %s" % (what, [str(x)[:80] for x in cmds]), "")
            continue
        if len(cmds) != 1:
            bad("%s: runs %d commands" % (what, len(cmds)), str(cmds)[:300])
            continue
        if not isinstance(cmds[0], str):
            raise AnalysisError("command %s" % str(cmds[0])[:200])
        if not shellsafe(cmds[0]):
            bad("%s: a character of the file's name has a meaning for the shell in: %s" % (what, cmds[0]), "")
            continue
        try:
            args = shlex.split(cmds[0])
        except ValueError as e:
            bad("%s: the shell cannot split %s" % (what, cmds[0]), str(e))
            continue
        exp = [args[0]] + (["-m32"] if model == m32 else []) + (["-v"] if verb else []) + [base + ".o", "-L" + LIB, "-lruntime" + ("-m32" if model == m32 else "")] + (["-g"] if dbg else []) + ["-lm", "-o", base]
        if args[0] not in ("gcc", "clang", "cc"):
            bad("%s: runs %s" % (what, args[0]), cmds[0])
        if "-o" not in args or args[args.index("-o") + 1:][:1] != [base]:
            bad("%s: the program is not written to '%s'" % (what, base), cmds[0])
        if sorted(args) != sorted(exp):
            bad("%s: the linker gets %s" % (what, args), "expected %s" % exp)
        elif args.index(base + ".o") > args.index("-lruntime" + ("-m32" if model == m32 else "")):
            bad("%s: the library stands before the object" % what, cmds[0])
    return k

def shellsafe(c):
    """No character outside quotes that the shell acts on."""
    q = None
    i = 0
    while i < len(c):
        x = c[i]
        if q == "'":
            if x == "'":
                q = None
        elif q == '"':
            if x == "\\":
                i += 1
            elif x == '"':
                q = None
            elif x in "$`":
                return False
        elif x == "\\":
            i += 1
        elif x in "'\"":
            q = x
        elif x in ";&|<>()$`*?[]{}!#~\n":
            return False
        i += 1
    return q is None

EXTS = [("a.pas", ".pas", ".o", "a.o"), ("a.pas", ".pas", "", "a"), ("d/b.pas", ".pas", ".ll", "d/b.ll"), ("x.pas.pas", ".pas", ".o", "x.pas.o"), ("a.txt", ".pas", ".o", None),
        ("apas", ".pas", ".o", None), ("pas", ".pas", ".o", None), ("a", ".pas", ".o", None), ("", ".pas", ".o", None), (".pas", ".pas", ".o", ".o"), ("a.pas.x", ".pas", ".o", None),
        ("a.PAS", ".pas", ".o", None), ("a.pas/b", ".pas", ".o", None)]
def ext_cases(p, bad):
    k = 0
    for name, old, new, want in EXTS:
        W = World(p)
        def hook(I, n, f, o, vs, st):
            last = f["n"].split("::")[-1]
            if last == "exit":
                st.add("exit", tuple(vs), None)
                I.exits.append(("x", st))
                return []
            if last in ("substr", "compare", "erase", "replace") and o is not None:
                s = I.val(st, o)
                a = [I.val(st, x) for x in vs]
                if isinstance(s, str) and a and isinstance(a[0], int) and (a[0] & (1 << 64) - 1) > len(s):
                    st.add("throws", (f["n"],), None)
            return None
        W.I.hook = hook
        for kind, v, s in W.run(one(p, "replace_ext"), None, (name, old, new)):
            k += 1
            what = "replace_ext of '%s'" % name
            eff = [e for e in s.effects() if e[0] in ("exit", "throws")]
            if any(e[0] == "throws" for e in eff):
                bad("%s: a position outside of the string" % what, "")
            if kind == "x":
                if want is not None:
                    bad("%s: gives up" % what, "")
                elif not eff or eff[-1][0] == "exit" and eff[-1][1] and isinstance(eff[-1][1][0], int) and eff[-1][1][0] & 255 == 0:
                    bad("%s: gives up with success" % what, "")
            elif W.I.val(s, v) != want:
                bad("%s: gives %s" % (what, str(W.I.val(s, v))[:60]), "expected %s" % want)
    return k

def passes(p, bad):
    k = 0
    for name in ("O0", "O1", "O2", "O3"):
        W = World(p)
        val = enum(p, name)[0]
        W.preset(optimization=val)
        def hook(I, n, f, o, vs, st):
            nm, last = f["n"], f["n"].split("::")[-1]
            if last.startswith("operator OptLevel") or last == "operator " or nm.startswith("llvm::cl::opt_storage") and "operator" in last:
                return [(val, st)]
            if last in ("operator!=", "operator==") and "OptimizationLevel" in str(f.get("cls", "")) + nm + str(f.get("pt")):
                a = [str(I.val(st, x)) for x in ([o] if o is not None else []) + list(vs)]
                r = a[0] == a[1]
                return [(int(r if last == "operator==" else not r), st)]
            if last == "operator=" and nm.startswith("llvm::OptimizationLevel") and isinstance(o, T) and o.op == "addr":
                I.store(st, o.a[0], I.val(st, vs[0]))
                return [(o, st)]
            if last.startswith("buildPerModuleDefaultPipeline") or last.startswith("buildO0DefaultPipeline"):
                st.add("pipeline", (str(I.val(st, vs[0])),), None)
                return None
            return None
        W.I.hook = hook
        for kind, v, s in W.run(one(p, "RunOptimisationPasses"), None, (sym("module"),)):
            k += 1
            got = [e[1][0] for e in s.effects() if e[0] == "pipeline"]
            lev = [x for x in ("O0", "O1", "O2", "O3", "Os", "Oz") if got and "::" + x in got[0].replace("'", "")]
            if kind == "x":
                bad("-%s ends in an internal error" % name, "")
            elif name == "O0":
                if got and lev != ["O0"]:
                    bad("-O0 runs a pipeline of level %s" % lev, str(got))
            elif lev != [name]:
                bad("-%s runs a pipeline of level %s" % (name, lev), str(got))
            if name != "O0" and not any(e[0].endswith("::run") for e in s.effects()):
                bad("-%s builds the pipeline but does not run it" % name, "")
    return k

def target(p, bad):
    k = 0
    for name, meth in (("m32", "get32BitArchVariant"), ("m64", "get64BitArchVariant")):
        W = World(p)
        W.preset(model=enum(p, name)[0])
        def hook(I, n, f, o, vs, st):
            last = f["n"].split("::")[-1]
            if last == "operator=" and f["n"].startswith("llvm::Triple") and isinstance(o, T) and o.op == "addr":
                I.store(st, o.a[0], I.val(st, vs[0]))
                return [(o, st)]
            if last in ("get32BitArchVariant", "get64BitArchVariant"):
                return [(mk(last, 0), st)]
            return None
        W.I.hook = hook
        for kind, v, s in W.run(one(p, "CreateModule"), None, ()):
            k += 1
            eff = [e[0].split("::")[-1] for e in s.effects()]
            tr = [e[1] for e in s.effects() if e[0].endswith("setTargetTriple")]
            if kind == "x" or v is NULL:
                continue
            t = show(s, W, tr[-1]) if tr else "not set"
            if meth not in t:
                bad("-%s: the module's target is %s, not made with %s" % (name, t[:100], meth), str(eff)[:300])
            if not any(e == "setDataLayout" for e in eff):
                bad("-%s: the module has no data layout" % name, str(eff))
    return k

def show(s, W, x):
    out, seen = [], set()
    def go(y, d):
        if d > 6:
            return
        y = W.I.val(s, y) if isinstance(y, T) else y
        out.append(str(y))
        if isinstance(y, T):
            if y in s.h and y not in seen:
                seen.add(y)
                for z in s.h[y].values():
                    go(z, d + 1)
            for z in y.a:
                if isinstance(z, (T, tuple)):
                    go(z, d + 1)
        elif isinstance(y, tuple):
            for z in y:
                go(z, d + 1)
    go(x, 0)
    return " ".join(out)

def unit_files(p, bad):
    k = 0
    for word in ("foo", "Foo", "BAR"):
        for f in local_parsers(p):
            W = PWorld("uses %s ; begin end ." % word)
            W.builtins()
            W.begin()
            base = W.I.hook
            def hook(I, n, fn, o, vs, s):
                nm, last = fn["n"], fn["n"].split("::")[-1]
                if isopen(fn):
                    s.add("open", opened(I, s, o), None)
                    return [(int(last != "operator!" and last != "fail" and last != "bad"), s)]
                if nm == "GetPath":
                    s.add("path", tuple(I.val(s, x) for x in vs), None)
                    return [("some/dir", s)]
                if nm == "Parser::Parse":
                    return [(NULL, s)]
                if nm == "Parser::GetErrors":
                    return [(0, s)]
                return base(I, n, fn, o, vs, s)
            W.I.hook = hook
            for kind, v, s in W.run(f, W.P):
                k += 1
                op = [e[1] for e in s.effects() if e[0] == "open"]
                want = "some/dir/%s.pas" % word.lower()
                if not op or any(not a or a[0] != want for a in op):
                    bad("the unit %s is read from %s" % (word, [str(a[0])[:60] for a in op if a]), "expected %s" % want)
    return k

EFFECTS = {"basic_ifstream": ("FileSource::FileSource",), "ToolOutputFile": ("GetOutputStream", "CreateObject", "CreateBinary"), "system": ("CreateBinary",), "keep": ("CreateObject", "CreateBinary")}
FORBID = ("basic_ofstream", "basic_fstream", "raw_fd_ostream", "raw_fd_stream", "fopen", "freopen", "creat", "open", "openat", "remove", "remove_all", "unlink", "unlinkat", "rename", "rmdir", "mkdir", "popen", "execv",
          "execve", "execvp", "execl", "execlp", "fork", "posix_spawn", "ExecuteAndWait", "ExecuteNoWait", "create_directory", "create_directories", "copy_file", "resize_file", "create_link", "createTemporaryFile",
          "createUniqueFile", "chdir", "chmod", "truncate", "tmpfile", "mkstemp", "setenv", "putenv", "openFileForWrite", "openNativeFile", "openFileForRead", "getFile", "getFileOrSTDIN", "getOpenFile")
def effects(p, G, bad):
    par = G.reach([one(p, "main")["id"]])
    # helpers that only the followed functions use are part of them
    k = 0
    callers = {}
    for i, o in G.out.items():
        for j in o:
            callers.setdefault(j, set()).add(i)
    def within(i, allowed, seen=()):
        if p.fns[i]["n"] in allowed:
            return True
        cs = [c for c in callers.get(i, ()) if c in par]
        return bool(cs) and i not in seen and all(within(c, allowed, seen + (i,)) for c in cs)
    for i in sorted(par):
        f = p.fns[i]
        for x in sorted(G.ext.get(i, ())):
            b = x.split("<")[0] if x.startswith("std::") else x
            last = x.split("::")[-1]
            if "DIBuilder" in x or "DIScope" in x or "DIFile" in x:
                continue
            if last in FORBID and not x.startswith("llvm::cl::"):
                if last == "open" and "basic_ifstream" in x and within(i, EFFECTS["basic_ifstream"]):
                    continue
                k += 1
                bad("%s calls %s" % (f["n"], x), "reached: %s" % G.path(par, i))
            elif last in EFFECTS:
                k += 1
                if not within(i, EFFECTS[last]):
                    bad("%s calls %s" % (f["n"], x), "allowed in %s only; reached: %s" % (", ".join(EFFECTS[last]), G.path(par, i)))
    return k

def main(argv):
    t0 = time.time()
    p = program("cxx")
    G = Graph(p)
    bad, errs, n = Bad(), {}, {}
    def do(name, fn, *a):
        try:
            n[name] = fn(*a)
        except (AnalysisError, KeyError, IndexError, TypeError, RecursionError) as e:
            errs[name] = "%s: %s" % (type(e).__name__, str(e)[:300])
    do("option attributes", options, p, bad)
    do("paths of Compile", emit_cases, p, bad)
    do("paths of CreateBinary", binary, p, bad)
    do("paths of replace_ext", ext_cases, p, bad)
    do("paths of RunOptimisationPasses", passes, p, bad)
    do("paths of CreateModule", target, p, bad)
    do("paths of unit import", unit_files, p, bad)
    do("effect call sites", effects, p, G, bad)
    seen, ub = set(), []
    for x in bad:
        if x["what"] not in seen:
            seen.add(x["what"])
            ub.append(x)
    tot = sum(n.values())
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": tot, "distinct_nontrivial": tot, "obligations": tot, "per_rule": n, "not_decided": len(errs), "source": REPO}
    r = runner.finish("C16", t0, cov, ub, errs)
    return r if r == 1 or not errs else 2
