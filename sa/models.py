"""Models of the standard library and LLVM calls the repository makes."""
from .terms import *

def cat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    l = list(a.a) if isinstance(a, T) and a.op == "cat" else [a]
    r = list(b.a) if isinstance(b, T) and b.op == "cat" else [b]
    out = []
    for x in l + r:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return mk("cat", *out) if len(out) > 1 else (out[0] if out else "")

def size(c):
    if isinstance(c, str):
        return len(c)
    if isinstance(c, T) and c.op in ("vec", "map"):
        return len(c.a)
    if isinstance(c, T) and c.op == "append":
        return add(size(c.a[0]), 1)
    return mk("size", c)

def targs(t):
    """Template arguments of a type."""
    out, d, cur = [], 0, ""
    for ch in t[t.find("<") + 1:t.rfind(">")] if "<" in t else "":
        d += (ch in "<(") - (ch in ">)")
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out

def userop(I, name, cls):
    """The program's own comparison for objects of class cls."""
    key = (name, cls)
    c = I.p.__dict__.setdefault("_userops", {})
    if key not in c:
        c[key] = None
        for g in I.p.fns.values():
            if g["n"].split("::")[-1] == name and g.get("body"):
                ps = [strip(x["t"]).replace("const ", "").rstrip("& ") for x in g["p"]]
                if (g.get("cls") and len(ps) == 1 and I.p.isa(cls, g["cls"])) or (not g.get("cls") and len(ps) == 2 and I.p.isa(cls, ps[0])):
                    c[key] = g
                    break
    return c[key]

def compare(I, g, a, b, st):
    """[(value, state)] of a g b."""
    return I.invoke(g, a, (b,), st) if g.get("cls") else I.invoke(g, None, (a, b), st)

def isobj(x):
    return isinstance(x, T) and x.op == "obj"

def decided(I, k, ks):
    d = lambda x: isobj(x) or x is NULL
    return isconst(k) and all(isconst(x) for x in ks) or d(k) and all(d(x) for x in ks)

ONE = lambda v, st: [(v, st)]
BUILDER_PURE = None

def model(I, s, n, f, o, vs, st):
    val = lambda v: I.val(st, v)
    line = n["l"]
    fn = I.stack[-1][0] if I.stack else None
    # ---- casts
    if s in ("llvm::isa", "llvm::dyn_cast", "llvm::cast", "llvm::dyn_cast_or_null", "llvm::isa_and_nonnull",
             "llvm::isa_and_present", "llvm::dyn_cast_if_present", "llvm::cast_or_null", "llvm::cast_if_present"):
        return cast(I, s, n, f, val(vs[0]), st)
    if s.startswith("llvm::"):
        from . import llvmm
        r = llvmm.llvm(I, s, n, f, o, vs, st)
        if r is not None:
            return r
    if s in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::make_reverse_iterator"):
        return ONE(vs[0], st)
    if s.startswith("__gnu_cxx::operator"):
        s = "std::" + s[11:]
    if s.startswith("std::"):
        r = std(I, s[5:], n, f, o, vs, st, val, line, fn)
        if r is not None:
            return r
    if s == "__builtin_unreachable" or s == "llvm::llvm_unreachable_internal":
        I.exits.append(("x", st))
        return []
    if s in ("std::isinf", "isinf", "__builtin_isinf") and isinstance(val(vs[0]), (int, float)):
        return ONE(int(val(vs[0]) in (float("inf"), float("-inf"))), st)
    if s in ("tolower", "toupper", "isdigit", "isalpha", "isalnum", "isspace", "isxdigit") and isinstance(val(vs[0]), int):
        c = val(vs[0])
        ch = chr(c) if 0 <= c < 128 else "\0"
        r = {"tolower": ord(ch.lower()), "toupper": ord(ch.upper()), "isdigit": int(ch.isdigit()), "isalpha": int(ch.isalpha()),
             "isalnum": int(ch.isalnum()), "isspace": int(ch in " \t\n\r\v\f"), "isxdigit": int(ch in "0123456789abcdefABCDEF")}[s]
        if not 0 <= c < 128:
            r = c if s.startswith("to") else 0
        return ONE(r, st)
    return None

def objv(I, o, st):
    if isinstance(o, T) and o.op == "addr":
        return I.known(st, I.load(st, o.a[0]))
    return o

def cast(I, s, n, f, x, st):
    if "isa" in s and len(f["ta"]) > 2:
        outs = []
        states = [st]
        for t in f["ta"][:-1]:
            nxt = []
            for s1 in states:
                for c, s2 in cast1(I, s, n, f, x, s1, t):
                    for b, s3 in I.branch(s2, c):
                        if b:
                            outs.append((1, s3))
                        else:
                            nxt.append(s3)
            states = nxt
        return outs + [(0, s1) for s1 in states]
    return cast1(I, s, n, f, x, st, f["ta"][0])

def cast1(I, s, n, f, x, st, tgt):
    tgt = strip(tgt.rstrip("* "))
    x = I.known(st, x)
    isa = "isa" in s
    nullok = "or_null" in s or "present" in s or "nonnull" in s
    if x is NULL:
        if not nullok:
            st.add("nullderef", (s,), None, I.stack[-1][0], n["l"])
        return [(0 if isa else NULL, st)]
    out = []
    states = [st]
    if nullok and isinstance(x, T) and x.op != "obj":
        states = []
        for b, s2 in I.branch(st, I.known(st, lnot(eq(x, NULL)))):
            if b:
                states.append(s2)
            else:
                out.append((0 if isa else NULL, s2))
    for s1 in states:
        conds = None
        if I.p.byname.get(tgt + "::classof") and (I.presets.get("classof") != "opaque" or I.cls(s1, x)):
            conds = I.invoke(classof(I, tgt), None, (x,), s1)
        elif tgt in I.p.classes and tgt not in ("",) and I.cls(s1, x):
            conds = [(int(I.p.isa(I.cls(s1, x), tgt)), s1)]
        else:
            k = llvmisa(tgt, x)
            conds = [(I.known(s1, mk("isa", tgt, x)) if k is None else k, s1)]
        for c, s2 in conds:
            if isa:
                out.append((I.tobool(s2, c), s2))
            elif s.startswith("llvm::cast"):
                out.append((x, s2))
            else:
                for b, s3 in I.branch(s2, c):
                    out.append((x if b else NULL, s3))
    return out

def llvmisa(tgt, x):
    """isa<> on terms whose LLVM class is known."""
    if not isinstance(x, T):
        return None
    if tgt in ("llvm::IntegerType", "llvm::ArrayType", "llvm::StructType", "llvm::PointerType", "llvm::FunctionType"):
        k = {"larr": "Array", "lstruct": "Struct", "lopaque": "Struct", "lfnty": "Function", "lintn": "Integer"}.get(x.op)
        if x.op == "lty":
            k = "Integer" if x.a[0][0] == "i" else "Pointer" if x.a[0] == "ptr" else "Other"
        return None if k is None else int(tgt == "llvm::%sType" % k)
    if tgt in ("llvm::Constant", "llvm::ConstantInt", "llvm::ConstantFP", "llvm::AllocaInst", "llvm::Instruction", "llvm::LoadInst", "llvm::CallInst",
               "llvm::GetElementPtrInst", "llvm::PHINode", "llvm::Function", "llvm::GlobalVariable"):
        k = {"ci": "ConstantInt", "cf": "ConstantFP", "null0": "Constant", "undef0": "Constant", "carr": "Constant", "cstruct": "Constant",
             "cdata": "Constant", "CreateAlloca": "AllocaInst", "CreateLoad": "LoadInst", "CreateCall": "CallInst", "CreateGEP": "GetElementPtrInst",
             "CreatePHI": "PHINode", "lfunc": "Function", "rtfn": "Function", "gvar": "GlobalVariable"}.get(x.op)
        if k is None:
            return None
        t = tgt[6:]
        if t == "Constant":
            return int(k.startswith("Constant") or k in ("Function", "GlobalVariable"))
        if t == "Instruction":
            return int(k.endswith("Inst") or k == "PHINode")
        if k == "Constant" and t == "ConstantInt":
            return None
        return int(t == k)
    return None

def classof(I, tgt):
    ids = I.p.byname[tgt + "::classof"]
    return I.p.fns[ids[0]]

def std(I, s, n, f, o, vs, st, val, line, fn):
    cls, _, m = s.rpartition("::")
    loc = o.a[0] if isinstance(o, T) and o.op == "addr" else None
    def get():
        return I.known(st, I.load(st, loc)) if loc is not None else o
    def put(v):
        if loc is not None:
            I.store(st, loc, v)
    rt = n.get("t", "")
    if cls in ("vector", "deque", "__cxx11::list", "list", "array", "initializer_list"):
        c = get()
        if m in ("size",):
            return ONE(I.known(st, size(c)), st)
        if m == "empty":
            return ONE(I.known(st, eq(size(c), 0)), st)
        if m in ("operator[]", "at"):
            i = val(vs[0])
            if loc is None:
                return ONE(I.elem(st, c, i), st)
            return ONE(mk("addr", ("e", loc, i), "ref"), st)
        if m in ("back", "front"):
            i = ("back",) if m == "back" else 0
            if m == "back" and isinstance(c, T) and c.op == "vec":
                i = len(c.a) - 1
            if loc is None:
                return ONE(I.elem(st, c, i), st)
            return ONE(mk("addr", ("e", loc, i), "ref"), st)
        if m in ("push_back", "emplace_back", "push_front"):
            args = [val(v) for v in vs]
            x = args[0] if len(args) == 1 else mk("make", *args)
            et = f["cls"][f["cls"].find("<") + 1:]
            if m == "emplace_back" and len(args) != 1 or (m == "emplace_back" and I.isrec(et.split(",")[0])):
                et = et.split(",")[0]
                if I.isrec(et):
                    fs = [g for g in I.p.fns.values() if g.get("ctor") and g.get("cls") == et and len(g["p"]) == len(args) and not g.get("implicit")]
                    if len(fs) == 1:
                        ob = I.newobj(st, et)
                        outs = []
                        for _, s2 in I.invoke(fs[0], ob, tuple(args), st):
                            c2 = I.load(s2, loc) if loc is not None else c
                            I.store(s2, loc, push(c2, ob))
                            outs.append((VOID, s2))
                        return outs
            elif I.isrec(et.split(",")[0]):
                x = I.copyrec(st, x)
            put(push(c, x, m == "push_front"))
            return ONE(VOID, st)
        if m in ("pop_back", "pop_front"):
            if isinstance(c, T) and c.op == "vec" and c.a:
                put(mk("vec", *(c.a[:-1] if m == "pop_back" else c.a[1:])))
            elif isinstance(c, T) and c.op == "append" and m == "pop_back":
                put(c.a[0])
            else:
                put(mk("pop", c))
            return ONE(VOID, st)
        if m == "clear":
            put(mk("vec"))
            return ONE(VOID, st)
        if m in ("begin", "cbegin"):
            return ONE(mk("it", loc or ("v", c), 0), st)
        if m in ("end", "cend"):
            return ONE(mk("it", loc or ("v", c), size(c)), st)
        if m in ("rbegin", "crbegin"):
            return ONE(mk("rit", loc or ("v", c), 0), st)
        if m in ("rend", "crend"):
            return ONE(mk("rit", loc or ("v", c), size(c)), st)
        if m == "data":
            return ONE(mk("addr", ("e", loc, 0)) if loc else c, st)
        if m in ("reserve", "shrink_to_fit"):
            return ONE(VOID, st)
        if m == "insert":
            a = [val(v) for v in vs]
            p = a[0]
            src = None
            if len(a) == 2:
                if isinstance(a[1], T) and a[1].op == "vec" and "initializer_list" in f["pt"][1]:
                    src = a[1].a
                else:
                    src = (a[1],)
            elif len(a) == 3:
                r = I.itrange(st, a[1], a[2])
                if isinstance(r, T) and r.op == "vec":
                    src = r.a
            if src is not None and isinstance(c, T) and c.op == "vec" and isinstance(p, T) and p.op == "it" and isinstance(p.a[1], int):
                i = p.a[1]
                ta = targs(f["cls"])
                if ta and I.isrec(ta[0]):
                    src = [I.copyrec(st, x) for x in src]
                put(mk("vec", *(c.a[:i] + tuple(src) + c.a[i:])))
            else:
                put(mk("insert", c, *a))
            return ONE(p, st)
        if m == "resize":
            k = val(vs[0])
            if isinstance(c, T) and c.op == "vec" and isinstance(k, int):
                put(mk("vec", *(c.a[:k] + (0,) * (k - len(c.a)))))
            else:
                put(mk("resize", c, k))
            return ONE(VOID, st)
        if m == "erase":
            p = val(vs[0])
            if isinstance(c, T) and c.op == "vec" and isinstance(p, T) and p.op == "it" and isinstance(p.a[1], int) and len(vs) == 1:
                put(mk("vec", *(c.a[:p.a[1]] + c.a[p.a[1] + 1:])))
            elif isinstance(c, T) and c.op == "vec" and len(vs) == 2 and all(isinstance(x, T) and x.op == "it" and isinstance(x.a[1], int) for x in (p, val(vs[1]))):
                put(mk("vec", *(c.a[:p.a[1]] + c.a[val(vs[1]).a[1]:])))
            else:
                put(mk("erase", c, *[val(v) for v in vs]))
            return ONE(p, st)
        if m == "swap":
            l2 = vs[0].a[0] if isinstance(vs[0], T) and vs[0].op == "addr" else None
            if l2:
                x = I.load(st, l2)
                I.store(st, l2, c)
                put(x)
                return ONE(VOID, st)
        if m == "operator=":
            put(val(vs[0]))
            return ONE(o, st)
        return None
    if cls.endswith("iterator") or cls in ("iterator",) or "iterator" in cls:
        v = get()
        if isinstance(v, T) and v.op in ("it", "rit"):
            l = v.a[0]
            def el(it):
                i = it.a[1]
                if it.op == "rit":
                    c = I.load(st, l)
                    i = sub(sub(size(c), 1), i)
                return ("e", l, i)
            if m == "operator*":
                e = el(v)
                if l[0] == "v" or False:
                    return ONE(I.load(st, e), st)
                return ONE(mk("addr", e, "ref"), st)
            if m == "operator->":
                e = el(v)
                x = I.load(st, e)
                return ONE(x if isinstance(x, T) and x.op == "obj" else mk("addr", e), st)
            if m in ("operator++", "operator--"):
                nv = mk(v.op, l, add(v.a[1], 1 if m == "operator++" else -1))
                put(nv)
                return ONE(v if vs else (o if loc else nv), st)
            if m in ("operator+", "operator-") and vs:
                w = val(vs[0])
                if isinstance(w, T) and w.op == v.op:
                    return ONE(sub(v.a[1], w.a[1]), st)
                return ONE(mk(v.op, l, add(v.a[1], w) if m == "operator+" else sub(v.a[1], w)), st)
            if m in ("operator+=", "operator-="):
                w = val(vs[0])
                put(mk(v.op, l, add(v.a[1], w) if m == "operator+=" else sub(v.a[1], w)))
                return ONE(o, st)
            if m == "operator=":
                put(val(vs[0]))
                return ONE(o, st)
        if m in ("operator*", "operator->") and isinstance(v, T) and v.op == "mapit":
            return ONE(mk("pair", v.a[1], v.a[2]) if m == "operator*" else mk("addr", ("v", mk("pair", v.a[1], v.a[2]))), st)
        if isinstance(v, T) and m == "operator=":
            put(val(vs[0]))
            return ONE(o, st)
        if isinstance(v, T) and m in ("operator*", "operator->"):
            return ONE(mk("deref", v), st)
        return None
    if cls in ("map", "set", "unordered_map", "unordered_set"):
        c = get()
        if m == "size":
            return ONE(size(c), st)
        if m == "empty":
            return ONE(I.known(st, eq(size(c), 0)), st)
        if m in ("end", "cend"):
            return ONE(mk("mapend"), st)
        if m in ("find", "count", "contains"):
            k = val(vs[0])
            if isinstance(c, T) and c.op == "map" and decided(I, k, [x for x, y in c.a]):
                hit = [y for x, y in c.a if x == k]
                if m == "find":
                    return ONE(mk("mapit", loc, k, hit[0]) if hit else mk("mapend"), st)
                return ONE(int(bool(hit)), st)
            if isinstance(c, T) and c.op == "map" and all(isconst(x) for x, y in c.a):
                # case split over the keys
                outs = []
                rest = st
                for x, y in c.a:
                    if rest is None:
                        break
                    br = I.branch(rest, eq(k, x))
                    rest = None
                    for b, s2 in br:
                        if b:
                            outs.append((mk("mapit", loc, x, y) if m == "find" else 1, s2))
                        else:
                            rest = s2
                if rest is not None:
                    outs.append((mk("mapend") if m == "find" else 0, rest))
                return outs
            return ONE(mk("map" + m, c, k), st)
        if m in ("operator[]", "at"):
            k = val(vs[0])
            if m == "operator[]" and loc and isinstance(c, T) and c.op == "map" and decided(I, k, [x for x, y in c.a]) and not any(x == k for x, y in c.a):
                ta = targs(f["cls"])
                if len(ta) > 1:
                    v = I.zeroval(st, ta[1])
                    I.store(st, loc, mk("map", *(c.a + ((k, v),))))
            return ONE(mk("addr", ("e", loc, k), "ref"), st) if loc else ONE(I.elem(st, c, k), st)
        if m in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            a = [val(v) for v in vs]
            if len(a) == 1 and isinstance(a[0], T) and a[0].op == "pair":
                k, v = a[0].a
            elif len(a) == 2:
                k, v = a
            elif len(a) == 1:
                k = v = a[0]
            else:
                return None
            if isinstance(c, T) and c.op == "map" and cls == "set" and isobj(k) and all(isobj(x) for x, y in c.a):
                ke = targs(f["cls"])[0] if targs(f["cls"]) else ""
                g = userop(I, "operator<", strip(ke)) if I.isrec(ke) else None
                if g:
                    k = I.copyrec(st, k)
                    cur, outs = [(0, st)], []
                    for i in range(len(c.a) + 1):
                        nxt = []
                        for _, s1 in cur:
                            if i == len(c.a):
                                I.store(s1, loc, mk("map", *(c.a + ((k, k),))))
                                outs.append((mk("pair", mk("mapit", loc, k, k), 1), s1))
                                continue
                            x = c.a[i][0]
                            for r, s2 in compare(I, g, k, x, s1):
                                for bb, s3 in I.branch(s2, r):
                                    if bb:
                                        I.store(s3, loc, mk("map", *(c.a[:i] + ((k, k),) + c.a[i:])))
                                        outs.append((mk("pair", mk("mapit", loc, k, k), 1), s3))
                                        continue
                                    for r2, s4 in compare(I, g, x, k, s3):
                                        for b2, s5 in I.branch(s4, r2):
                                            if b2:
                                                nxt.append((0, s5))
                                            else:
                                                outs.append((mk("pair", mk("mapit", loc, x, x), 0), s5))
                        cur = nxt
                    return outs
            if isinstance(c, T) and c.op == "map":
                had = any(x == k for x, y in c.a)
                if not had:
                    put(mk("map", *(c.a + ((k, v),))))
                return ONE(mk("pair", mk("mapit", loc, k, v), int(not had)), st)
            st.add("map.insert", (c, k, v), None, fn, line)
            put(mk("insert", c, k, v))
            return ONE(mk("insres", c, k, v), st)
        if m == "erase" and len(vs) == 1 and isinstance(c, T) and c.op == "map":
            k = val(vs[0])
            byit = isinstance(k, T) and k.op == "mapit"
            k = k.a[1] if byit else k
            if decided(I, k, [x for x, y in c.a]):
                had = any(x == k for x, y in c.a)
                put(mk("map", *[kv for kv in c.a if kv[0] != k]))
                return ONE(mk("mapend") if byit else int(had), st)
        if m == "operator=":
            put(val(vs[0]))
            return ONE(o, st)
        if m == "clear":
            put(mk("map"))
            return ONE(VOID, st)
        return None
    if cls in ("string", "__cxx11::basic_string", "basic_string", "basic_string_view"):
        c = get()
        if m in ("size", "length"):
            return ONE(I.known(st, size(c)), st)
        if m == "empty":
            return ONE(I.known(st, eq(c, "")), st)
        if m in ("c_str", "data"):
            return ONE(c, st)
        if m == "operator=":
            v = val(vs[0])
            if isinstance(v, int):
                v = chr(v & 255)
            put(v)
            return ONE(o, st)
        if m in ("operator+=", "append", "push_back"):
            v = val(vs[0])
            if isinstance(v, int):
                v = chr(v & 255)
            elif f["pt"][0] == "char":
                v = mk("chr", v)
            put(cat(c, v))
            return ONE(o, st)
        if m in ("operator[]", "at"):
            return ONE(mk("addr", ("e", loc, val(vs[0])), "ref"), st) if loc else ONE(I.elem(st, c, val(vs[0])), st)
        if m == "substr":
            a = [val(v) for v in vs]
            if isinstance(c, str) and all(isinstance(x, int) for x in a):
                i = a[0]
                k = a[1] if len(a) > 1 and a[1] >= 0 else len(c)
                return ONE(c[i:i + k], st)
            return ONE(mk("substr", c, *a), st)
        if m in ("find", "rfind", "find_first_of", "find_last_of") and isinstance(c, str):
            v = [val(x) for x in vs]
            n = chr(v[0] & 255) if isinstance(v[0], int) else v[0]
            if isinstance(n, str) and all(isinstance(x, int) for x in v[1:]) and len(v) <= 2:
                npos = (1 << 64) - 1
                pos = v[1] if len(v) > 1 else (0 if m in ("find", "find_first_of") else npos)
                if m == "find":
                    r = c.find(n, pos)
                elif m == "rfind":
                    r = c[:min(pos, len(c)) + len(n)].rfind(n)
                else:
                    js = [j for j, x in enumerate(c) if x in n and (j >= pos if m == "find_first_of" else j <= pos)]
                    r = -1 if not js else js[0] if m == "find_first_of" else js[-1]
                return ONE(r if r >= 0 else npos, st)
        if m in ("insert", "erase", "replace", "pop_back", "compare", "starts_with", "ends_with", "front", "reserve", "shrink_to_fit") and isinstance(c, str):
            a = [val(v) for v in vs]
            n = len(c)
            if m in ("reserve", "shrink_to_fit"):
                return ONE(VOID, st)
            if m == "pop_back" and c:
                put(c[:-1])
                return ONE(VOID, st)
            if m == "front" and c:
                return ONE(ord(c[0]), st)
            if m in ("starts_with", "ends_with") and isinstance(a[0], str):
                return ONE(int(c.startswith(a[0]) if m == "starts_with" else c.endswith(a[0])), st)
            if m == "compare" and all(isinstance(x, str) if i == len(a) - 1 else isinstance(x, int) for i, x in enumerate(a)) and len(a) in (1, 3) and (len(a) == 1 or 0 <= a[0] <= n):
                x = c if len(a) == 1 else c[a[0]:a[0] + (a[1] if 0 <= a[1] <= n else n)]
                return ONE((x > a[-1]) - (x < a[-1]), st)
            if m == "insert" and len(a) == 2 and isinstance(a[0], int) and isinstance(a[1], str) and 0 <= a[0] <= n:
                put(c[:a[0]] + a[1] + c[a[0]:])
                return ONE(o, st)
            if m == "erase" and a and all(isinstance(x, int) for x in a) and 0 <= a[0] <= n and "iterator" not in f["pt"][0]:
                put(c[:a[0]] + (c[a[0] + a[1]:] if len(a) > 1 and 0 <= a[1] <= n else ""))
                return ONE(o, st)
            if m == "replace" and len(a) == 3 and isinstance(a[0], int) and isinstance(a[1], int) and isinstance(a[2], str) and 0 <= a[0] <= n:
                put(c[:a[0]] + a[2] + (c[a[0] + a[1]:] if 0 <= a[1] <= n else ""))
                return ONE(o, st)
        if m == "back":
            if isinstance(c, str) and c:
                return ONE(ord(c[-1]), st)
            return ONE(mk("elem", c, ("back",)), st)
        if m == "clear":
            put("")
            return ONE(VOID, st)
        if m == "begin":
            return ONE(mk("it", loc or ("v", c), 0), st)
        if m == "end":
            return ONE(mk("it", loc or ("v", c), size(c)), st)
        return None
    if cls in ("unique_ptr", "shared_ptr", "optional"):
        c = get()
        if m in ("get", "operator->", "operator*", "value", "release"):
            if m == "release":
                put(NULL)
            return ONE(c, st)
        if m in ("operator bool", "has_value"):
            return ONE(I.known(st, lnot(eq(c, NULL))), st)
        if m in ("operator=", "reset"):
            put(val(vs[0]) if vs else NULL)
            return ONE(o, st)
        return None
    if cls == "function" and m == "operator=":
        put(val(vs[0]))
        return ONE(o, st)
    if cls == "function" and m in ("operator()", "operator bool"):
        c = get()
        if m == "operator bool":
            return ONE(I.known(st, lnot(eq(c, NULL))), st)
        if isinstance(c, T) and c.op == "lam":
            return I.calllam(c, vs, st)
        if isinstance(c, T) and c.op == "fn" and c.a[0] in I.p.fns:
            return I.invoke(I.p.fns[c.a[0]], None, vs, st)
        r = mk("callfn", c, *[val(v) for v in vs])
        st.add("callfn", (c,) + tuple(val(v) for v in vs), r, fn, line)
        return ONE(r, st)
    if cls == "" or True:
        if s in ("operator==", "operator!=") or s.endswith("::operator==") or s.endswith("::operator!="):
            a = [val(v) for v in ((o,) if o is not None else ()) + tuple(vs)]
            if len(a) == 2:
                x, y = a
                if isinstance(x, T) and x.op in ("mapit", "mapend") and isinstance(y, T) and y.op in ("mapit", "mapend"):
                    r = int(x.op == y.op)
                elif isinstance(x, T) and x.op == "it" and isinstance(y, T) and y.op == "it":
                    r = eq(x.a[1], y.a[1])
                elif isinstance(x, T) and x.op == "rit" and isinstance(y, T) and y.op == "rit":
                    r = eq(x.a[1], y.a[1])
                else:
                    r = eq(x, y)
                r = I.known(st, r)
                return ONE(lnot(r) if s.endswith("!=") else r, st)
        if s == "operator+":
            a = [val(v) for v in vs]
            for i in range(2):
                if isinstance(a[i], int):
                    a[i] = chr(a[i] & 255)
            return ONE(cat(a[0], a[1]), st)
        if s in ("operator<", "operator>", "operator<=", "operator>="):
            a = [val(v) for v in vs]
            if all(isinstance(x, str) for x in a):
                return ONE(int({"operator<": a[0] < a[1], "operator>": a[0] > a[1], "operator<=": a[0] <= a[1], "operator>=": a[0] >= a[1]}[s]), st)
            if len(a) == 2 and all(isinstance(x, T) and x.op in ("it", "rit") for x in a) and a[0].op == a[1].op and all(isinstance(x.a[1], int) for x in a):
                x, y = a[0].a[1], a[1].a[1]
                return ONE(int({"operator<": x < y, "operator>": x > y, "operator<=": x <= y, "operator>=": x >= y}[s]), st)
            return ONE(mk("str" + s, *a), st)
        if s == "make_pair":
            return ONE(mk("pair", *[val(v) for v in vs]), st)
        if s == "make_tuple" or s == "tie":
            return ONE(mk("tuple", *[val(v) for v in vs]), st)
        if s == "make_unique" or s == "make_shared":
            t = f["ta"][0]
            if I.isrec(t):
                args = tuple(vs)
                cs = [g for g in I.p.fns.values() if g.get("ctor") and g.get("cls") == t and len(g["p"]) == len(args) and not g.get("implicit")]
                cs = [g for g in cs if not (len(g["p"]) == 1 and strip(g["p"][0]["t"]) == t)]
                if len(cs) == 1:
                    ob = I.newobj(st, t)
                    return [(ob, s2) for _, s2 in I.invoke(cs[0], ob, args, st)]
            return ONE(mk("make:" + t, *[val(v) for v in vs]), st)
        if s == "get" and f.get("ta") and isinstance(f["ta"][0], int):
            i = f["ta"][0]
            v = vs[0]
            if isinstance(v, T) and v.op == "addr":
                return ONE(mk("addr", ("e", v.a[0], i), "ref"), st)
            return ONE(I.elem(st, v, i), st)
        if s == "to_string":
            v = val(vs[0])
            return ONE(str(v) if isinstance(v, int) else mk("to_string", v), st)
        if s in ("max", "min"):
            a = [val(v) for v in vs]
            if len(a) == 2 and all(isinstance(x, (int, float)) for x in a):
                return ONE(max(a) if s == "max" else min(a), st)
            if len(a) == 2:
                x, y = a
                if repr(y) < repr(x):
                    x, y = y, x
                return ONE(mk(s, x, y), st)
        if s == "clamp":
            a = [val(v) for v in vs]
            if all(isinstance(x, int) for x in a):
                return ONE(max(a[1], min(a[0], a[2])), st)
            return ONE(mk("min", a[2], mk("max", a[1], a[0])) if not isinstance(a[0], int) else mk("clamp", *a), st)
        if s == "swap":
            if all(isinstance(v, T) and v.op == "addr" for v in vs):
                a, b = I.load(st, vs[0].a[0]), I.load(st, vs[1].a[0])
                I.store(st, vs[0].a[0], b)
                I.store(st, vs[1].a[0], a)
                return ONE(VOID, st)
        if s == "reverse":
            a, b = val(vs[0]), val(vs[1])
            if isinstance(a, T) and a.op == "it" and a.a[0] == b.a[0]:
                c = I.load(st, a.a[0])
                if isinstance(c, T) and c.op == "vec":
                    I.store(st, a.a[0], mk("vec", *reversed(c.a)))
                    return ONE(VOID, st)
                I.store(st, a.a[0], mk("reverse", c))
                return ONE(VOID, st)
        if s in ("operator<<", "basic_ostream::operator<<", "basic_ostream::put", "basic_ostream::flush", "endl", "setw", "setprecision",
                 "setfill", "hex", "dec", "basic_ostream::write", "ios_base::flags", "ios_base::setf"):
            tgt = (o,) if o is not None else ()
            a = [val(v) for v in tgt + tuple(vs)]
            st.add("out", tuple(a[-1:]), None, fn, line) if I.presets.get("outeff") else None
            return ONE(vs[0] if o is None and vs else (o if o is not None else mk("ostream")), st)
        if s in ("all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if", "for_each", "transform", "find", "accumulate"):
            return algo(I, s, n, f, [val(v) if i < 2 else v for i, v in enumerate(vs)], st)
        if s in ("begin", "end", "size", "cbegin", "cend"):
            v = vs[0]
            l = v.a[0] if isinstance(v, T) and v.op == "addr" else ("v", v)
            c = I.load(st, l)
            if s == "size":
                return ONE(size(c), st)
            return ONE(mk("it", l, 0 if "begin" in s else size(c)), st)
        if s in ("next", "prev"):
            v = val(vs[0])
            k = val(vs[1]) if len(vs) > 1 else 1
            if isinstance(v, T) and v.op == "it":
                return ONE(mk("it", v.a[0], add(v.a[1], k if s == "next" else scale(k, -1))), st)
        if s == "distance":
            a, b = val(vs[0]), val(vs[1])
            if isinstance(a, T) and a.op == "it" and isinstance(b, T) and b.op == "it":
                return ONE(sub(b.a[1], a.a[1]), st)
    return None

def push(c, x, front=False):
    if isinstance(c, T) and c.op == "vec":
        return mk("vec", *((x,) + c.a if front else c.a + (x,)))
    return mk("append" if not front else "prepend", c, x)

def algo(I, s, n, f, vs, st):
    a, b = vs[0], vs[1]
    if not (isinstance(a, T) and a.op == "it" and isinstance(b, T) and b.op == "it" and a.a[0] == b.a[0]):
        return None
    l = a.a[0]
    c = I.load(st, l)
    if s == "transform" and len(vs) == 4 and I.val(st, vs[2]) is a:
        g = I.val(st, vs[3])
        if isinstance(g, T) and g.op == "fn" and g.a[0] in ("tolower", "toupper", "std::tolower", "std::toupper"):
            low = "lower" in g.a[0]
            I.store(st, l, (c.lower() if low else c.upper()) if isinstance(c, str) else mk("lower" if low else "upper", c))
            return ONE(b, st)
    if not (isinstance(c, T) and c.op == "vec" and isinstance(a.a[1], int) and isinstance(b.a[1], int)):
        # one abstract element
        el = mk("each", c, st.count("loop"))
        if s in ("all_of", "any_of", "none_of") and len(vs) > 2:
            lam = I.val(st, vs[2])
            if isinstance(lam, T) and lam.op == "lam":
                outs = []
                rs = I.calllam(lam, (el,), st.copy())
                outs.append((int(s != "any_of"), st))
                for v, s2 in rs:
                    for bb, s3 in I.branch(s2, v):
                        if bb == (s != "all_of"):
                            outs.append((int(s == "any_of"), s3))
                return outs
        return None
    if s in ("find", "accumulate", "transform", "for_each", "find_if", "find_if_not", "count_if", "all_of", "any_of", "none_of"):
        fnv = I.val(st, vs[-1])
        if s in ("find",):
            outs, rest = [], st
            for i in range(a.a[1], b.a[1]):
                x = c.a[i]
                g = userop(I, "operator==", I.cls(rest, x)) if isobj(x) and isobj(fnv) and not f["pt"][2].rstrip("& ").endswith("*") else None
                if g:
                    br = [(bb, s3) for r, s2 in compare(I, g, x, fnv, rest) for bb, s3 in I.branch(s2, r)]
                else:
                    br = I.branch(rest, I.known(rest, eq(x, fnv)))
                rest = None
                for bb, s2 in br:
                    if bb:
                        outs.append((mk("it", l, i), s2))
                    else:
                        rest = s2
                if rest is None:
                    return outs
            return outs + [(b, rest)]
        if not (isinstance(fnv, T) and fnv.op == "lam"):
            return None
        outs, cur = [], [(0, st)]
        for i in range(a.a[1], b.a[1]):
            nxt = []
            for cnt, s1 in cur:
                arg = mk("addr", ("e", l, i), "ref") if l[0] != "v" else c.a[i]
                if isinstance(c.a[i], T) and c.a[i].op == "obj":
                    arg = c.a[i]
                for v, s2 in I.calllam(fnv, (arg,), s1):
                    if s == "for_each":
                        nxt.append((0, s2))
                        continue
                    for bb, s3 in I.branch(s2, v):
                        if s == "count_if":
                            nxt.append((cnt + int(bb), s3))
                        elif s == "all_of" and not bb:
                            outs.append((0, s3))
                        elif s == "any_of" and bb:
                            outs.append((1, s3))
                        elif s == "none_of" and bb:
                            outs.append((0, s3))
                        elif s == "find_if" and bb or s == "find_if_not" and not bb:
                            outs.append((mk("it", l, i), s3))
                        else:
                            nxt.append((cnt, s3))
            cur = nxt
        for cnt, s1 in cur:
            outs.append(({"count_if": cnt, "all_of": 1, "any_of": 0, "none_of": 1, "for_each": VOID}.get(s, b), s1))
        return outs
    return None
