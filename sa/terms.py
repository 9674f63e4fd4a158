"""Hash-consed Herbrand terms with constant folding and linear normal forms."""
class T:
    __slots__ = ("op", "a", "h")
    _tab = {}
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.h
    def __lt__(self, o):
        return repr(self) < repr(o)

def mk(op, *a):
    k = (op, a, tuple(map(type, a)))
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.h = hash(k)
        T._tab[k] = t
    return t

def show(x, d=0):
    if isinstance(x, T):
        if d > 9:
            return "..."
        if x.op == "null":
            return "null"
        if x.op == "obj":
            return "%s#%s" % (x.a[1], x.a[0])
        if x.op == "sym":
            return x.a[0]
        if x.op == "lin":
            s = " + ".join(("%s*" % c if c != 1 else "") + show(t, d + 1) for t, c in x.a[1])
            return "(%s%s)" % (s, (" + %d" % x.a[0]) if x.a[0] else "")
        if x.op == "fld":
            return "%s.%s" % (show(x.a[0], d + 1), x.a[1])
        return "%s(%s)" % (x.op, ", ".join(show(y, d + 1) for y in x.a))
    if isinstance(x, tuple):
        return "<%s>" % ", ".join(show(y, d + 1) for y in x)
    if isinstance(x, str):
        return repr(x)
    return str(x)

NULL = mk("null")
VOID = mk("void")
def sym(n):
    return mk("sym", n)
def isconst(v):
    return isinstance(v, (int, float, str)) or v is NULL or (isinstance(v, T) and v.op == "fn")
def isnum(v):
    return isinstance(v, int)

def _lin(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return v, {}
    if isinstance(v, T) and v.op == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}
def _unlin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))
def add(a, b):
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + k
    return _unlin(c1 + c2, d1)
def scale(a, k):
    c, d = _lin(a)
    return _unlin(c * k, {t: v * k for t, v in d.items()})
def sub(a, b):
    return add(a, scale(b, -1))
def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    return comm("mul", a, b)
def comm(op, a, b):
    if repr(b) < repr(a):
        a, b = b, a
    return mk(op, a, b)
NONNULL = {"obj", "fn", "addr", "lam", "vec", "lty", "larr", "lstruct", "lopaque", "lfnty", "bb", "rtfn", "ci", "cf", "gvar", "thefn",
           "null0", "carr", "cstruct", "callee", "entrybb", "after", "lintn"}
NNSYM = set()
SIMPLE = set()
DISTINCT = set()   # symbols that denote pairwise different objects
STRUCTARR = set()   # globals that are arrays of structs: their elements are objects, never null

def nonnull(v):
    return isinstance(v, str) or isinstance(v, T) and (v.op in NONNULL or v in NNSYM or v.op == "at" and isinstance(v.a[0], T) and v.a[0].op == "arr" and v.a[0].a[1] in STRUCTARR or v.op.startswith(("Create", "make:")) or v.op in ("v:CodeGen", "v:Address"))
def lnot(a):
    if isinstance(a, (int, float)):
        return 0 if a else 1
    if isinstance(a, T):
        if a.op == "not":
            return a.a[0]
        if a is NULL:
            return 1
        if nonnull(a):
            return 0
    if isinstance(a, str):
        return 0
    return mk("not", a)
def eq(a, b):
    if a is b:
        return 1
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return int(a == b)
    if isinstance(a, str) and isinstance(b, str):
        return int(a == b)
    if a is NULL or b is NULL:
        o = b if a is NULL else a
        if nonnull(o):
            return 0
        if isinstance(o, (int,)):
            return int(o == 0)
        return mk("eq", o, NULL)
    if isinstance(a, T) and isinstance(b, T):
        if a.op == "obj" and b.op == "obj" or a in DISTINCT and b in DISTINCT:
            return int(a is b)
        if a.op == "fn" and b.op == "fn" or a.op == "bb" and b.op == "bb":
            return int(a is b)
        if a.op == "pair" and b.op == "pair":
            es = [eq(x, y) for x, y in zip(a.a, b.a)]
            if any(isinstance(e, int) and e == 0 for e in es):
                return 0
            es = [e for e in es if not (isinstance(e, int) and e == 1)]
            if not es:
                return 1
            if len(es) == 1:
                return es[0]
    d = None
    try:
        if not isinstance(a, (str, float)) and not isinstance(b, (str, float)):
            d = sub(a, b)
    except TypeError:
        d = None
    if isinstance(d, int):
        return int(d == 0)
    if isinstance(a, (int, float, str)) or (not isinstance(b, (int, float, str)) and repr(a) > repr(b)):
        a, b = b, a
    return mk("eq", a, b)
def lt(a, b, u=False):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return int(a < b)
    if a is b:
        return 0
    if isinstance(a, str) or isinstance(b, str):
        return mk("ult" if u else "lt", a, b)
    if a == 0 and isinstance(b, T) and b.op == "size":
        return lnot(eq(b, 0))
    if b == 1 and isinstance(a, T) and a.op == "size":
        return eq(a, 0)
    d = sub(a, b)
    if isinstance(d, int) and not u:
        return int(d < 0)
    return mk("ult" if u else "lt", a, b)

WIDTH = {"bool": (1, 0), "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1),
         "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0),
         "long long": (64, 1), "unsigned long long": (64, 0), "__int128": (128, 1)}
def strip(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile "):
            if t.startswith(p):
                t = t[len(p):]
        for p in (" const", " volatile", " &&", " &", "&"):
            if t.endswith(p):
                t = t[:-len(p)].rstrip()
        if t == o:
            return t
def wrap(v, t):
    w = WIDTH.get(strip(t))
    if not w or not isinstance(v, int):
        return v
    n, s = w
    if n == 1:
        return int(bool(v))
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v
def short(n):
    """Drops template argument lists from a qualified name."""
    i = n.rfind("operator")
    tail = ""
    if i >= 0 and (i == 0 or n[i - 1] == ":"):
        tail = n[i:]
        n = n[:i]
        if tail.startswith(("operator<", "operator>", "operator-")) :
            j = 8
            while j < len(tail) and tail[j] in "<>=-*":
                j += 1
            tail = tail[:j]
    out = []
    d = 0
    for c in n:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    s = "".join(out) + tail
    return s.replace("std::basic_string::", "std::string::").replace("__gnu_cxx::__normal_iterator", "std::iterator")
