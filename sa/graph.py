"""Call graph and per-function facts over the extracted program."""
from .repo import *

def callsites(fn):
    """Call, constructor and delete nodes of a function body (lambdas included)."""
    out = []
    def f(n):
        if n["k"] in ("call", "ctor", "new", "delete"):
            out.append(n)
    walk(fn.get("body"), f)
    walk(fn.get("inits"), f)
    return out

def fnrefs(fn):
    out = []
    def f(n):
        if n["k"] == "fn":
            out.append(n)
    walk(fn.get("body"), f)
    walk(fn.get("inits"), f)
    return out

class Graph:
    """Callees of every function: direct, virtual (every overrider below the static receiver class) and address-taken functions
    (counted as called where the address is taken)."""
    def __init__(self, p):
        self.p = p
        self.out = {}
        self.ext = {}
        self.sites = {}
        self.over = {}
        M = p.methods()
        for i, m in M.items():
            for b in p.allov(m):
                self.over.setdefault(b, set()).add(i)
        for i, f in p.fns.items():
            cs = callsites(f)
            self.sites[i] = cs
            o, x = set(), set()
            for n in cs:
                g = n.get("f")
                if not g:
                    continue
                self.add(g["id"], g["n"], n.get("v"), o, x)
                if n["k"] == "new" and n.get("i"):
                    pass
            for n in fnrefs(f):
                self.add(n["f"]["id"], n["f"]["n"], 0, o, x)
            self.out[i] = o
            self.ext[i] = x
    def add(self, fid, name, virt, o, x):
        if fid in self.p.fns:
            o.add(fid)
        else:
            x.add(name)
        if virt:
            for k in self.over.get(fid, ()):
                if k in self.p.fns:
                    o.add(k)
    def reach(self, roots, stop=()):
        """{id: id of the caller it was first found from} for everything called from roots."""
        par = {}
        todo = []
        for r in roots:
            par[r] = None
            todo.append(r)
        while todo:
            x = todo.pop()
            if x in stop:
                continue
            for y in sorted(self.out.get(x, ())):
                if y not in par:
                    par[y] = x
                    todo.append(y)
        return par
    def path(self, par, x):
        r = []
        while x is not None:
            r.append(self.p.fns[x]["n"] if x in self.p.fns else x)
            x = par.get(x)
        return " <- ".join(r)
    def ids(self, name):
        return list(self.p.byname.get(name, []))
