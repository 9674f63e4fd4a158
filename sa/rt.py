"""Summaries of runtime library functions: library calls in order, final contents of the memory written, result."""
from .world import *
from . import runner
import re

QUIET = set()

def names(lines):
    """Numbers local objects and function-local statics in order of appearance: their ids and names are not behaviour."""
    t = {}
    f = lambda m: t.setdefault(m.group(0), "<%s%d>" % ("static" if m.group(0).startswith("'static") else "local", len(t)))
    return [re.sub(r"fr\(\d+\)\.\d+|'static:[^']*'", f, x) for x in lines]

RENAME = {}

def contains(t, x):
    return t is x or isinstance(t, T) and any(contains(y, x) for y in t.a) or isinstance(t, tuple) and any(contains(y, x) for y in t)

def heap(calls):
    """The calls without those that only manage memory: an allocation is shown where its result is used, a copy of a string by the string
    it copies, frees come last (and what is used after it was freed is marked)."""
    out, frees = [], []
    alloc = {}
    for n, a, r in calls:
        if n in ("malloc", "calloc") and r is not None:
            alloc[r] = a[0] if n == "malloc" else mul(a[0], a[1])
        elif n == "strdup":
            RENAME[r] = mk("dup", a[0])
        elif n == "strlen":
            pass
        elif n == "strcpy" and a[0] in alloc and eq(alloc[a[0]], add(len(a[1]) if isinstance(a[1], str) else mk("call:strlen", a[1]), 1)) == 1:
            RENAME[a[0]] = mk("dup", a[1])
        elif n == "free":
            if a[0] is not NULL:
                frees.append((n, a, r))
        else:
            if any(contains(tuple(a), f[1][0]) for f in frees):
                out.append(("<use after free>", [], None))
            out.append((n, a, r))
    return out + sorted(frees, key=lambda x: term(x[1][0]))

def sums(W, res, mem=True, value=True):
    """Outcome table of [(kind, value, state)] results of a runtime function."""
    outs = []
    for k, v, s in res:
        lines = []
        store = {}
        calls = []
        RENAME.clear()
        for e in s.effects():
            if e[0] == "setfield":
                store[(e[1][0], e[1][1])] = e[1][2]
                continue
            if e[0] == "setarr" or e[0] == "setelem":
                store[(e[1][0], e[1][1])] = e[1][2]
                continue
            if e[0] == "setglobal":
                store[("glob", e[1][0])] = e[1][1]
                continue
            calls.append((e[0].split("noreturn:")[-1], list(e[1]), e[2]))
        for n, a, r in heap(calls):
            lines.append("%s(%s)" % (n, ", ".join(map(term, a))))
        if mem and k == "r":
            for a, b, c in sorted((term(o), term(f) if isinstance(f, T) else repr(f) if f.startswith("static:") else str(f), term(x)) for (o, f), x in store.items()):
                lines.append("%s := %s" % (b if a == "'glob'" else "%s.%s" % (a, b), c))
        if k == "r":
            if value and v is not VOID:
                t = term(v)
                if isinstance(v, T) and v.op == "obj":
                    t += " {%s}" % ", ".join("%s: %s" % (f, term(x)) for f, x in sorted((str(f), x) for f, x in (s.h.get(v) or {}).items()) if not f.startswith("__"))
                lines.append("return " + t)
        elif k == "x":
            if not any(e[0].startswith("noreturn:") for e in s.effects()):
                lines.append("<abort>")
        outs.append(("; ".join(names(lines)), runner.fact_text(s, lambda x: term(x))))
    return runner.compact(outs)

def term(x):
    """Terms with calls named by function and shortened."""
    if isinstance(x, T):
        if x in RENAME:
            x = RENAME[x]
        if x.op == "null":
            return "null"
        if x.op == "arr" and len(x.a) == 2:
            return term(x.a[1]) if isinstance(x.a[0], str) else "%s.%s" % (term(x.a[0]), x.a[1])
        if x.op == "fld":
            return "%s.%s" % (term(x.a[0]), x.a[1])
        if x.op == "at":
            return "%s[%s]" % (term(x.a[0]), term(x.a[1]))
        if x.op == "glob":
            return str(x.a[0])
        if x.op == "lin":
            return "(%s)" % " + ".join([("%s*" % c if c != 1 else "") + term(t) for t, c in x.a[1]] + ([str(x.a[0])] if x.a[0] else []))
        if x.op == "sym":
            return x.a[0]
        if x.op == "obj":
            return "obj"
        return "%s(%s)" % (x.op, ", ".join(term(y) for y in x.a))
    if isinstance(x, tuple):
        return "<%s>" % ", ".join(map(term, x))
    return repr(x) if isinstance(x, str) else str(x)

def statics(fn):
    """Ids of the static local variables of a function."""
    out = []
    def w(n):
        if isinstance(n, dict):
            if n.get("static") and "v" in n:
                out.append(n["v"]["id"])
            for x in n.values():
                w(x)
        elif isinstance(n, list):
            for x in n:
                w(x)
    w(fn)
    return out
