"""C10: file operations of the runtime library, on symbolic file variables and file tables."""
from sa.rt import *
import itertools

FNS = ["__close", "__seekwrite", "__seekread", "__seekupdate", "__empty", "__position", "__lastposition", "__put", "__get", "__page", "__read_bin", "__write_bin",
       "__eof", "__eoln", "__read_nl", "__write_nl", "__binding", "__bind", "__unbind"]
# every other routine with a file argument: refused when the variable has no open file
IO = ["__read_bool", "__read_chars", "__read_chr", "__read_int32", "__read_int64", "__read_real", "__read_str", "__write_bool", "__write_char", "__write_chars", "__write_enum",
      "__write_int32", "__write_int64", "__write_real", "__write_str", "__get_text"]

STATES = ["open 0", "open 1", "open 3", "closed 0", "closed 1", "unbound 0", "none -1", "none 0", "none 3", "none 4", "none 999", "none 1000", "none 1001"]

def table(W, used, F, own=None):
    """File table with the first `used` entries taken by others; own = (entry, stream, name) of F."""
    DISTINCT.add(F)
    arr = mk("arr", "glob", "files")
    for i in range(W.p.enumconst["MaxPascalFiles"]):
        o = mk("at", arr, i)
        W.st.set(o, "inUse", int(i < used))
        W.st.set(o, "fileData", F if own and own[0] == i else sym("G%d" % i))
        NNSYM.add(sym("G%d" % i))
        DISTINCT.add(sym("G%d" % i))
        if i >= used:
            W.st.set(o, "file", NULL)
            W.st.set(o, "name", NULL)
    if own:
        o = mk("at", arr, own[0])
        W.st.set(o, "file", own[1])
        W.st.set(o, "name", own[2])
        W.st.set(o, "inUse", 1)
        for f in ("readAhead", "readPos", "bufferSize"):
            W.st.set(o, f, sym(f))

def setup(kind, state):
    p = program(kind)
    W = World(p)
    F = sym("F")
    s, n = state.split()
    for x in ("F", "STREAM", "NAME"):
        NNSYM.add(sym(x))
    if s == "none":
        # the variable's handle is not an entry of its own
        table(W, 4, F)
        W.st.set(F, "handle", int(n))
    else:
        table(W, 5, F, (3, sym("STREAM") if s == "open" else NULL, NULL if s == "unbound" else sym("NAME")))
        W.st.set(F, "handle", 3)
        W.st.set(F, "isText", int(n))
        W.st.set(F, "recordSize", 1024 if n != "0" else sym("SIZE"))
    W.st.set(F, "buffer", sym("BUF"))
    NNSYM.add(sym("BUF"))
    return W, F

def case(kind, fn, state, rest=()):
    def f():
        W, F = setup(kind, state)
        g = W.p.fn(fn)
        args = [F]
        for x in g["p"][1:]:
            a = sym("P%d" % len(args))
            if x["t"].rstrip().endswith("*"):
                NNSYM.add(a)
            args.append(a)
        for i, v in enumerate(rest):
            args[1 + i] = v
        return sums(W, W.run(g, None, args)), W.meta("runtime %s" % fn)
    return f

def free(kind, fn):
    def f():
        W = World(program(kind))
        g = W.p.fn(fn)
        table(W, 0, sym("F"))
        for x in ("input", "output"):
            W.st.set(mk("glob", x), "handle", 0)
        return sums(W, W.run(g, None, [sym("P%d" % i) for i in range(len(g["p"]))])), W.meta("runtime %s" % fn)
    return f

def assign(kind, used, own):
    """__assign with the first `used` entries taken; own: the entry the variable already has (open or closed) or None."""
    def f():
        W = World(program(kind), unroll=1100)
        F = sym("F")
        NNSYM.add(F)
        NNSYM.add(sym("OLD"))
        table(W, used, F, own and (own[0], sym("OLD") if own[1] else NULL, sym("ONAME")))
        W.st.set(F, "handle", own[0] if own else 1)
        return sums(W, W.run("__assign", None, (F, sym("NAME")))), W.meta("runtime __assign")
    return f

def unnamed(kind, n):
    """__assign_unnamed with n as the number of the previous temporary file."""
    def f():
        W = World(program(kind))
        table(W, 2, sym("F"))
        W.st.set(sym("F"), "handle", 1)
        g = W.p.fn("__assign_unnamed")
        W.preset(**{i: n for i in statics(g)})
        return sums(W, W.run(g, None, (sym("F"),))), W.meta("runtime __assign_unnamed")
    return f

OPEN = ["__reset", "__rewrite", "__append"]

def cases():
    c = {}
    for k in ("c64", "c32"):
        for s in STATES:
            for f in FNS:
                c["%s, %s %s" % (f, s, k)] = case(k, f, s)
            if s.split()[0] != "open":
                for f in IO:
                    c["%s, %s %s" % (f, s, k)] = case(k, f, s)
            for f in OPEN:
                for t in (0, 1):
                    c["%s(%s), %s %s" % (f, "text" if t else "binary", s, k)] = case(k, f, s, (1 if t else sym("SIZE"), t))
        for f in ("InitFiles", "FileError"):
            c["%s %s" % (f, k)] = free(k, f)
        for n in (0, 1, 8, 9, 10, 98, 99, 100, 345, 998, 999):
            c["__assign_unnamed after %d %s" % (n, k)] = unnamed(k, n)
        for used in (0, 1, 2, 7, 999, 1000):
            c["__assign new, %d used %s" % (used, k)] = assign(k, used, None)
        for used, own in ((3, 2), (3, 0), (1000, 999), (1000, 5)):
            for op in (0, 1):
                c["__assign again %d of %d%s %s" % (own, used, " open" if op else "", k)] = assign(k, used, (own, op))
    return c

EXPLAIN = ("Every file routine of the runtime library is interpreted abstractly (64- and 32-bit parse) on a symbolic file variable and file table: all paths with their conditions. The library calls with their "
           "arguments (handle, mode string, offset, whence), the final contents of the file entry and variable, and the result are compared with the reviewed table spec/C10.json; "
           "the path of a variable without an entry of its own must end in FileError before anything is touched.")
RULE = ("One obligation per routine (and, for assign, per occupancy of the table): every outcome derivable under a condition is the specified one.")

def main(argv):
    program("c64")
    program("c32")
    return runner.table_check("C10", "c10", argv, EXPLAIN, RULE)
