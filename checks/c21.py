"""Types: which combinations the compiler accepts, decided from the diagnoses of the parser and the type check for statements of every
pair of types, against the rules of the language."""
import json
from sa.whole import *
from sa import runner
from sa.interp import AnalysisError, Limit

class LW(PWorld):
    """PWorld whose tokens carry the number of their line, and which remembers the line of the first diagnosis of the parser."""
    lines = ()
    errline = None
    def locfield(self, cls):
        fs = [x["n"] for x in self.p.allfields(cls) if x["t"].replace("const ", "") == "Location"] if cls in self.p.classes else []
        return fs[0] if fs else None
    def token(self, s, i):
        o = super().token(s, i)
        num = [x["n"] for x in self.p.allfields("Location") if "int" in x["t"]]
        l = self.I.newobj(s, "Location")
        for x in self.p.allfields("Location"):
            s.set(l, x["n"], 1 if "int" in x["t"] else "p")
        s.set(l, num[0], self.lines[i] if i < len(self.lines) else 0)
        s.set(o, self.locfield("Token"), l)
        return o
    def lineof(self, s, x):
        f = self.locfield(self.I.cls(s, x)) if isinstance(x, T) else None
        l = s.get(x, f) if f else None
        num = [x["n"] for x in self.p.allfields("Location") if "int" in x["t"]]
        return s.get(l, num[0]) if isinstance(l, T) else None
    def hook(self, I, n, f, o, vs, st):
        if f["n"] == "Parser::PrintError" and not st.get("#tok", "err"):
            for x in vs:
                if isinstance(x, T) and self.locfield(I.cls(st, x)):
                    self.errline = self.lineof(st, x)
        return super().hook(I, n, f, o, vs, st)

def once(decl, stmts, idx, tail):
    """('parser', line or None) | ('ice', what) | ('ok', {index: first message})"""
    lines = [l for l in decl.split("\n") if l.strip()]
    base = len(lines)
    lines += [stmts[i] + " ;" for i in idx] + [tail]
    w = Whole("\n".join(lines), unroll=3000)
    W = w.W
    W.__class__ = LW
    W.lines = [k for k, l in enumerate(lines, 1) for _ in l.split()]
    W.I.hook = W.hook
    if not w.parse():
        if "internal" in w.error:
            return "ice", w.error
        i = W.errline - base - 1 if W.errline is not None else -1
        return "parser", idx[i] if 0 <= i < len(idx) else None
    w.closures()
    w.sema()
    if w.error and "internal" in w.error:
        return "ice", w.error
    out = {}
    for e in w.semaeff:
        if e[0] in ("TypeCheckVisitor::Error", "Semantics::AddError"):
            ln = [W.lineof(W.st, a) for a in e[1] if isinstance(a, T)]
            ln = [x for x in ln if isinstance(x, int)]
            i = ln[0] - base - 1 if ln else -1
            k = idx[i] if 0 <= i < len(idx) else None
            out.setdefault(k, e[1][2] if len(e[1]) > 2 else "?")
    return "ok", out

def verdicts(decl, stmts, tail="end ."):
    """index -> None (accepted), message, or an ('ice', what)"""
    idx = list(range(len(stmts)))
    r, x = once(decl, stmts, idx, tail)
    if r == "ok" and None not in x:
        return {i: x.get(i) for i in idx}
    res = {}
    # one by one: a rejection by the parser hides what follows it
    r0, x0 = once(decl, stmts, [], tail)
    if r0 != "ok" or x0:
        raise AnalysisError("the declarations are rejected: %s %s" % (r0, x0))
    for i in idx:
        r, x = once(decl, stmts, [i], tail)
        res[i] = ("ice", x) if r == "ice" else "rejected by the parser" if r == "parser" else next(iter(x.values())) if x else None
    return res

NAME = {"I": "integer", "L": "longint", "R": "real", "C": "char", "B": "boolean", "ST": "string", "TX": "text", "CX": "complex"}
TYPES = """type E1 = ( r1 , r2 , r3 ) ; E2 = ( q1 , q2 ) ;
SI = 1 .. 10 ; SJ = 5 .. 20 ; SC = 'a' .. 'f' ; SE = r1 .. r2 ;
S10 = string [ 10 ] ; CA = packed array [ 1 .. 5 ] of char ; CB = packed array [ 1 .. 8 ] of char ;
AI = array [ 1 .. 5 ] of integer ; AR = array [ 1 .. 5 ] of real ; AM = array [ 1 .. 5 , 1 .. 2 ] of integer ;
RA = record a : integer ; b : real end ; RB = record c : integer ; d : real end ;
ZI = set of 1 .. 10 ; ZC = set of char ; ZE = set of E1 ; ZF = set of E2 ;
PI = ^ integer ; PR = ^ RA ; PS = ^ RB ; FI = file of integer ; FR = file of real ;
"""
TY = "I L R C B E1 E2 SI SJ SC SE ST S10 CA CB AI AR AM RA RB ZI ZC ZE ZF PI PR PS TX FI FR CX".split()
VARS = "var " + " ".join("x%s : %s ;" % (t, NAME.get(t, t)) for t in TY) + "\n"
HEAD = "program p ( input , output ) ;\n"

INT, CHR = {"I", "SI", "SJ"}, {"C", "SC"}
STR, CARR = {"ST", "S10"}, {"CA", "CB"}
ORD = {"I": "int", "SI": "int", "SJ": "int", "L": "int", "C": "chr", "SC": "chr", "B": "bool", "E1": "e1", "SE": "e1", "E2": "e2"}
SETS = {"ZI": "int", "ZC": "chr", "ZE": "e1", "ZF": "e2"}
FILES = {"TX", "FI", "FR"}
PTRS = {"PI", "PR", "PS"}
YES, NO, OPEN = True, False, None

def assign(a, b):
    """a := b"""
    if a in FILES:
        return NO
    if a == b:
        return YES
    if a in INT:
        return YES if b in INT else OPEN if b == "L" else NO
    if a == "L":
        return YES if b in INT else NO
    if a == "R":
        return YES if b in INT or b == "L" else NO
    if a == "CX":
        return YES if b in INT or b in ("L", "R") else NO
    if a in CHR:
        return YES if b in CHR else NO
    if a in ("E1", "SE"):
        return YES if b in ("E1", "SE") else NO
    if a in STR:
        return YES if b in STR or b in CHR or b in CARR else NO
    if a in CARR:
        return OPEN if b in STR or b in CHR else NO
    return NO

def same(a, b):
    return a == b

def varpar(a, b):
    if a == b:
        return YES
    if a in STR and b in STR:
        return OPEN
    return NO

def num(x):
    return x in INT or x in ("L", "R", "CX")

def arith(a, b):
    if num(a) and num(b):
        return YES
    return NO

def plus(a, b):
    if num(a) and num(b):
        return YES
    if a in SETS and b in SETS:
        return YES if a == b else NO
    T_ = STR | CHR | CARR
    if a in T_ and b in T_:
        return YES if a in STR and b in STR else OPEN
    return NO

def minus(a, b):
    if a in SETS and b in SETS:
        return YES if a == b else NO
    return arith(a, b)

def intop(a, b):
    return YES if (a in INT or a == "L") and (b in INT or b == "L") else NO

def logic(a, b):
    if a == "B" and b == "B":
        return YES
    if (a in INT or a == "L") and (b in INT or b == "L"):
        return OPEN
    return NO

def eq(a, b):
    if num(a) and num(b):
        return YES
    if a in ORD and b in ORD:
        return YES if ORD[a] == ORD[b] else NO
    if a in SETS or a in PTRS:
        return YES if a == b else NO
    T_ = STR | CHR | CARR
    if a in T_ and b in T_:
        return YES if a in STR and b in STR or a == b else OPEN
    return NO

def less(a, b):
    if "CX" in (a, b) or a in PTRS:
        return NO
    return eq(a, b)

def member(a, b):
    return YES if a in ORD and b in SETS and ORD[a] == SETS[b] and a != "L" else OPEN if a == "L" and b == "ZI" else NO

def loop(a, b):
    if a in ORD and b in ORD and ORD[a] == ORD[b]:
        return OPEN if "L" in (a, b) and a != b else YES
    return NO

CONST = {"I": "3", "R": "2.5", "C": "'z'", "B": "false", "E1": "r2", "E2": "q2", "ST": '"some"'}
def select(a, b):
    """case a of (a constant of type b)"""
    if a in ORD and b in ORD and ORD[a] == ORD[b]:
        return OPEN if a == "SC" else YES
    return NO

def bound(a, b):
    return YES if a in ("I", "L", "SI", "SJ") and b in INT else OPEN

def unaryminus(a):
    return YES if num(a) else NO
def lnot_(a):
    return YES if a == "B" else OPEN if a in INT or a == "L" else NO
def isbool(a):
    return YES if a == "B" else NO
def deref(a):
    return YES if a in PTRS or a in FILES else NO
def record(a):
    return YES if a in ("RA", "RB") else NO
def pointer(a):
    return YES if a in PTRS else NO
def element(e):
    return lambda b: YES if b in ORD and b != "L" and ORD[b] == e else OPEN if b == "L" and e == "int" else NO
def indexed(a):
    return YES if a in ("AI", "AR", "CA", "CB", "ST", "S10") else OPEN if a == "AM" else NO

# name -> (declarations after the variables, statement, verdict, targets)
PAIRS = {
    "assignment": ("", "x$a := x$b", assign),
    "value argument": ("procedure pval ( z : $A ) ; begin end ;\n", "pval ( x$b )", assign),
    "var argument": ("procedure pvar ( var z : $A ) ; begin end ;\n", "pvar ( x$b )", varpar),
    "second argument": ("procedure pthird ( k : integer ; z : $A ; m : integer ) ; begin end ;\n", "pthird ( 1 , x$b , 2 )", assign),
    "function result": ("function fr : $B ; begin fr := x$b end ;\n", "x$a := fr", assign),
    "field": ("", "w . f$a := x$b", assign),
    "array element": ("", "y [ 1 ] := x$b", assign),
    "+": ("", "if x$a + x$b = x$a + x$b then xI := 1", plus),
    "-": ("", "if x$a - x$b = x$a - x$b then xI := 1", minus),
    "*": ("", "if x$a * x$b = x$a * x$b then xI := 1", minus),
    "/": ("", "xCX := x$a / x$b", arith),
    "div": ("", "xL := x$a div x$b", intop),
    "mod": ("", "xL := x$a mod x$b", intop),
    "shl": ("", "xL := x$a shl x$b", lambda a, b: OPEN if intop(a, b) else NO if a not in ORD or b not in ORD else OPEN),
    "and": ("", "if ( x$a and x$b ) = ( x$a and x$b ) then xI := 1", logic),
    "or": ("", "if ( x$a or x$b ) = ( x$a or x$b ) then xI := 1", logic),
    "=": ("", "if x$a = x$b then xI := 1", eq),
    "<>": ("", "if x$a <> x$b then xI := 1", eq),
    "<": ("", "if x$a < x$b then xI := 1", less),
    ">=": ("", "if x$a >= x$b then xI := 1", less),
    "in": ("", "if x$a in x$b then xI := 1", member),
    "for": ("", "for x$a := x$b to x$b do xAI [ 1 ] := 1", loop),
    "for, last bound": ("", "for x$a := x$a to x$b do xAI [ 1 ] := 1", loop),
    "for down": ("", "for x$a := x$b downto x$a do xAI [ 1 ] := 1", loop),
}
ONES = {
    "condition of if": ("if x$a then xI := 1", isbool),
    "condition of while": ("while x$a do xI := 1", isbool),
    "condition of repeat": ("repeat xI := 1 until x$a", isbool),
    "condition of if, else": ("if x$a then xI := 1 else xI := 2", isbool),
    "unary -": ("xCX := - x$a", unaryminus),
    "not": ("if not x$a = not x$a then xI := 1", lnot_),
    "^": ("x$a ^ := x$a ^", deref),
    "with": ("with x$a do xI := 1", record),
    "new": ("new ( x$a )", pointer),
    "dispose": ("dispose ( x$a )", pointer),
    "nil": ("x$a := nil", pointer),
    "compare with nil": ("if x$a = nil then xI := 1", pointer),
    "indexing": ("xI := ord ( xB ) ; write ( ord ( xC ) ) ; if @ x$a [ 1 ] = nil then xI := 1", None),
    "index of an array of integers": ("xAI [ x$a ] := 1", element("int")),
    "index of an array of reals": ("xAR [ x$a ] := 1", element("int")),
    "second index": ("xAM [ 1 , x$a ] := 1", element("int")),
    "index by characters": ("yC [ x$a ] := 1", element("chr")),
    "index by an enumeration": ("yE [ x$a ] := 1", element("e1")),
    "index by booleans": ("yB [ x$a ] := 1", element("bool")),
    "element of a set of integers": ("xZI := [ x$a ]", element("int")),
    "range of a set of integers": ("xZI := [ 1 , x$a .. x$a ]", element("int")),
    "element of a set of characters": ("xZC := [ x$a ]", element("chr")),
    "element of a set of an enumeration": ("xZE := [ x$a ]", element("e1")),
    "field access": ("x$a . a := 1", lambda a: YES if a == "RA" else NO),
}
MORE = " " + "".join("y%s : array [ %s ] of integer ; " % (a, b) for a, b in (("C", "char"), ("E", "E1"), ("B", "boolean"))) + "\n"

# statement, verdict, declarations before begin
LISTS = {
    "arguments": ("procedure p0 ; begin end ;\nprocedure p1 ( a : integer ) ; begin end ;\nprocedure p2 ( a : integer ; var b : integer ) ; begin end ;\nfunction f1 ( a : integer ) : integer ; begin f1 := a end ;\n", [
        ("p0", YES), ("p0 ( 1 )", NO), ("p1 ( 1 )", YES), ("p1", NO), ("p1 ( 1 , 2 )", NO), ("p2 ( 1 , xI )", YES), ("p2 ( 1 )", NO), ("p2 ( 1 , xI , xI )", NO),
        ("p2 ( 1 , 2 )", NO), ("p2 ( 1 , xI + 1 )", NO), ("p2 ( 1 , ( xI ) )", OPEN), ("p2 ( 1 , xR )", NO), ("p2 ( 1 , xSI )", NO), ("p2 ( xR , xI )", NO),
        ("p2 ( 1 , f1 ( 1 ) )", NO), ("p2 ( 1 , xAI [ 2 ] )", YES), ("p2 ( 1 , xRA . a )", YES), ("p2 ( 1 , xRA . b )", NO), ("p2 ( 1 , xPI ^ )", YES), ("p2 ( 1 , xAR [ 2 ] )", NO),
        ("xI := f1 ( 1 )", YES), ("xI := f1 ( 1.5 )", NO), ("xI := f1 ( 1 , 2 )", NO), ("xI := f1", NO), ("xC := f1 ( 1 )", NO), ("xI := f1 ( xC )", NO), ("xI := f1 ( xSI )", YES), ("xR := f1 ( 1 )", YES),
        ("xI := p1 ( 1 )", NO), ("p1 ( xE1 )", NO), ("p1 ( xB )", NO), ("p1 ( r1 )", NO), ("p1 ( 'c' )", NO), ("p1 ( \"some\" )", NO)]),
    "assignment targets": ("const k = 5 ;\nprocedure pp ( protected a : integer ; b : integer ) ; begin b := 1 end ;\nfunction f1 ( a : integer ) : integer ; begin f1 := a end ;\n", [
        ("xI := 1", YES), ("k := 1", NO), ("r1 := r2", NO), ("f1 := 1", NO), ("3 := 4", NO), ("xI + 1 := 4", NO), ("xAI [ 1 ] := 1", YES), ("xAI := 1", NO), ("xRA . a := 1", YES), ("xRA . z := 1", NO),
        ("xPI ^ := 1", YES), ("xPI := 1", NO), ("xPR ^ . a := 1", YES), ("xPR ^ . b := 1", YES), ("xPR ^ . a := 1.5", NO), ("xPR . a := 1", NO), ("xAM [ 1 , 2 ] := 1", YES), ("xAM [ 1 ] [ 2 ] := 1", OPEN), ("xAI [ 1 , 2 ] := 1", NO),
        ("pp := 1", NO), ("E1 := r1", NO), ("undeclared := 1", NO), ("xI := undeclared", NO), ("xI := integer", NO)]),
    "constants assigned": ("", [("x%s := %s" % (a, CONST[b]), v) for a in TY for b in CONST
        for v in [OPEN if a == "CA" and b == "ST" or a == "CB" and b == "ST" or a == "SC" and b == "C" or a in CARR and b == "C" else NO if (a, b) == ("SJ", "I") else assign(a, b)]]),
    "constants out of range": ("", [("xSI := 11", NO), ("xSI := 0", NO), ("xSI := 10", YES), ("xSJ := 21", NO), ("xSJ := 5", YES), ("xCA := \"abcde\"", YES), ("xCA := \"abcdefg\"", NO), ("xCB := \"abcdefgh\"", YES), ("xCB := \"abcdefghi\"", NO)]),
    "case labels": ("", [("case x%s of %s : xI := 1 end" % (a, CONST[b]), select(a, b)) for a in TY for b in ("I", "R", "C", "B", "E1", "E2")]),
    "pointers": ("", [("if xPR ^ . a = 1 then xI := 1", YES), ("if xPR ^ = 1 then xI := 1", NO), ("if xPI ^ = 1 then xI := 1", YES), ("if xPI = 1 then xI := 1", NO), ("xPR ^ := xRA", YES), ("xPR ^ := xRB", NO), ("xPS ^ := xRB", YES), ("xPI ^ := xR", NO), ("xR := xPI ^", YES), ("if xPI < xPI then xI := 1", NO), ("xPI := xPI + 1", NO)]),
}
PROT = [("protected, assigned", "procedure pp ( protected a : integer ) ; begin a := 1 end ;\n", NO), ("value, assigned", "procedure pp ( a : integer ) ; begin a := 1 end ;\n", YES),
        ("function assigned in itself", "function ff : integer ; begin ff := 1 end ;\n", YES), ("function assigned elsewhere", "function ff : integer ; begin ff := 1 end ;\nprocedure pp ; begin ff := 2 end ;\n", NO),
        ("function result of another type", "function ff : integer ; begin ff := 1.5 end ;\n", NO), ("protected record, field assigned", "procedure pp ( protected a : RA ) ; begin a . a := 1 end ;\n", NO),
        ("protected array, element assigned", "procedure pp ( protected a : AI ) ; begin a [ 1 ] := 1 end ;\n", NO), ("protected, used", "procedure pp ( protected a : integer ) ; begin xI := a end ;\n", YES)]

def judge(what, stmts, want, got, bad):
    n = 0
    for i, s in enumerate(stmts):
        g = got[i]
        if isinstance(g, tuple):
            bad.append("%s: '%s' ends the compiler (%s)" % (what, s, g[1]))
            continue
        if want[i] is None:
            continue
        n += 1
        if want[i] and g is not None:
            bad.append("%s: '%s' is rejected: %s" % (what, s, g))
        elif not want[i] and g is None:
            bad.append("%s: '%s' is accepted" % (what, s))
    return n

def explain(t):
    return "%s: %s" % (t, NAME.get(t, t))

def evaluate(case):
    kind, name, a = case
    bad = []
    if kind == "pair":
        decl, st, rule = PAIRS[name]
        d = HEAD + TYPES + VARS
        if name == "field":
            d = d.rstrip("\n") + " w : record e : char ; f%s : %s ; g : integer end ;\n" % (a, NAME.get(a, a))
        elif name == "array element":
            d = d.rstrip("\n") + " y : array [ 1 .. 2 ] of %s ;\n" % NAME.get(a, a)
        want = [rule(a, b) for b in TY]
        stmts = [st.replace("$a", a).replace("$b", b) for b in TY]
        if "$B" in decl:
            got = {}
            n = 0
            todo = [i for i, b in enumerate(TY) if want[i] is not None and b not in FILES and b != "ST"]
            fs = "".join("function gg%s : %s ; begin gg%s := x%s end ;\n" % (TY[i], NAME.get(TY[i], TY[i]), TY[i], TY[i]) for i in todo)
            stmts = ["x%s := gg%s" % (a, TY[i]) for i in todo]
            got = verdicts(d + fs + "begin", stmts)
            n = judge(name, stmts, [want[i] for i in todo], got, bad)
        else:
            got = verdicts(d + decl.replace("$A", NAME.get(a, a)) + "begin", stmts)
            n = judge(name, stmts, want, got, bad)
    elif kind == "one":
        st, rule = ONES[name]
        stmts = [st.replace("$a", t) for t in TY]
        got = verdicts(HEAD + TYPES + VARS.rstrip("\n") + MORE + "begin", stmts)
        n = judge(name, stmts, [rule(t) for t in TY], got, bad)
    elif kind == "list":
        decl, L = LISTS[name]
        L = L[a * 40:a * 40 + 40]
        k = [l for l in decl.split("\n") if l.startswith("const")]
        d = HEAD + "\n".join(k) + "\n" + TYPES + VARS + "\n".join(l for l in decl.split("\n") if not l.startswith("const")) + "\nbegin"
        stmts = [s for s, v in L]
        got = verdicts(d, stmts)
        n = judge(name, stmts, [v for s, v in L], got, bad)
    else:
        n = 0
        for what, decl, v in PROT:
            r, x = once(HEAD + TYPES + VARS + decl + "begin", ["xI := 1"], [0], "end .")
            n += 1
            if r == "ice":
                bad.append("%s: ends the compiler (%s)" % (what, x))
            elif v and (r != "ok" or x):
                bad.append("%s: rejected" % what)
            elif not v and r == "ok" and not x:
                bad.append("%s: accepted" % what)
    return bad, n

MINOR = {"second argument", "field", "function result", "and", "array element", "*", "<>", ">=", "for down", "for, last bound", "mod", "or", "shl"}
SOME = ["I", "R", "C", "B", "E1", "SI", "SE", "ST", "CA", "RA", "ZI", "PI"]
def allcases():
    out = []
    for name in PAIRS:
        for a in TY if name not in MINOR else SOME:
            out.append(("pair", name, a))
    for name, (st, rule) in ONES.items():
        if rule:
            out.append(("one", name, None))
    for name, (d, L) in LISTS.items():
        for k in range((len(L) + 39) // 40):
            out.append(("list", name, k))
    out.append(("prot", "routines", None))
    return out

def mk_case(c):
    def run():
        bad, n = evaluate(c)
        return [([json.dumps([bad, n, "%s %s" % (c[1], c[2])]), []])], {"unknown": []}
    return run

def cases():
    return {"%s, %s" % (c[1], c[2]): mk_case(c) for c in allcases()}

EXPLAIN = ("Programs with one statement for every pair of 31 types - assigned, passed by value and by reference, returned, compared, combined by every class of operator, used as bounds, selectors, labels, indices, elements and conditions - "
           "are followed abstractly through the parser and the type check, and the statements that either diagnoses are compared with the rules of the language.")
RULE = "A combination the language does not allow is diagnosed at its line and one it allows is not; combinations the language leaves to the compiler are not judged, except that none may end the compiler without a diagnosis."

def main(argv):
    return runner.oracle_check("C21", "c21", argv, EXPLAIN, RULE, budget=700)
