"""C03: the passes that walk the program reach every part of it."""
import time
from sa.pworld import *
from sa import runner
from sa.repo import program, REPO

# Parts that are not program text, or are no run-time expressions: field -> reason.
EXEMPT = {
    ("CallExprAST", "proto"): "the declaration of the callee",
    ("FunctionExprAST", "proto"): "the declaration of the routine",
    ("TrampolineAST", "closure"): "made by the capture analysis itself",
    ("ClosureAST", "content"): "made by the capture analysis itself",
    ("VirtFunctionAST", "self"): "is also the first argument of the call (checked on whole programs)",
    ("InitValueAST", "values"): "literals of a constant initial value",
    ("FunctionAST", "proto"): "the declaration of the routine",
    ("FunctionAST", "parent"): "the enclosing routine",
    ("VarDeclAST", "func"): "the enclosing routine",
    ("PrototypeAST", "function"): "the definition, which stands in the program itself",
    ("InitArrayAST", "values"): "literals of a constant initial value",
    ("InitRecordAST", "values"): "literals of a constant initial value",
    ("VarDeclAST", "vars"): "initial values: literals of a constant",
}
# A part that takes two forms of which only one may be absent on a path: none at present.

def exprptr(p, t):
    t = t.replace("const ", "").strip()
    return t.endswith("*") and p.isa(t[:-1].strip(), "ExprAST")

def vecof(p, t):
    if not t.startswith("std::vector<"):
        return None
    return t[len("std::vector<"):].split(", std::allocator")[0].rstrip(">").strip()

def children(W, cls, n):
    """Gives every expression-valued part of n a distinct opaque value: {part: (value, field)}."""
    p, out = W.p, {}
    for x in p.allfields(cls):
        f, t = x["n"], x["t"]
        if (x["cls"], f) in EXEMPT or (x["cls"], f.split("@")[0]) in EXEMPT:
            continue
        if exprptr(p, t):
            out[f] = sym("part:" + f)
            W.st.set(n, f, out[f])
            continue
        e = vecof(p, t)
        if e is None:
            continue
        if exprptr(p, e):
            vs = [sym("part:%s%d" % (f, i)) for i in range(3)]
            for i, v in enumerate(vs):
                out["%s[%d]" % (f, i)] = v
            W.st.set(n, f, mk("vec", *vs))
        elif e in p.classes and any(exprptr(p, y["t"]) for y in p.allfields(e)):
            os = []
            for i in range(2):
                o = W.I.newobj(W.st, e)
                for y in p.allfields(e):
                    if exprptr(p, y["t"]):
                        k = "%s[%d].%s" % (f, i, y["n"])
                        out[k] = sym("part:" + k)
                        W.st.set(o, y["n"], out[k])
                os.append(o)
            W.st.set(n, f, mk("vec", *os))
        elif e == "VarDef":
            W.st.set(n, f, mk("vec"))
    return out

def isnull(s, x):
    from sa.interp import NULL
    f = s.facts.get(x)
    return f is not None and f[0] == "in" and set(f[1]) == {NULL}

def node_case(cls, acc, visits):
    """[(what, detail)] of the parts an accept misses or repeats."""
    def f():
        p = program("cxx")
        W = World(p)
        n = W.I.newobj(W.st, cls)
        parts = children(W, cls, n)
        bad, n_ob = [], 0
        fn = p.fns[p.resolve(cls, p.fn(acc)["id"]) or p.fn(acc)["id"]]
        vis = sym("visitor")
        for k, v, s in W.run(fn, n, (vis,)):
            if k == "x":
                bad.append(("%s ends in an internal error" % fn["n"], ""))
                continue
            got = [e[1][0] for e in s.effects() if e[0] == "v:accept" and e[1][1] == vis]
            for name, x in parts.items():
                n_ob += 1
                c = got.count(x)
                if c == 0 and not isnull(s, x):
                    bad.append(("%s does not pass the visitor to %s" % (fn["n"], name), ""))
                elif c > 1:
                    bad.append(("%s passes the visitor to %s %d times" % (fn["n"], name, c), ""))
            if visits:
                n_ob += 1
                c = sum(e[0] == "v:visit" and e[1] == (vis, n) for e in s.effects())
                if c != 1:
                    bad.append(("%s: the node itself is visited %d times" % (fn["n"], c), ""))
        return [[json.dumps([sorted(set(bad)), n_ob, len(parts)]), []]], {}
    return f

import json

PROGS = {
"statements": """program p ; var i , j : integer ; b : boolean ; c : char ; r : real ; a : array [ 1 .. 9 ] of integer ; s : string [ 9 ] ; t : set of 1 .. 9 ; q : ^ integer ; f : text ; g : file of integer ;
 rc : record x : integer ; case k : boolean of true : ( y : char ) ; false : ( z : real ) end ; label 1 ;
 begin if b and not ( i < j ) then i := i + 1 else begin j := - j end ; while i < 9 do i := i + 1 ; repeat j := j * 2 until j > 9 ; for i := j to 9 + j do a [ i ] := a [ 10 - i ] ;
 for j := 9 downto 1 do ; for i in [ j , 3 .. i ] do ; case i of 1 , 2 : j := 1 ; 3 .. 5 : begin end ; otherwise j := 2 end ; 1 : i := 1 ; goto 1 ; with rc do begin x := 2 ; y := 'a' ; z := r end ;
 new ( q ) ; q ^ := a [ i ] ; g ^ := i ; put ( g ) ; i := g ^ ; writeln ( f , i : j , r : i : j ) ; write ( s , c ) ; readln ( f , i , a [ j ] ) ; read ( c ) ; s := s + 'x' ; c := s [ i ] ; s := copy ( s , i , j ) ; s := s [ i .. j ] ;
 t := t + [ i ] - [ 2 .. j ] ; b := i in t ; i := ord ( c ) + trunc ( sqrt ( r ) ) ; i := sizeof ( integer ) ; inc ( i , j ) end .""",
"routines": """program p ; var n : integer ; function f ( a , b : integer ; var c : char ) : integer ; var l : array [ 1 .. 3 ] of integer ; procedure inner ( k : integer ) ; begin l [ k ] := a + b ; c := 'x' end ;
 function g ( function h ( i : integer ) : integer ) : integer ; begin g := h ( 3 ) end ; function z ( i : integer ) : integer ; begin z := i + l [ i ] end ;
 begin inner ( a ) ; f := l [ 1 ] + g ( z ) end ; procedure late ; forward ; procedure early ; begin late end ; procedure late ; begin n := 3 ; early end ;
 procedure dyn ( var x : array [ lo .. hi : integer ] of integer ) ; var i : integer ; begin for i := lo to hi do x [ i ] := x [ lo ] + i end ;
 begin n := f ( 1 , n + 2 , c ) ; late end .""".replace("n + 2 , c", "n + 2 , ch").replace("var n : integer ;", "var n : integer ; ch : char ;"),
"class": """program p ; type b = class x : integer ; procedure m ( i : integer ) ; virtual ; function g : integer ; end ; d = class ( b ) y : char ; procedure m ( i : integer ) ; override ; end ;
 procedure b . m ( i : integer ) ; begin x := x + i end ; function b . g : integer ; begin g := x end ; procedure d . m ( i : integer ) ; var z : integer ; procedure inner ; begin z := i end ; begin inner ; x := z + x end ;
 var v : d ; w : ^ b ; a : array [ 1 .. 2 ] of d ; i : integer ; begin v . m ( 3 ) ; i := v . g ; new ( w ) ; w ^ . m ( i ) ; a [ i ] . m ( i + 1 ) end .""",
"unit": """unit u ; interface var k : integer ; procedure q ( n : integer ) ; implementation var h : integer ; procedure hid ; begin h := k end ; procedure q ( n : integer ) ; begin k := n ; hid end ; begin q ( 3 ) end .""",
}

def whole(name):
    def f():
        src = PROGS[name]
        W = PWorld(src)
        W.builtins()
        bad, n_ob = [], 0
        r = W.run("Parser::Parse", W.P, (1 if src.startswith("unit") else 0,))
        if len(r) != 1 or r[0][0] != "r" or W.diags(r[0][2]):
            raise AnalysisError("program %s: %s" % (name, [(k, W.diags(s)) for k, v, s in r][:3]))
        k, ast, s0 = r[0]
        reach, todo = [], [ast]
        p = W.p
        via = {}
        while todo:
            o = todo.pop()
            if o in via and o in reach:
                continue
            reach.append(o)
            c = W.I.cls(s0, o)
            skip = {f for (cl, f) in EXEMPT if p.isa(c, cl) and (cl, f) not in KEEP}
            def edges(o, c):
                for x in p.allfields(c):
                    if x["n"] in skip:
                        continue
                    v = s0.get(o, x["n"])
                    for y in (v.a if isinstance(v, T) and v.op == "vec" else [v]):
                        if isinstance(y, T) and y.op == "obj":
                            cy = W.I.cls(s0, y)
                            if cy is None:
                                continue
                            if p.isa(cy, "ExprAST"):
                                yield x["n"], y
                            elif cy in ("WriteAST::WriteArg",) or p.isa(cy, "Builtin::FunctionBase"):
                                yield from edges(y, cy)
            for e, y in edges(o, c):
                if y not in via:
                    via[y] = (o, e)
                    todo.append(y)
        W.adopt(s0)
        W.st.eff = None
        vis = sym("visitor")
        fn = p.fns[p.resolve(W.I.cls(s0, ast), p.fn("ExprAST::accept")["id"])]
        kinds = {}
        for k, v, s in W.run(fn, ast, (vis,)):
            got = [e[1][1] for e in s.effects() if e[0] == "v:visit"]
            if k == "x":
                bad.append(("walking the program ends in an internal error", ""))
                continue
            for o in reach:
                c = W.I.cls(s0, o)
                if p.isa(c, "PrototypeAST"):
                    continue
                n_ob += 1
                kinds[c] = kinds.get(c, 0) + 1
                if o not in got:
                    path = c
                    q = o
                    while q in via:
                        q, e = via[q]
                        path = "%s.%s -> %s" % (W.I.cls(s0, q), e, path) if q is o or True else path
                    bad.append(("program '%s': a %s is not visited" % (name, c), path))
        return [[json.dumps([sorted(set(map(tuple, bad))), n_ob, sorted(kinds)]), []]], {"unknown": sorted(map(str, W.I.unknown))}
    return f
# on whole programs these parts are followed: they must have been reached in another way
KEEP = {("FunctionExprAST", "proto"), ("CallExprAST", "proto"), ("VirtFunctionAST", "self"), ("PrototypeAST", "function"), ("FunctionAST", "proto"), ("FunctionAST", "parent"), ("VarDeclAST", "func")}

def concrete(p, base):
    return sorted(c for c in p.classes if p.isa(c, base))

def cases():
    p = program("cxx")
    c = {}
    for x in concrete(p, "ExprAST"):
        if x not in ("ExprAST", "PrototypeAST"):
            c["node " + x] = node_case(x, "ExprAST::accept", True)
    for x in concrete(p, "Builtin::FunctionBase"):
        c["builtin " + x] = node_case(x, "Builtin::FunctionBase::accept", False)
    for x in PROGS:
        c["program " + x] = whole(x)
    return c

EXPLAIN = ("For every class of tree node and of predefined routine, the accept method it resolves to is interpreted abstractly with distinct opaque values in every field that holds "
           "an expression (also in vectors and in argument records). For whole programs with every construct, parsed abstractly, the nodes a visitor is given are compared "
           "with all nodes that hang together with the program through such fields, through routine declarations, and through predefined routines' arguments.")
RULE = ("On every path each expression-valued part that is not null on that path is handed the visitor exactly once and the node itself is visited exactly once; every node of a whole "
        "program is visited. Exempt parts are listed with the reason.")

def main(argv):
    t0 = time.time()
    cs = runner.mod_cases("c03")
    errs, bad, n, parts, kinds = {}, [], 0, 0, set()
    for name, (out, meta, err, dt) in runner.run_cases("c03").items():
        if err:
            errs[name] = err
            continue
        b, k, x = json.loads(out[0][0])
        n += k
        if isinstance(x, int):
            parts += x
        else:
            kinds |= set(x)
        if "-v" in argv:
            print(name, k, x, b, meta.get("unknown"))
        for what, detail in b:
            if meta.get("unknown") and not name.startswith("program"):
                errs[name] = "outside the model: %s" % meta["unknown"][:3]
                continue
            bad.append({"what": what, "detail": "%s: %s" % (name, detail)})
    allk = {c for c in concrete(program("cxx"), "ExprAST")}
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": len(cs), "distinct_nontrivial": parts + len(kinds), "obligations": n, "parts": parts, "not_decided": len(errs),
           "kinds_in_whole_programs": sorted(kinds), "kinds_only_alone": sorted(allk - kinds), "exempt": {"%s.%s" % k: v for k, v in EXEMPT.items() if v}, "source": REPO}
    seen, ub = set(), []
    for x in bad:
        if x["what"] not in seen:
            seen.add(x["what"])
            ub.append(x)
    return runner.finish("C03", t0, cov, ub, errs)
