"""Termination of lexing and parsing: texts that end anywhere, or have tokens missing, repeated or replaced, followed abstractly."""
import json
from sa import runner
from sa.interp import AnalysisError
from checks import c23, c15
from sa.pworld import *

PROGS = """program p ( input , output ) ; label 5 , 6 ; const c = 3 ; d = - c + 2 * 4 ; s = "abc" ; begin goto 5 ; 5 : writeln ( c : 3 , s ) end .
program p ; type e = ( a , b , c ) ; r = 1 .. 5 ; t = array [ 1 .. 3 , e ] of real ; s = set of e ; f = file of r ; q = ^ t ; st = string [ 10 ] ; var x : e ; y , z : t ; begin y [ 1 , a ] := 1.5 ; x := succ ( x ) end .
program p ; type n = record i , j : integer ; case b : boolean of true : ( x : real ) ; false : ( y : char ; z : ^ n ) end ; var v : n ; begin v . i := 3 ; with v do j := i ; v . z ^ . i := 4 end .
program p ; procedure q ( var a , b : integer ; c : char ; procedure r ( k : integer ) ; x : array [ l .. h : integer ] of real ) ; var m : integer ; begin m := a ; r ( m ) end ; begin end .
program p ; function f ( a : integer ) : integer ; forward ; procedure g ; begin writeln ( f ( 2 ) ) end ; function f ; begin if a < 1 then f := 1 else f := a * f ( a - 1 ) end ; begin g end .
program p ; var i , j : integer ; b : boolean ; begin if i < j then begin i := 1 ; j := 2 end else if b and not b then i := 3 ; while i > 0 do i := i - 1 ; repeat j := j + 1 ; i := 2 until ( j > 5 ) or b end .
program p ; var i : integer ; c : char ; s : set of char ; begin for i := 1 to 10 do writeln ( i ) ; for i := 5 downto 1 do begin end ; for c in s do write ( c ) ; case i of 1 , 2 : i := 3 ; 4 .. 6 : begin end otherwise i := 2 end ; s := [ 'a' , 'c' .. 'f' , c ] end .
program p ; type b = class x : integer ; private y : char ; procedure m ( a : integer ) ; virtual ; function g : integer ; static end ; d = class ( b ) procedure m ( a : integer ) ; override ; end ; var o : d ; procedure b . m ; begin x := a end ; begin o . m ( 3 ) end .
program p ; var f : text ; i : integer ; r : real ; c : complex ; s : string [ 20 ] ; begin read ( f , i ) ; readln ; write ( f , i : 3 , r : 5 : 2 ) ; writestr ( s , i ) ; readstr ( s , i ) ; new ( p1 , 2 ) ; r := sqrt ( 2.0 ) ** 3 ; c := polar ( 1.0 , 2.0 ) end .
unit u ; interface const k = 2 ; type t = 1 .. k ; var v : t ; procedure q ( a : t ) ; function g : char ; implementation procedure q ; begin v := a end ; function g ; begin g := 'x' end ; begin v := 1 end .
program p ; type a = array [ 1 .. 2 ] of integer ; r = record x : integer ; y : char end ; var v : a value [ 1 : 5 ; 2 : 6 ] ; w : r value [ x : 1 ; y : 'c' ] ; z : integer value 5 ; begin v [ 1 ] := v [ 2 ] end .
program p ; type s ( n , m : integer ) = array [ n .. m ] of integer ; var v : s ( 1 , 5 ) ; f : function ( x : integer ) : integer ; pr : procedure ( var y : char ) ; i : integer ; begin v [ 2 ] := f ( 3 ) ; i := 1 + ( 2 - 3 * ( i div 4 ) ) ; p1 ; end .
program p ; type sr = 2 .. 9 ; var m : array [ 1 .. 2 , 'a' .. 'c' ] of array [ boolean ] of sr ; z : set of sr ; k : sr ; st : string [ 5 ] ; begin z := [ k , k .. 9 ] * [ ] ; m [ 1 , 'b' ] [ true ] := m [ 2 ] [ 'a' , false ] ; st [ k ] := st [ 1 ] ; if k in z + [ 3 ] then k := 4 end .
program p ; type a = record b : record c : integer end end ; var x , y : a ; q : ^ a ; procedure w ; begin with x , y . b , q ^ do c := 2 end ; begin repeat w ; w until x . b . c > 3 ; case x . b . c of 1 : case y . b . c of 2 : w end ; 3 : begin w end end ; new ( q ) ; dispose ( q ) end .""".split("\n")
POISON = {"end": ("begin", ";"), "begin": ("end", "of"), ";": (")", "end"), ")": ("]", ";"), "of": (":", "type"), ":": ("..", "("), ",": (";", ".."), "]": (")", ";"), ":=": ("=", ":"), "..": (",", ")"), "then": ("do", "else"), "do": ("of", "end"), "=": (":=", ";"), "(": ("[", ";"), "[": ("(", "..")}

def variants(t):
    n = len(t)
    yield "complete", t
    for i in range(n):
        yield "ends after %d" % i, t[:i]
        yield "without %d" % i, t[:i] + t[i + 1:]
        yield "twice %d" % i, t[:i + 1] + t[i:]
        for x in POISON.get(t[i], ("zork", "begin") if t[i][0].isalpha() else (";",)):
            yield "%d replaced by %s" % (i, x), t[:i] + [x] + t[i + 1:]

def follow(W, toks):
    """None, or why the parser does not come to an end."""
    over = []
    def overrun(n, work):
        over.append(n)
        raise AnalysisError("endless")
    W.toks = toks
    W.st.set("#tok", "i", 0)
    W.st.set("#tok", "err", 0)
    W.I.overrun = overrun
    W.I.maxrec, W.I.maxdepth = 14, 150
    try:
        r = W.run("Parser::Parse", W.P, (1 if toks[:1] == ["unit"] else 0,))
    except AnalysisError as e:
        if over:
            n = over[0]
            return "recursion of %s that reads nothing" % n["rec"] if "rec" in n else "the loop in line %s of %s does not end" % (n.get("l", "?"), W.I.stack[-1][0] if W.I.stack else "the parser")
        raise
    for k, v, s in r:
        if k == "x" and any(e[0] == "endless" for e in s.effects()):
            return "reads on and on after the end of the text"
    return None

WORLD = {}
def base():
    if "w" not in WORLD:
        WORLD["w"] = c23.Tree(unroll=250)
        WORLD["w"].builtins()
    return WORLD["w"].clone()

def parse_case(k, part, parts):
    def f():
        bad, n, errs = [], 0, 0
        for j, (what, t) in enumerate(variants(PROGS[k].split())):
            if j % parts != part:
                continue
            W = base()
            n += 1
            x = follow(W, t)
            if x:
                bad.append("parsing: %s" % x)
                if len(bad) == 1:
                    first = "text %d, %s: %s" % (k, what, " ".join(t)[-60:])
        return [([json.dumps([sorted(set(bad)), n, first if bad else "program %d, part %d" % (k, part)]), []])], {"unknown": []}
    return f

TEXTS = ["program p; { comment } begin x := 'abc' + \"de\"; (* other *) y := 12.5e3; // line\n z := $1F .. 2; end.", "a:=b<>c<=d>=e..f;@x^.[y]**2><z(.1.)", "'it''s' 'c' {nested { } 1.5e 1e+ 1..2 16#FF 2#101 99999999999999999999",
         "{ never closed", "(* never * closed", "'never closed", "\"never closed", "// only a line", "x{a}{b}(*c*)(*d*)//e\n//f\ny", "\x00\x01\xff ~ ! ` ?", "", "   \n\t ", "1.", "1e", "$", "#", "16#", "'", "(*)", "(*", "{", "/", "<", ">", ":", ".", "*", "'a''", "{$I x}", "{$R+}x"]

def lex_case(k):
    def f():
        t = TEXTS[k]
        bad, n = [], 0
        seen = set()
        for i in range(len(t) + 1):
            for x in (t[:i], t[i:]):
                if x in seen:
                    continue
                seen.add(x)
                n += 1
                W = c15.lexer()
                def overrun(nn, work):
                    raise AnalysisError("endless: line %s" % nn.get("l", nn.get("rec")))
                W.I.overrun = overrun
                try:
                    outs = c15.tokenlist(W, x, len(x) + 5)
                except AnalysisError as e:
                    if "endless" not in str(e):
                        raise
                    bad.append("lexing: a loop does not end (%s)" % e)
                    continue
                for toks, s in outs:
                    if any(a == "<endless>" for a, b in toks):
                        bad.append("lexing: reads on and on after the end of the text")
                    elif len(toks) >= len(x) + 5:
                        bad.append("lexing: tokens that use no characters")
        return [([json.dumps([sorted(set(bad)), n, repr(t[:40])]), []])], {"unknown": []}
    return f

def limit_case():
    """The reporter of errors stops the compiler after a bounded number of them."""
    W = base()
    W.I.hook = None
    p = W.p
    f = p.fn("Parser::PrintError")
    fields = [x["n"] for x in p.allfields("Parser") if x["t"] in ("int", "unsigned int")]
    stopped = False
    for k in (31, 100, 1000, 100000):
        V = W.clone()
        V.I.hook = None
        tok = V.I.newobj(V.st, "Token")
        l = V.I.newobj(V.st, "Location")
        for x in p.allfields("Location"):
            V.st.set(l, x["n"], 1 if "int" in x["t"] else "p")
        for x in p.allfields("Token"):
            if x["t"] == "Location":
                V.st.set(tok, x["n"], l)
        for x in fields:
            V.st.set(V.P, x, k)
        r = V.run(f, V.P, ("f", 1, tok, "message"))
        if r and all(k2 == "x" for k2, v, s in r):
            stopped = True
            break
    bad = [] if stopped else ["Parser::PrintError does not stop the compiler, however many errors there were"]
    return [([json.dumps([bad, 1, "limit of errors"]), []])], {"unknown": []}

def cases():
    c = {"limit": limit_case}
    for k in range(len(PROGS)):
        for part in range(6):
            c["program %d, %d" % (k, part)] = parse_case(k, part, 6)
    for k in range(len(TEXTS)):
        c["text %d" % k] = lex_case(k)
    return c

EXPLAIN = ("The lexer and the parser are followed abstractly from the current source on texts that end after every token or character, and on programs with every token left out, repeated or replaced; loops are followed turn by turn, "
           "and one that still runs after 250 turns on a text of at most 100 tokens, reading that goes on after the end of the text, and recursion 14 deep that reads nothing are violations.")
RULE = "Every run ends; the reporter of errors ends the compiler after a bounded number."
def main(argv):
    return runner.oracle_check("C02", "c02", argv, EXPLAIN, RULE, budget=700)
