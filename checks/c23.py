"""C23: the structure given to programs. Pairs of operators, operands of every form, statements in every nesting, declarations of every form, and whole programs and units."""
from sa.pworld import *
from sa import runner
import itertools

SMALL = {"Int32": "int", "Int64": "long", "CharDecl": "char", "BoolDecl": "bool", "RealDecl": "real", "VoidDecl": "void", "TextDecl": "text"}

class Tree(PWorld):
    """Trees with types in short form; the name table in full where asked for."""
    full = False
    def short(self, s, v, depth):
        c = self.cname(self.I.cls(s, v))
        if c in SMALL:
            return SMALL[c]
        if depth <= 0:
            return c
        def sub(k):
            x = s.get(v, k)
            if isinstance(x, T) and x.op == "vec":
                return "[" + ", ".join(self.tree(s, y, depth - 1) for y in x.a) + "]"
            return self.tree(s, x, depth - 1)
        if c == "RangeDecl":
            r = s.get(v, "range")
            return "%s..%s" % (self.tree(s, s.get(r, "start")), self.tree(s, s.get(r, "end")))
        if c in ("PointerDecl", "FileDecl"):
            return c[:-4].lower() + " " + sub("baseType")
        if c == "ArrayDecl":
            return "array%s of %s" % (sub("ranges"), sub("baseType"))
        if c == "StringDecl":
            return "string" + sub("ranges")
        if c == "EnumDecl":
            return "(" + ",".join(str(s.get(x, "name")) for x in s.get(v, "values").a) + ")"
        if c == "SetDecl":
            return "set of %s %s" % (sub("baseType"), sub("range"))
        if c == "RecordDecl":
            return "record " + ",".join(str(s.get(x, "name")) for x in s.get(v, "fields").a)
        return c
    def tree(self, s, v, depth=7, seen=()):
        if isinstance(v, T) and v.op == "obj":
            c = self.I.cls(s, v)
            if c in self.p.classes:
                if self.p.isa(c, "Types::TypeDecl") and not self.full:
                    return self.short(s, v, 4)
                if c == "Token":
                    return kinds(self.p)[s.get(v, "type")]
                if seen and (c == "PrototypeAST" and not (self.full and len(seen) < 3) or c == "FunctionExprAST"):
                    return str(s.get(s.get(v, "proto") if c == "FunctionExprAST" else v, "name"))
                if c == "VariableExprAST":
                    return "%s:%s" % (s.get(v, "name"), self.tree(s, s.get(v, "type"), depth - 1))
                if c == "IntegerExprAST" and not self.full:
                    return "%s:%s" % (runner.plain(s.get(v, "val")), self.tree(s, s.get(v, "type"), depth - 1))
                if c == "BinaryExprAST":
                    return "(%s %s %s)" % (self.tree(s, s.get(v, "lhs"), depth, seen), self.tree(s, s.get(v, "oper"), depth), self.tree(s, s.get(v, "rhs"), depth, seen))
                if c == "UnaryExprAST":
                    return "(%s %s)" % (self.tree(s, s.get(v, "oper"), depth), self.tree(s, s.get(v, "rhs"), depth, seen))
        return super().tree(s, v, depth, seen)

NAMES = {}
def kinds(p):
    if not NAMES:
        for k, v in p.enumconst.items():
            if k.startswith("Token::TokenType::") and k.split("::")[-1] not in ("FirstComparison", "LastComparison"):
                NAMES.setdefault(v, k.split("::")[-1])
    return NAMES

TYPES = """type e = ( aa , bb , cc ) ; arr = array [ 1 .. 10 ] of integer ; mat = array [ 1 .. 3 , e ] of real ; ptr = ^ integer ; pn = ^ node ;
  node = record x , y : integer ; r : record z : char end ; n : pn ; v : array [ 0 .. 4 ] of ^ integer end ; st = string [ 20 ] ; st8 = set of 0 .. 7 ; fi = file of integer ;
  vr = record a : integer ; case t : boolean of true : ( p : integer ; q : char ) ; false : ( u : real ) end ; fp = function ( n : integer ) : integer ; pp = procedure ;
  cls = class d : integer ; procedure m ( n : integer ) ; function g : integer ; end ; begin"""
VARS = """var i , j , k : integer ; l : longint ; a : arr ; m : mat ; aa2 : array [ 1 .. 2 ] of arr ; p : ptr ; q , q2 : pn ; r : node ; s , s2 : st ; b , d : boolean ; x , y : real ; c : char ; u , u2 : st8 ; f : text ;
  w : fi ; h : vr ; fv : fp ; pv : pp ; o : cls ; po : ^ cls ; ra : array [ 1 .. 5 ] of node ; ee : e ; begin"""
BASE = []
def world():
    if not BASE:
        W = Tree()
        W.builtins()
        for n in ("input", "output"):
            W.define("VarDef", n, W.get("Types::TextDecl"), W.p.enumconst["VarDef::Flags::External"])
        W.prelude("label 5 , 6 ; begin", "Parser::ParseLabels")
        W.prelude(TYPES, "Parser::ParseTypeDef")
        W.prelude(VARS, "Parser::ParseVarDecls")
        for d in ("function fn ( n : integer ) : integer ; forward ;", "procedure pr ( n : integer ; var v : integer ) ; forward ;", "procedure p0 ; forward ;", "function f0 : integer ; forward ;",
                  "function fr ( z : node ) : real ; forward ;", "procedure pf ( function ff ( n : integer ) : integer ) ; forward ;"):
            W.prelude(d, "Parser::ParseDefinition", 1)
        BASE.append(W)
    return BASE[0].clone()

def expr(src):
    def f():
        W = world()
        r = W.parse(src + " ;", "Parser::ParseExpression")
        def text(v, s):
            return "<rejected>" if v is NULL else W.tree(s, v) + rest(W, s)
        return W.outcomes(r, text), W.meta("parser.cpp ParseExpression: %s" % src)
    return f

def rest(W, s):
    """The tokens not consumed, but for the one that ends the case."""
    i = s.get("#tok", "i") or 0
    if W.I.val(s, s.get(W.P, "nextTokenValid") or 0):
        i -= 1
    t = W.toks[i - 1:]
    return "" if len(t) <= 1 else "  ...then " + " ".join(t)

def statement(src):
    def f():
        W = world()
        r = W.parse("begin %s end ." % src, "Parser::ParseStatement")
        def text(v, s):
            return "<no statement, no diagnostic>" if v is NULL else W.tree(s, v, 9) + rest(W, s)
        return W.outcomes(r, text), W.meta("parser.cpp ParseStatement: %s" % src)
    return f

BIN = "+ - * / ** div mod and or xor shl shr pow >< < <= > >= = <> in and_then or_else".split()
EXPRS = """i|12|1.5|'c'|"ab"|"a"|""|nil|true|aa|TRUE|I|zork|integer|( i )|( ( i ) )|( i|i )|( )|- i|+ i|not b|not not b|- - i|- + i|not - i|- not i|- 12|- 1.5|- maxint|maxint|pi|+ 'c'|- "ab"
a [ i ]|a [ i + 1 ]|a [ ]|a [ 1 , 2 ]|a [ 1|a 1 ]|m [ 1 , aa ]|m [ 1 ] [ aa ]|m [ 1 ]|m [ 1 ] . x|aa2 [ 1 , 2 ]|aa2 [ 1 ] [ 2 ]|aa2 [ 1 ]|a [ a [ i ] ]|i [ 1 ]|p ^|p @|p ^ ^|i ^|q ^ . x|q ^ . r . z|q ^ . n ^ . n ^ . x|q . x
r . x|r . r . z|r . v [ 2 ] ^|r . v [ 2 ]|r . zork|r .|r . 3|i . x|r [ 1 ]|R . X|r . r|s [ 3 ]|s [ 0 ]|f ^|w ^|i = w ^|h . a|h . t|h . p|h . q|h . u|ra [ i ] . x|ra [ i ] . r . z|ra [ i ] . v [ j ] ^|a [ 2 .. 4 ]|a [ 2 .. 4 ] [ 1 ]|m [ 1 .. 2 ]|a [ 1 .. 2 , 3 ]|s [ 2 .. 4 ]|( a [ 2 ] )|( r ) . x|( p ) ^
fn ( 3 )|fn|fn ( )|fn ( 1 , 2 )|f0|f0 ( )|f0 ( 1 )|fn ( fn ( f0 ) )|fn ( i ) + fn ( j )|fn ( 3|fn ( 3 ,|fn ( , 3 )|fn 3|FN ( 3 )|fr ( r )|fr ( i )|fn ( x )|fn ( "a" )|fn ( p0 )|p0|pr ( 1 , i )|fv ( 3 )|fv|fv = nil|fv = @ fn|@ fn|@ i|@ a [ 2 ]|@|@ 3|fn ( - 3 )|fn ( a [ 1 ] )|fn ( 1 ) [ 2 ]|fn ( 1 ) ^|fn ( 1 ) . x|o . g|o . g ( )|o . d|o . m ( 3 )|o . zork|po ^ . d|po ^ . g|f0 + f0|f0 = 3
abs ( i )|abs ( - 3 )|abs ( x )|abs|abs ( )|abs ( i , j )|abs ( b )|chr ( i )|ord ( c )|ord ( aa )|succ ( ee )|pred ( i )|odd ( i )|sqr ( i )|sqrt ( x )|trunc ( x )|round ( x )|sin ( x )|length ( s )|copy ( s , 1 , 2 )|eof|eof ( f )|eoln|eof ( i )|pos ( "a" , s )|ABS ( i )|abs ( abs ( i ) )|abs ( i ) * 2|length ( s ) + 1|max ( i , j )|min ( i , j )|popcnt ( i )
sizeof ( integer )|sizeof ( i )|sizeof ( a )|sizeof ( a [ 1 ] )|sizeof ( r . x )|sizeof ( zork )|sizeof|sizeof ( )|sizeof ( 3 )|sizeof integer|default ( integer )|default ( arr )|default ( zork )|default
[ ]|[ 1 ]|[ 1 , 2 ]|[ 1 .. 3 ]|[ 1 , 3 .. 5 , 7 ]|[ i .. j ]|[ i + 1 .. j * 2 , k ]|[ 'a' .. 'c' ]|[ aa , cc ]|[ 1 ..|[ 1|[ 1 , ]|[ , ]|[ .. ]|u + [ 1 ]|i in [ 1 , 2 ]|i in u|i in u + u2|not ( i in u )|not i in u|st8 [ 1 , 2 ]|arr [ 1 ]
s + s2|s + "x"|c + c|"a" + "b"|s + c|s = "abc"|"abc" = s|x + i|i + x|i / j|b and d|b and d or b|i < j|( i < j ) and ( j < k )|i < j and j < k|a = a|i := j|i := j := k|b not d|i + := j|i +|+|* i|i * * j|i ( 3 )|( i + j ) * k|i * ( j + k )|( ( i + j ) * ( j - k ) ) div k|- i + j|- i * j|i - - j|i * - j|i + - j * k|- ( i + j )|- i ** 2|- i pow 2|not b and d|not ( b and d )|b and not d|b = not d|i = - j
a [ i ] + a [ j ]|r . x * 2 + r . y|p ^ + 1|q ^ . x = q ^ . y|q = nil|q = q2|q <> nil|p ^ * p ^|fn ( i ) div f0|x ** y|2 ** 3|x pow 2|if|while|end|:=|;|i j|i 3|3 i|i , j""".replace("\n", "|").split("|")
STATEMENTS = """|;|; ;|i := 1|i := 1 ;|i := 1 ; j := 2|i := 1 ; ; j := 2|i := 1 j := 2|I := 1|i = 1|i|a [ 1 ]|r . x|zork|zork := 1|3|3 := i|i := |:= 3|a [ 1 ] := 2|a := a|m [ 1 , aa ] := x|m [ 1 ] [ aa ] := x|r . x := 1|r := r|r . r . z := c|p ^ := 1|p := nil|q ^ . n ^ . x := 3|h . q := c|s := "abc"|s [ 1 ] := c|f ^ := c|w ^ := 3|ra [ 1 ] . x := 2|aa2 [ 1 ] := a|aa2 [ 1 ] [ 2 ] := 3
fn := 3|fn ( 3 ) := 4|fn ( 3 )|f0 := 3|f0|p0|p0 ( )|p0 ( 3 )|p0 := 3|pr ( 1 , i )|pr ( 1 )|pr|pr ( 1 , i , j )|pr ( i + 1 , a [ 2 ] )|pr ( 1 , 2 )|pr ( 1 , i + j )|pr ( x , i )|fv := @ fn|fv := fn|fv ( 3 )|fv := nil|pv|pv := @ p0|pf ( fn )|pf ( f0 )|pf ( fv )|pf ( 3 )|o . m ( 3 )|o . m|o . g|o . d := 3|o . g := 3|po ^ . m ( 3 )|aa := 3|true := b|maxint := 3|integer := 3|e := 3
if b then i := 1|if b then i := 1 else i := 2|if b then if d then i := 1 else i := 2|if b then begin if d then i := 1 end else i := 2|if b then else i := 2|if b then ; else i := 1|if b then i := 1 ; else i := 2|if b|if then i := 1|if b i := 1|if b then if d then i := 1 else i := 2 else i := 3|if b then i := 1 else if d then i := 2 else i := 3|if i then i := 1|if i < j then p0|if b then begin i := 1 ; j := 2 end else p0|if not b then p0|if b then while d do p0 else i := 1|if b then for i := 1 to 2 do p0 else j := 3|if b then with r do x := 1 else j := 3|if b then case i of 1 : p0 end else j := 3|if b then repeat p0 until d else j := 2|if b then p0 else
while b do i := 1|while b do|while b do ;|while do i := 1|while b i := 1|while i < j do begin i := 1 ; j := 2 end|while b do while d do p0|while b do if d then p0 else i := 1|while not b do i := i + 1
repeat until b|repeat i := 1 until b|repeat i := 1 ; until b|repeat i := 1 ; j := 2 until b|repeat ; ; until b|repeat i := 1 j := 2 until b|repeat i := 1|repeat until|repeat repeat p0 until b until d|repeat if b then p0 until d|repeat 5 : p0 until b|repeat i := 1 ; end
for i := 1 to 10 do p0|for i := 10 downto 1 do p0|for i := 1 to 10 do begin p0 ; j := i end|for i := j + 1 to k * 2 do p0|for i in u do p0|for i in [ 1 , 2 ] do p0|for i in a do p0|for ee := aa to cc do p0|for c := 'a' to 'z' do p0|for i := 1 to do p0|for i := to 3 do p0|for := 1 to 3 do p0|for i 1 to 3 do p0|for i := 1 do p0|for i := 1 to 3 p0|for i := 1 to 3 do|for x := 1 to 3 do p0|for a [ 1 ] := 1 to 3 do p0|for r . x := 1 to 3 do p0|for zork := 1 to 3 do p0|for fn := 1 to 3 do p0|for aa := 1 to 3 do p0|for i := 1 to 2 do for j := 3 downto 4 do p0|for i = 1 to 3 do p0|for i in j do p0|for i := 1 to 10 do ;|for s := 1 to 2 do p0
case i of 1 : p0 end|case i of 1 : p0 ; 2 : i := 3 end|case i of 1 , 2 : p0 ; 3 .. 5 : i := 3 ; end|case i of 1 : p0 else i := 2 end|case i of 1 : p0 ; else i := 2 end|case i of 1 : p0 ; otherwise i := 2 ; end|case i of 1 : p0 otherwise i := 2 end|case i of 1 : p0 ; otherwise : i := 2 end|case i of end|case i of 1 : end|case i of : p0 end|case i 1 : p0 end|case of 1 : p0 end|case i of 1 p0 end|case i of 1 : p0|case c of 'a' : p0 ; 'b' .. 'd' : i := 1 end|case ee of aa : p0 ; bb , cc : i := 1 end|case b of true : p0 ; false : i := 1 end|case i of aa : p0 end|case i of 'a' : p0 end|case i of 1.5 : p0 end|case x of 1 : p0 end|case s of "a" : p0 end|case i of - 1 : p0 ; - 5 .. - 3 : i := 2 end|case i of 1 : p0 ; 1 : i := 2 end|case i of 5 .. 3 : p0 end|case i of 1 : begin p0 ; i := 2 end ; 2 : if b then p0 else i := 3 end|case i of 1 : case j of 2 : p0 ; else i := 1 end ; else j := 2 end|case i of maxint : p0 end|case i of 1 + 1 : p0 end|case i of 1 .. : p0 end|case i of 1 , : p0 end|case i + 1 of 2 : p0 end|case i of otherwise p0 end|case i of else p0 end|case i of 1 : p0 ; else i := 2 ; 3 : j := 1 end|case i of 1 : p0 ; else i := 2 ; j := 3 end|case i of 1 : p0 ; otherwise i := 2 ; j := 3 end
goto 5|goto 7|goto|goto i|5 : p0|5 : ; p0|7 : p0|5 : 6 : p0|5 : p0 ; 5 : p0|5 p0|if b then goto 5 ; 5 : p0|goto 5 ; 5 :|begin 5 : p0 end
with r do x := 1|with r do begin x := 1 ; y := 2 end|with r , h do x := a|with r do x := y|with q ^ do x := 1|with q ^ , r do z := c|with ra [ i ] do x := 1|with i do x := 1|with zork do x := 1|with r do r . z := c|with r do with h do a := x|with h do p := 1|with h do q := c|with r x := 1|with do x := 1|with r do|with r , do x := 1|with o do d := 3|with o do m ( 3 )|with r do zork := 1|with r do i := x ; x := 1.0|with ra [ fn ( 3 ) ] do x := y
begin end|begin begin end end|begin i := 1 end|begin i := 1 ; end ; j := 2|begin i := 1|begin ; i := 1 ; ; end|begin i := 1 end j := 2|begin end end
write|writeln|write ( )|writeln ( )|writeln ( i )|writeln ( i , x , s )|writeln ( i : 5 )|writeln ( x : 5 : 2 )|writeln ( i : 5 : 2 )|writeln ( f )|writeln ( f , i )|write ( f , i : 3 , x : 4 : 1 )|write ( w , i )|write ( w , 3 )|writeln ( w , i )|writeln ( output , i )|writeln ( i : j + 1 : k )|writeln ( i :|writeln ( i|writeln i|writeln ( i , )|writeln ( , i )|writeln ( zork )|writeln ( "abc" )|writeln ( "a" , 'b' , c )|writeln ( b )|writeln ( ee )|writeln ( r )|writeln ( a )|writeln ( fn ( 3 ) )|writeln ( i := 3 )|writeln ( i + j : 4 )|writeln ( i = j )|writeln ( f : 3 )|write ( i , f )|writeln ( fn )|writeln ( p0 )|writeln ( s [ 1 ] )|writeln ( p ^ )|writestr ( s , i )|writestr ( s , i : 3 , c )|writestr ( s )|writestr ( i , 3 )|writestr|writestr ( )
read|readln|read ( )|readln ( )|readln ( i )|read ( i , x , c )|read ( f , i )|readln ( f )|readln ( f , i , s )|read ( w , i )|readln ( w , i )|read ( input , i )|read ( 3 )|read ( i + 1 )|read ( a [ 1 ] , r . x , p ^ )|read ( zork )|read ( i|read i|read ( i , )|read ( fn )|read ( fn ( 3 ) )|read ( b )|read ( ee )|read ( r )|readstr ( s , i )|readstr ( s , i , j )|readstr ( s )|readstr ( i , j )|readstr|readstr ( "12" , i )|read ( i : 3 )
new ( p )|new ( q )|new ( i )|new|dispose ( p )|inc ( i )|inc ( i , 2 )|inc ( 3 )|dec ( ee )|assign ( f , "x" )|reset ( f )|rewrite ( f )|close ( f )|append ( f )|get ( f )|put ( w )|seek ( w , 3 )|halt|halt ( 1 )|val ( s , i )|str ( i , s )|delete ( s , 1 , 2 )|insert ( s , s2 , 1 )|page|page ( f )|pack ( a , 1 , a )|setrandseed ( 3 )|inc|abs ( i )|i := abs|i := eof
then|else|end|until|do|of|to|var|type|const|procedure|function|label|begin|.|,|:|)|]|( i ) := 3|[ 1 ] := 3|@ i := p|not b := b|- i := 3|"a" := s|nil := p|sizeof ( i ) := 3|fn ( 3 ) . x := 1""".replace("\n", "|").split("|")

def declared(W, s, names):
    W.full = True
    try:
        outs = []
        for n in names:
            o = W.lookup(s, n)
            outs.append("%s: %s" % (n, "<not declared>" if o is None else W.tree(s, o, 9)))
        return "\n".join(outs)
    finally:
        W.full = False

def decl(fn, src, names, *args):
    """A declaration part: what the names stand for."""
    def f():
        W = world()
        r = W.parse(src + " begin", fn, *args)
        return W.outcomes(r, lambda v, s: declared(W, s, names) + ("" if v is NULL or v is VOID else "\n" + W.tree(s, v)) + rest(W, s)), W.meta("parser.cpp %s: %s" % (fn, src))
    return f

TYPEFORMS = """integer|char|real|boolean|longint|text|complex|e|arr|zork|3|( xx , yy )|( xx )|( )|( xx , xx )|( aa , xx )|( xx , )|1 .. 5|aa .. cc|'a' .. 'z'|- 3 .. 3
array [ 1 .. 3 ] of integer|array [ 1 .. 3 , 0 .. 2 ] of real|array [ 1 .. 3 ] of array [ 0 .. 2 ] of real|array [ boolean ] of char|array [ char ] of integer|array [ e ] of arr|array [ aa .. bb ] of e|array [ 1 .. 3 , e , 'a' .. 'c' ] of integer|packed array [ 1 .. 3 ] of char|array [ ( xx , yy ) ] of integer|array of integer|array [ ] of integer|array [ 3 ] of integer|array [ 1 .. 3 of integer|array [ 1 .. 3 ] integer|array [ 1 .. 3 ] of|array [ 1 .. ] of integer|array [ real ] of integer|array [ 3 .. 1 ] of integer|array [ integer ] of integer
record x : integer end|record x , y : integer ; z : char end|record x : integer ; end|record end|record x : integer ; x : char end|record x , x : char end|record x : integer y : char end|record x integer end|record x : end|record : integer end|record x : integer|record x : record y : integer end ; y : char end|packed record x : integer end|record x : node ; y : arr end|record x : zork end|record x : ( uu , vv ) end|record x : integer value 3 ; y : real end|record x : ^ integer end|record X : integer ; x : char end
record case boolean of true : ( x : integer ) ; false : ( y : real ) end|record a : integer ; case t : boolean of true : ( x : integer ; z : char ) ; false : ( ) end|record case t : e of aa , bb : ( x : integer ) ; cc : ( y : array [ 1 .. 20 ] of char ) ; end|record case t : integer of 1 : ( x : integer ) ; 1 : ( y : char ) end|record case zork of 1 : ( x : integer ) end|record case t : boolean of true ( x : integer ) end|record case t : boolean of true : x : integer end|record case t : boolean of true : ( x : integer end|record case t : boolean true : ( x : integer ) end|record case e of aa : ( x : integer ; case boolean of true : ( q : char ) ; false : ( w : real ) ) ; bb : ( ) end|record a : integer ; case t : boolean of true : ( a : char ) end|record case t : boolean of true : ( x : integer ) ; false : ( x : char ) end|record case t : e of aa : ( x : char ) ; bb : ( y : integer ) ; cc : ( z : real ) end|record case t : e of aa .. bb : ( x : char ) ; otherwise ( y : integer ) end|record case boolean of true : ( x : integer ) ; false : ( y : real ) end ; a : integer end
set of 0 .. 9|set of char|set of e|set of boolean|set of ( xx , yy )|set of 1 .. 3|set of integer|set of real|set of|set 1 .. 3|packed set of 0 .. 3|set of 0 .. 255|set of - 1 .. 3|set of 0 .. 100000
file of integer|file of char|file of node|file|file of|file of zork|packed file of real|file of text|^ integer|^ zork|^ node|@ integer|^|^ 3|^ ^ integer|^ array [ 1 .. 3 ] of integer|^ record x : integer end
string|string [ 10 ]|string ( 10 )|string [ 0 ]|string [ 255 ]|string [ 256 ]|string [ x ]|string [|string [ 10|function : integer|function ( n : integer ) : real|procedure|procedure ( var n : integer )|function|function ( n : integer )|procedure ( n : integer ) : char|class d : integer ; procedure m end|restricted integer|integer value 3|arr value [ 1 : 3 ; otherwise 0 ]|node value [ x : 1 ; y : 2 ]|integer value|integer value 'c'|char value 'c'|st8 value [ 1 , 2 ]|ptr value nil|ptr value 3|st value "abc"|array [ 1 .. 3 ] of char value "abc"|real value 1.5|e value bb|boolean value true|arr value 3""".replace("\n", "|").split("|")
PARAMS = """|( n : integer )|( n , m : integer )|( n : integer ; m : char )|( var n : integer )|( var n , m : integer ; x : real )|( n : integer ; var m : char ; x , y : real )|( protected n : integer )|( protected var n : node )|( n : arr )|( var n : arr )|( n : zork )|( n )|( n : )|( : integer )|( n : integer|( n integer )|( n : integer , m : char )|( n : integer ; )|( ; n : integer )|( )|( n : integer ; n : char )|( n , n : integer )|( n : integer m : char )|( var )|( n , var m : integer )|( n : array [ lo .. hi : integer ] of real )|( var n : array [ lo .. hi : integer ] of real )|( n : array [ lo .. hi : integer ; l2 .. h2 : char ] of real )|( n , m : array [ lo .. hi : e ] of integer )|( function f ( n : integer ) : integer )|( procedure f )|( procedure f ( var n : integer ) ; m : integer )|( function f : real ; function g : char )|( function f )|( function fn ( n : integer ) : integer )|( n : string )|( n : ^ integer )|( n : 1 .. 3 )|( n : ( xx , yy ) )|( n : set of char )|( var f : text )|( f : text )|( var n : fi )|( N : integer ; n : char )""".split("|")
DEFS = [("g", x) for x in """function g : integer ; begin g := 1 end ;|function g : integer ; forward ;|function g ; begin end ;|procedure g : integer ; begin end ;|function g : zork ; begin end ;|function g : 3 ; begin end ;|function g = res : integer ; begin res := 3 end ;|function g = res : integer ; begin g := 3 end ;|function g : integer ; begin g := g end ;|function g ( n : integer ) : integer ; begin if n = 0 then g := 1 else g := n * g ( n - 1 ) end ;
procedure g ; begin end|procedure g ; begin end . ;|procedure ; begin end ;|procedure g begin end ;|procedure g ; ;|procedure g ; inline ; begin end ;|procedure g ; forward ; begin end ;|procedure g ; var x : integer ; begin x := 1 end ;|procedure g ; const z = 3 ; begin i := z end ;|procedure g ; type t = char ; var x : t ; begin x := 'a' end ;|procedure g ; label 9 ; begin goto 9 ; 9 : end ;|procedure g ; label 9 ; begin goto 9 end ;|procedure g ; begin goto 5 end ;|procedure g ; begin 5 : end ;|procedure g ; label 5 ; begin 5 : end ;|procedure g ; var i : char ; begin i := 'a' end ;|procedure g ; var x : integer ; x : char ; begin end ;|procedure g ( i : real ) ; begin i := 1.5 end ;|procedure g ( n : integer ) ; var n : char ; begin end ;|procedure g ; var g : integer ; begin g := 3 end ;
procedure g ; procedure h ; begin i := 1 end ; begin h end ;|procedure g ; var x : integer ; procedure h ; begin x := 1 end ; begin h end ;|procedure g ; procedure h ( n : integer ) ; procedure k ; begin n := i end ; begin k end ; var z : char ; begin h ( 2 ) ; z := 'a' end ;|procedure g ; procedure h ; begin g end ; begin h end ;|procedure g ; procedure g ; begin end ; begin g end ;|procedure g ; procedure h ; forward ; procedure q ; begin h end ; procedure h ; begin q end ; begin q end ;|procedure g ; procedure p0 ; begin end ; begin p0 end ;|procedure g ; procedure fn ; begin end ; begin end ;|procedure g ; begin h end ;|procedure g ; procedure h ; begin end ;|procedure g ; function h : integer ; begin h := 3 end ; begin i := h end ;
procedure g ; begin x := q ^ . x end ;|procedure g ( function f ( n : integer ) : integer ) ; begin i := f ( 3 ) end ;|procedure g ( function f : integer ) ; begin i := f end ;|procedure g ( procedure f ) ; begin f ; f end ;|procedure g ( a : array [ lo .. hi : integer ] of real ) ; begin x := a [ lo ] ; i := hi end ;|procedure g ( var z : st ) ; begin z := "a" end ;|procedure g ( protected n : integer ) ; begin i := n end ;|function g : node ; begin g . x := 3 end ;|function g : arr ; begin g [ 1 ] := 3 end ;|function g : ptr ; begin new ( g ) end ;|procedure cls . m ( n : integer ) ; begin d := n end ;|function cls . g : integer ; begin g := d end ;|procedure cls . zork ; begin end ;|procedure cls . m ; begin end ;|procedure zork . m ; begin end ;|procedure cls . ; begin end ;|function cls . g : char ; begin end ;|function cls . g : integer ; begin g := d + g end ;|procedure cls . m ( n : integer ) ; begin self . d := n ; m ( 3 ) end ;""".replace("\n", "|").split("|")]
DEFS += [("fn", x) for x in """function fn ; begin fn := n end ;|function fn ( n : integer ) : integer ; begin fn := n end ;|function fn ( m : integer ) : integer ; begin fn := m end ;|function fn ( n : char ) : integer ; begin fn := 1 end ;|function fn ( var n : integer ) : integer ; begin fn := 1 end ;|function fn ( n , m : integer ) : integer ; begin fn := n end ;|function fn : integer ; begin fn := 1 end ;|function fn ( n : integer ) : char ; begin fn := 'a' end ;|procedure fn ( n : integer ) ; begin end ;|procedure fn ; begin end ;|function fn ( n : integer ) : integer ; forward ;|function fn ; forward ;|function FN ; begin fn := n end ;|function fn ; begin FN := N end ;|procedure p0 ; begin end ;|procedure p0 ( n : integer ) ; begin end ;|function p0 : integer ; begin end ;|procedure pr ; begin v := n end ;""".split("|")]
PROGRAMS = """program p ; begin end .|program p ( input , output ) ; begin end .|program p ( ) ; begin end .|program p ( input ; begin end .|program ; begin end .|program p begin end .|begin end .|program p ; begin end|program p ; begin end ;|program p ; end .|program p ; begin end . zork|program p ; var i : integer ; begin i := 1 end .|program p ; const c = 3 ; type t = 1 .. c ; var i : t ; begin i := c end .|program p ; var i : integer ; const c = 3 ; var j : char ; begin i := c ; j := 'a' end .|program p ; label 1 ; begin goto 1 ; 1 : end .|program p ; label 1 ; begin end .|program p ; label 1 ; begin goto 1 end .|program p ; label 1 , 1 ; begin 1 : end .|program p ; label ; begin end .|program p ; label 1 begin end .|program p ; label x ; begin end .
program p ; procedure q ; begin end ; begin q end .|program p ; function f ( n : integer ) : integer ; begin f := n end ; begin writeln ( f ( 3 ) ) end .|program p ; procedure q ; forward ; procedure r ; begin q end ; procedure q ; begin r end ; begin q end .|program p ; procedure q ; forward ; begin q end .|program p ; procedure q ; begin end ; procedure q ; begin end ; begin end .|program p ; var q : integer ; procedure q ; begin end ; begin end .|program p ; procedure a ; forward ; procedure b ; procedure a ; begin end ; begin a end ; procedure a ; begin b end ; begin a end .|program p ; function f ( n : integer ) : integer ; forward ; procedure g ( function f ( n : integer ) : integer ) ; begin n := f ( 3 ) end ; function f ; begin f := n end ; begin end .|program p ; function f ( n : integer ) : integer ; forward ; procedure g ( function f ( n : integer ) : integer ) ; begin writeln ( f ( 3 ) ) end ; function f ; begin f := n end ; begin g ( f ) end .|program p ; procedure q ; begin q end ; begin Q end .
program p ; var x : integer ; procedure q ; var x : char ; begin x := 'a' end ; begin x := 1 end .|program p ; var x : integer ; procedure q ( x : char ) ; begin x := 'a' end ; begin q ( 'b' ) ; x := 1 end .|program p ; var x : integer ; x : char ; begin end .|program p ; var X : integer ; x : char ; begin end .|program p ; var integer : char ; begin integer := 'a' end .|program p ; var maxint : char ; begin maxint := 'a' end .|program p ; type real = integer ; var x : real ; begin x := 3 end .|program p ; var writeln : integer ; begin end .|program p ; var abs : integer ; begin abs := 3 end .|program p ; function abs ( n : integer ) : integer ; begin abs := n end ; begin writeln ( abs ( 3 ) ) end .|program p ; const true = 3 ; begin writeln ( true ) end .|program p ; var output : text ; begin writeln ( 3 ) end .|program p ; var input : integer ; begin read ( input ) end .|program p ; procedure q ; var output : text ; begin writeln ( 3 ) end ; begin q end .|program p ; var p : integer ; begin p := 3 end .|program p ; const pi = 3 ; begin writeln ( pi ) end .|program p ; var eof : boolean ; begin eof := true end .
program p ; procedure q ; const c = 1 ; begin end ; begin writeln ( c ) end .|program p ; procedure q ; type t = char ; begin end ; var x : t ; begin end .|program p ; procedure q ; procedure r ; begin end ; begin end ; begin r end .|program p ; procedure q ( n : integer ) ; begin end ; begin n := 1 end .|program p ; type t = ( a , b ) ; procedure q ; type u = ( a , c ) ; var z : u ; begin z := a end ; var z : t ; begin z := a end .|program p ; type t = ( a , b ) ; u = ( b , c ) ; begin end .|program p ; type r = record a : integer end ; var a : r ; begin a . a := 1 end .|program p ; type r = ^ s ; s = record n : r end ; begin end .|program p ; type r = ^ s ; begin end .|program p ; type r = ^ s ; type s = char ; begin end .|program p ; type s = char ; procedure q ; type r = ^ s ; s = integer ; var v : r ; begin v ^ := 3 end ; begin end .|program p ; type t = array [ 1 .. 3 ] of t ; begin end .|program p ; const c = c ; begin end .|program p ; type t = t ; begin end .|program p ; var x : x ; begin end .|program p ; procedure q ; begin exit end ; begin end .
program p ; function f : integer ; function g : integer ; begin f := 2 ; g := 3 end ; begin f := g end ; begin writeln ( f ) end .|program p ; function f : integer ; begin f := 1 end ; begin f := 3 end .|program p ; function f : integer ; begin f := 1 end ; procedure q ; begin f := 2 end ; begin end .|program p ; procedure q ; begin q := 3 end ; begin end .|program p ; type c = class n : integer ; procedure m ; virtual ; end ; d = class ( c ) procedure m ; override ; end ; var x : d ; procedure c . m ; begin n := 1 end ; procedure d . m ; begin n := 2 end ; begin x . m end .|program p ; type c = class procedure m end ; begin end .|program p ; type c = class n : integer ; function f : integer ; end ; function c . f : integer ; begin f := n end ; var x : c ; begin writeln ( x . f ) end .|program p ; type c = class private n : integer ; end ; var x : c ; begin x . n := 1 end .|program p ; type c = class static n : integer ; end ; begin end .|program p ; uses math ; begin end .|program p ; uses ; begin end .|program p ; import a ; b ; begin end .|program p ; if b then ; begin end .|program p ; var ; begin end .|program p ; type ; begin end .|program p ; const ; begin end .|program p ; var x ; begin end .|program p ; begin end . begin end .""".replace("\n", "|").split("|")
UNITS = """unit u ; interface implementation end .|unit u ; interface implementation begin end .|unit u ; interface procedure q ; implementation procedure q ; begin end ; end .|unit u ; interface function f ( n : integer ) : integer ; implementation function f ; begin f := n end ; begin writeln ( f ( 3 ) ) end .|unit u ; interface function f ( n : integer ) : integer ; implementation function f ( n : integer ) : integer ; begin f := n end ; end .|unit u ; interface procedure q ; implementation end .|unit u ; interface var x : integer ; implementation procedure q ; begin x := 1 end ; end .|unit u ; interface type t = ( a , b ) ; var x : t ; implementation begin x := b end .|unit u ; interface implementation var x : integer ; begin x := 1 end .|unit u ; implementation end .|unit u ; begin end .|unit u ; end .|unit u ; interface|unit u ; interface end .|unit ; interface implementation end .|program u ; interface implementation begin end .|unit u ; interface procedure q ; procedure q ; implementation end .|unit u ; interface const c = 3 ; implementation end .|unit u ; interface procedure q ; var x : integer ; function f : char ; implementation procedure q ; begin end ; function f ; begin f := 'a' end ; end .""".split("|")

def whole(src, kind):
    def f():
        if "w" not in WHOLE:
            WHOLE["w"] = Tree()
            WHOLE["w"].builtins()
        W = WHOLE["w"].clone()
        W.toks = W.lex(src)
        W.st.set("#tok", "i", 0)
        W.st.set("#tok", "err", 0)
        r = W.run("Parser::Parse", W.P, (kind,))
        return W.outcomes(r, lambda v, s: "<nothing, no diagnostic>" if v is NULL else W.tree(s, v, 12)), W.meta("parser.cpp Parse: %s" % src)
    return f
WHOLE = {}

def mutate(src):
    """The text with one token left out, twice, or all from there on left out."""
    t = src.split()
    for i in range(len(t)):
        yield " ".join(t[:i] + t[i + 1:])
        yield " ".join(t[:i + 1] + t[i:])
        if i:
            yield " ".join(t[:i])

def cases():
    c = {}
    def add(kind, src, fn):
        c["%s: %s" % (kind, " ".join(src.split()))] = fn(src)
    for a, b in itertools.product(BIN, BIN):
        add("pair", "i %s j %s k" % (a, b), expr)
    for a, b, d in itertools.product("+ * and pow < or".split(), repeat=3):
        add("three", "i %s j %s k %s l" % (a, b, d), expr)
    for a in BIN:
        for u in ("-", "+", "not"):
            add("unary", "%s i %s j" % (u, a), expr)
            add("unary", "i %s %s j" % (a, u), expr)
            add("unary", "i %s %s j %s k" % (a, u, a), expr)
        add("paren", "( i %s j ) %s k" % (a, a), expr)
        add("paren", "i %s ( j %s k )" % (a, a), expr)
        add("paren", "i + ( j %s k ) + l" % a, expr)
        for x in ("fn ( i ) %s a [ j ]", "p ^ %s r . x", "i %s", "%s i", "i %s )", "f0 %s f0", "i %s %s j", "'c' %s s", "q ^ . x %s i", "aa %s bb", "12 %s 1.5", "true %s false", "[ 1 ] %s u"):
            add("operand", x.replace("%s", a), expr)
    for x in EXPRS:
        add("expr", x, expr)
    for x in STATEMENTS:
        add("stmt", x, statement)
    for x in TYPEFORMS:
        add("type", x, lambda x: decl("Parser::ParseTypeDef", "type t = %s ;" % x, ["t", "xx"]))
        add("var", x, lambda x: decl("Parser::ParseVarDecls", "var v1 , v2 : %s ;" % x, ["v1", "v2"]))
    for x in PARAMS:
        for w, r in (("procedure", ""), ("function", ": integer")):
            add("params", "%s g %s %s ; forward ;" % (w, x, r), lambda x: decl("Parser::ParseDefinition", x, ["g"], 1))
    for n, x in DEFS:
        add("def", x, lambda x: decl("Parser::ParseDefinition", x, [n], 1))
    for x in PROGRAMS:
        add("prog", x, lambda x: whole(x, 0))
    for x in UNITS:
        add("unit", x, lambda x: whole(x, 1))
    return c

EXPLAIN = ("The parser is interpreted abstractly from the current source on token lists (names stand for declared things of each type, literals and names carry no run-time values), with the name table made by its own "
           "declaration parsing: all pairs of binary operators, operands of every form, statements in every nesting, declarations and units. The tree it builds - operators with their operands, statements with their parts - or the "
           "rejection of the text is compared with the reviewed table spec/C23.json.")
RULE = "One obligation per text: the derived structure is the specified one. Non-trivial: distinct structures."
def main(argv):
    return runner.table_check("C23", "c23", argv, EXPLAIN, RULE)
