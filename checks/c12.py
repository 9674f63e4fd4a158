"""C12: constant expressions. Every operator, function and form of operand over the constant kinds, precedence and association, and the uses of constants."""
from sa.pworld import *
from sa import runner
import itertools

# operand kinds: how they are written, several spellings of the integer kind to see signs and zero
OPERANDS = {"int": "#a", "real": "%a", "char": "'c'", "str": "\"ab\"", "bool": "true", "enum": "bb", "set": "[ 1 , 3 ]", "compound": "cp", "const int": "mi",
            "const real": "mr", "const char": "mc", "const str": "ms", "const bool": "mf", "const enum": "mk", "const set": "mset", "unknown": "zork", "type": "integer", "paren": "( #a )"}
SECOND = {k: v.replace("#a", "#b").replace("%a", "%b") for k, v in OPERANDS.items()}
BIN = "+ - * / ** div mod and or xor shl shr pow >< < <= > >= = <> in := and_then or_else not".split()
INTOPS = "+ - * div mod and or xor shl shr pow".split()
FUNCS = "chr succ pred ord length sin cos ln exp frac int trunc round odd sizeof abs zork".split()

_base = []
def world():
    if not _base:
        W = PWorld()
        W.builtins()
        W.prelude("type e = ( aa , bb , cc ) ; ty = array [ 1 .. 3 ] of char ; begin", "Parser::ParseTypeDef")
        for d in ("mi = #mi", "mr = %mr", "mc = 'd'", "ms = \"xy\"", "mf = false", "mk = cc", "mset = [ 2 , 4 .. 6 ]", "cp = integer 5"):
            W.prelude("const %s ; begin" % d, "Parser::ParseConstDef")
        _base.append(W)
    return _base[0].clone()

def const(src):
    def f():
        W = world()
        r = W.parse("const a = %s ; begin" % src, "Parser::ParseConstDef")
        def text(v, s):
            o = W.lookup(s, "a")
            if o is None:
                return "<no constant, no diagnostic>"
            return W.tree(s, s.get(o, "constVal"))
        return W.outcomes(r, text), W.meta("constants.cpp, parser.cpp ParseConst*: const a = %s" % src)
    return f

def decl(src):
    """The type of a variable."""
    def f():
        W = world()
        r = W.parse("var v : %s ; begin" % src, "Parser::ParseVarDecls")
        def text(v, s):
            o = W.lookup(s, "v")
            if o is None:
                return "<no variable, no diagnostic>"
            return W.tree(s, s.get(o, "type"))
        return W.outcomes(r, text), W.meta("parser.cpp ParseRange, ParseType: var v: %s" % src)
    return f

def expr(src):
    """A constant where an expression is expected."""
    def f():
        W = world()
        r = W.parse("%s ;" % src, "Parser::ParseExpression")
        def text(v, s):
            return "<no expression, no diagnostic>" if v is NULL else W.tree(s, v)
        return W.outcomes(r, text), W.meta("parser.cpp ParseExprElement: %s" % src)
    return f

def cases():
    c = {}
    def add(src):
        c["const " + src] = const(src)
    for k in OPERANDS.values():
        add(k)
        for u in ("-", "+", "not"):
            add("%s %s" % (u, k))
            add("%s ( %s )" % (u, k))
        add("( %s )" % k)
    for w in ("maxint", "maxchar", "pi", "maxreal", "MaxInt", "TRUE", "Mi", "sizeof ( integer )", "sizeof ( ty )", "sizeof ( char )", "sizeof ( real )", "sizeof ( longint )", "- sizeof ( integer )",
              "not sizeof ( integer )", "sizeof ( zork )", "sizeof ( 3"):
        add(w)
    for op in BIN:
        for (n1, a), (n2, b) in itertools.product(OPERANDS.items(), SECOND.items()):
            if n1 in ("unknown", "type", "paren", "const str", "const char", "const set") and n2 not in ("int", "unknown") or n1.startswith("const") and n2.startswith("const") and op not in "+-*/":
                continue
            add("%s %s %s" % (a, op, b))
    for a, op, b in itertools.product(("7", "- 7", "0", "2147483647"), "div mod / shr shl pow **".split(), ("2", "- 2", "0", "( - 2 )", "( - 1 )", "1", "31", "32", "64")):
        add("%s %s %s" % (a, op, b))
    for x in ("1.5 / 0", "1.5 / 0.0", "%a / 0.0", "0.0 pow ( - 1 )", "2.0 pow 3", "2.0 pow ( - 3 )", "( - 2 ) pow 3", "( - 2 ) ** 3", "0 pow 0", "0 ** 0", "( 0 - 9223372036854775807 - 1 ) div ( - 1 )",
              "( 0 - 9223372036854775807 - 1 ) mod ( - 1 )", "2147483647 + 1", "- 2147483648", "- 5000000000", "not 0"):
        add(x)
    for a, b in itertools.product(INTOPS, INTOPS):
        add("#a %s #b %s #c" % (a, b))
    for a, b, d in itertools.product("+ - * div pow".split(), repeat=3):
        add("#a %s #b %s #c %s #d" % (a, b, d))
    for a, b in itertools.product("+ - * / **".split(), repeat=2):
        add("%%a %s %%b %s %%c" % (a, b))
        add("#a %s ( #b %s #c )" % (a, b))
        add("( #a %s #b ) %s #c" % (a, b))
        add("- #a %s #b %s #c" % (a, b))
    for op in INTOPS + ["/", "**"]:
        add("- #a %s #b" % op)
        add("#a %s - #b" % op)
        add("not #a %s #b" % op)
        add("#a %s not #b" % op)
        add("#a %s" % op)
        add("#a %s ( #b %s #c" % (op, op))
        add("#a %s #b #c" % op)
        add("#a %s %s #b" % (op, op))
        add("#a %s zork %s #b" % (op, op))
        add("#a < #b %s #c" % op)
    for fn in FUNCS:
        for k in OPERANDS.values():
            if fn != "sizeof":
                add("%s ( %s )" % (fn, k))
        add("%s ( )" % fn)
        add("%s" % fn)
        add("%s (" % fn)
        add("%s ( #a" % fn)
        add("%s ( #a , #b )" % fn)
        add("%s ( #a , 2 )" % fn)
        add("%s ( aa , 2 )" % fn)
        add("%s ( cc , 1 )" % fn)
        add("%s ( #a , %%b )" % fn)
        add("%s ( #a , #b , #c )" % fn)
        add("- %s ( #a )" % fn)
        add("%s ( #a ) + #b" % fn)
        add("#a * %s ( bb ) + #b" % fn)
        add("%s ( ord ( 'c' ) )" % fn)
        add("%s" % fn.upper() + " ( #a )")
    for x in ("succ ( aa )", "succ ( cc )", "pred ( aa )", "pred ( cc )", "chr ( 65 )", "chr ( 200 )", "ord ( chr ( 200 ) )", "trunc ( 2.7 )", "trunc ( - 2.7 )", "round ( 2.5 )", "round ( - 2.5 )",
              "trunc ( 1e300 )", "round ( 1e300 )", "ln ( 0.0 )", "ln ( - 1.0 )", "odd ( 3 )", "odd ( - 3 )", "odd ( 4 )", "length ( \"abc\" )", "frac ( %a )", "int ( %a )"):
        add(x)
    for x in ("[ ]", "[ #a ]", "[ 1 , 2 , 3 ]", "[ 1 .. 5 ]", "[ 5 .. 1 ]", "[ 'a' .. 'z' ]", "[ aa .. bb ]", "[ aa , bb ]", "[ 1 , 'a' ]", "[ 1 .. 'a' ]", "[ 1.5 ]", "[ 1.5 .. 2.5 ]", "[ \"ab\" ]",
              "[ zork ]", "[ 1 .. zork ]", "[ 1 , ]", "[ 1 .. ]", "[ 1", "[ mi ]", "[ mset ]", "[ cp ]", "[ 1 + 2 , 7 mod 4 ]", "[ 1 ] + [ 2 ]", "", "$eof", "begin", ", 3", ") 3", "$unknown", "3 , 4", "3 . 4", "3 .. 4"):
        add(x)
    for lo, hi in itertools.product(("1", "- 3", "'a'", "aa", "false", "1.5", "\"ab\"", "mi", "mc", "mk", "mr", "mset", "cp", "zork", "0", "1 + 1", "ord ( 'a' )"),
                                    ("9", "- 1", "'z'", "cc", "true", "2.5", "\"ab\"", "mi", "mc", "mk", "zork", "3000000000", "2 * 3", "cp")):
        c["range %s .. %s" % (lo, hi)] = decl("%s .. %s" % (lo, hi))
    for t in ("array [ 1 .. 5 ] of char", "array [ 'a' .. 'f' ] of char", "array [ 1.0 .. 2.0 ] of char", "array [ 1 .. 'a' ] of char", "array [ e ] of char", "set of 1 .. 5", "set of aa .. bb", "set of 1 .. 'a'",
              "string [ 10 ]", "string [ mi ]", "string [ 'a' ]", "string [ 2 + 3 * 4 ]", "string [ zork ]", "string [ 1.5 ]", "record k : 0 .. 9 ; j : aa .. bb ; end", "record k : 0 .. 9 end",
              "record case i : integer of 1 : ( x : integer ) ; mi : ( y : char ) ; end", "record case e of aa : ( x : integer ) ; mk : ( y : char ) ; end",
              "record case i : integer of - 1 : ( x : integer ) ; mr : ( y : char ) ; end", "record case i : integer of cp : ( x : integer ) ; end", "record case i : integer of mset : ( x : integer ) ; end",
              "record case i : integer of ms : ( x : integer ) ; end", "record case i : char of 'a' : ( x : integer ) ; mc : ( y : char ) ; end", "record case i : integer of - 'a' : ( x : integer ) ; end"):
        c["type " + t] = decl(t)
    for k in list(OPERANDS.values()) + ["maxint", "pi", "- mi", "- mr", "not mf", "mi + mi * mi", "3000000000", "5000000000", "- 5000000000", "MI"]:
        c["expr " + k] = expr(k)
    return c

EXPLAIN = ("The parser is interpreted abstractly from the current source on token lists in place of the lexer: number tokens carry unknown values, so that the value a declared constant gets is a term over them. "
           "Cases: every constant operator on every pair of constant kinds, all pairs and triples of operators without parentheses, unary operators, the evaluable functions with every kind and number of arguments, "
           "set constants, wrong forms, and the uses of constants as bounds, sizes, labels of variants and in expressions. The outcome (value, kind and type, <rejected> when a diagnostic was counted) is compared "
           "with the reviewed table spec/C12.json.")
RULE = ("One obligation per token list: every derivable outcome under a condition is the specified one. Accepting without a value, an internal error (abort, division by zero at compile time shows as a missing "
        "rejection) or a different term is a violation. Non-trivial: distinct summaries.")

def main(argv):
    program("cxx")
    return runner.table_check("C12", "c12", argv, EXPLAIN, RULE)
