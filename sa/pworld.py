"""Abstract worlds for analysing the parser: a token list instead of the lexer, the real name table, and tree rendering."""
from .world import *
import copy, re

def local(t):
    """Addresses of locals are written without their place in the source."""
    return re.sub(r"<'c', fr\(\d+\), \d+>", "local", t) if isinstance(t, str) else t

_WORDS = {}
def words(p):
    """Spelling -> token kind, from the table in token.cpp."""
    if p.kind not in _WORDS:
        W = World(p)
        fn = p.fn("Token::KeyWordToToken")
        _WORDS[p.kind] = (W, fn, {})
    return _WORDS[p.kind]

PUNCT = {"+": "Plus", "-": "Minus", "*": "Multiply", "/": "Divide", "**": "Power", "<": "LessThan", "<=": "LessOrEqual", ">": "GreaterThan", ">=": "GreaterOrEqual",
         "=": "Equal", "<>": "NotEqual", "><": "SymDiff", ":=": "Assign", "(": "LeftParen", ")": "RightParen", "[": "LeftSquare", "]": "RightSquare", ",": "Comma",
         ";": "Semicolon", ":": "Colon", ".": "Period", "..": "DotDot", "^": "Uparrow", "@": "At", "$eof": "EndOfFile", "$unknown": "Unknown"}
WORDS = """And And_Then Array Begin Bindable Case Class Const Constructor Default Destructor Div Do Downto Else End File For Forward Function Goto If Implementation
Import In Inline Interface Label Mod Module Nil Not Of Or Or_Else Otherwise Override Packed Pow Private Procedure Program Protected Public Read Readln ReadStr Record Repeat
Restricted Set Shl Shr SizeOf Static String Then To Type Unit Until Uses Value Var Virtual While With Write Writeln WriteStr Xor""".split()
KEYW = {w.lower(): w for w in WORDS}
KEYW["object"] = "Class"

class PWorld(World):
    """Tokens are given as text: names, key words and punctuation; 12 and 1.5 are literals; #x an integer token of unknown value x; %x a real one;
    'c' a character; "s" a string."""
    def __init__(self, src="", **kw):
        kw.setdefault("unroll", 400)
        super().__init__(program("cxx"), **kw)
        self.I.maxrec = 12
        self.I.maxdepth = 120
        self.I.hook = self.hook
        self.I.presets["caseInsensitive"] = 1
        self.toks = self.lex(src)
        self.P = self.parser()
    def parser(self):
        P = self.I.newobj(self.st, "Parser")
        cs = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == "Parser" and len(f["p"]) == 1 and "Source" in f["p"][0]["t"]]
        if len(cs) != 1:
            raise AnalysisError("constructor of Parser: %d" % len(cs))
        self.invoke(cs[0], P, (sym("source"),))
        self.st.set(P, "__cls", "Parser")
        return P
    def builtins(self):
        """The table of predefined routines, as InitBuiltins makes it."""
        self.preset(**{"Builtin::BIFMap": mk("map")})
        self.invoke(self.p.fn("Builtin::InitBuiltins"), None)
        self.st.eff = None
    def lex(self, src):
        out = []
        i = 0
        for w in src.split():
            out.append(w)
        return out
    def token(self, s, i):
        o = self.I.newobj(s, "Token")
        w = self.toks[i] if i < len(self.toks) else "$eof"
        f = {"intVal": 0, "realVal": 0.0, "strVal": ""}
        if w in PUNCT:
            k = PUNCT[w]
        elif w.lower() in KEYW:
            k = KEYW[w.lower()]
        elif w[0] == "#":
            k, f["intVal"] = "Integer", sym("int:" + w[1:])
        elif w[0] == "%":
            k, f["realVal"] = "Real", sym("real:" + w[1:])
        elif w[0] == '"':
            k, f["strVal"] = "StringLiteral", w[1:-1]
        elif w[0] == "'":
            k, f["intVal"] = "Char", ord(w[1])
        elif w[0].isdigit():
            if w.isdigit():
                k, f["intVal"] = "Integer", int(w)
            else:
                k, f["realVal"] = "Real", float(w)
        else:
            k, f["strVal"] = "Identifier", w
        f["type"] = self.p.enumconst["Token::TokenType::" + k]
        for a, b in f.items():
            self.need("Token", a)
            s.set(o, a, b)
        return o
    def hook(self, I, n, f, o, vs, st):
        nm = f["n"]
        if nm == "Lexer::GetToken":
            i = st.get("#tok", "i") or 0
            st.set("#tok", "i", i + 1)
            if i > len(self.toks) + 40:
                st.add("endless", (), None)
                I.exits.append(("x", st))
                return []
            return [(self.token(st, i), st)]
        if nm == "Parser::PrintError":
            st.add("diag", (I.val(st, vs[3]),), None)
            k = (st.get("#tok", "err") or 0) + 1
            st.set("#tok", "err", k)
            if k > 30:
                I.exits.append(("x", st))
                return []
            return [(VOID, st)]
        return None
    def begin(self):
        """Reads the first token, as Parse does."""
        fs = [f for f in self.p.fns.values() if f["n"] == "Parser::NextToken"]
        if len(fs) != 1:
            raise AnalysisError("Parser::NextToken")
        self.invoke(fs[0], self.P, tuple(["f", 0][:len(fs[0]["p"])]))
    def define(self, cls, name, *args):
        o = self.make(cls, name, *args)
        fs = [f for f in self.p.fns.values() if f["n"].startswith("Stack<") and f["n"].endswith(">::Add") and len(f["p"]) == 2 and "NamedObject" in f["n"]]
        if len(fs) != 1:
            raise AnalysisError("Stack::Add: %d" % len(fs))
        self.invoke(fs[0], self.st.get(self.P, "nameStack"), (name, o))
        return o
    def lookup(self, s, name):
        v = s.get(s.get(self.P, "nameStack"), "stack")
        for m in reversed(v.a):
            for e in m.a:
                if e[0] == name:
                    return e[1]
        return None
    def clone(self):
        """An independent world in the same state."""
        W = self.__class__.__new__(self.__class__)
        W.__dict__.update(self.__dict__)
        W.st = self.st.copy()
        W.tcache = dict(self.tcache)
        W.I = copy.copy(self.I)
        W.I.presets = dict(self.I.presets)
        W.I.unknown, W.I.rtcalls, W.I.visited, W.I.exits = {}, set(), set(), []
        W.I.hook = W.hook
        W.problems = []
        return W
    def parse(self, src, fn, *args):
        """Runs a parser method on (more) source text from the current state: [(kind, value, state)]."""
        self.toks = self.lex(src)
        self.st.set("#tok", "i", 0)
        self.st.set("#tok", "err", 0)
        self.st.set(self.P, "nextTokenValid", 0)
        self.begin()
        return self.run(fn, self.P, args)
    def prelude(self, src, fn, *args):
        """Declarations that are accepted, whose effect on the name table stays."""
        r = self.parse(src, fn, *args)
        if len(r) != 1 or r[0][0] != "r" or self.diags(r[0][2]):
            raise AnalysisError("prelude %r: %s" % (src[:60], [(k, self.diags(s)) for k, v, s in r][:3]))
        self.adopt(r[0][2])
        self.st.eff = None
        return r[0][1]
    def diags(self, s):
        return [e[1][0] for e in s.effects() if e[0] == "diag"]
    # ---- rendering
    def cname(self, c):
        if c is None:
            return "?"
        if "ConstDeclBase<" in c:
            return c.split("CK_")[-1].rstrip(">").replace("ConstDecl", "Const")
        c = c.replace("Types::", "").replace("Constants::", "")
        return c.replace("IntegerXDecl<32, TypeDecl::TK_Integer>", "Int32").replace("IntegerXDecl<64, TypeDecl::TK_LongInt>", "Int64")
    HIDE = {"__cls", "__proto", "loc", "where", "kind", "ltype", "debugType", "llvmType", "endLoc", "opt", "opaqueType", "structType"}
    ALIAS = {}
    def tree(self, s, v, depth=6, seen=()):
        """A canonical text of an object graph: classes, values, names; types by structure."""
        if isinstance(v, str):
            return repr(v)
        if not isinstance(v, T):
            return repr(v)
        if v is NULL:
            return "nil"
        if v.op in ("vec",):
            return "[" + ", ".join(self.tree(s, x, depth, seen) for x in v.a) + "]"
        if v.op in ("pair", "tuple"):
            return "(" + ", ".join(self.tree(s, x, depth, seen) for x in v.a) + ")"
        if v.op == "map":
            return "{" + ", ".join("%s: %s" % (self.tree(s, a, depth, seen), self.tree(s, b, depth, seen)) for a, b in v.a) + "}"
        c = self.I.cls(s, v)
        if c is None or v.op != "obj":
            from . import runner
            return runner.plain(v)
        if v in seen:
            return "<%s up %d>" % (self.cname(c), len(seen) - 1 - seen.index(v))
        if depth <= 0:
            return self.cname(c) + "{..}"
        seen = seen + (v,)
        fs = []
        d = s.h.get(v) or {}
        names = [x["n"] for x in self.p.allfields(c)] if c in self.p.classes else sorted(x for x in d if isinstance(x, str))
        for k in names:
            if k in self.HIDE:
                continue
            x = d.get(k)
            if isinstance(x, T) and self.I.cls(s, x) == "Location":
                continue
            if x is None or x is NULL or x == 0 or x == "" or (isinstance(x, T) and x.op in ("vec", "map") and not x.a):
                fs.append("-")
            else:
                fs.append(self.tree(s, x, depth - 1, seen))
        while fs and fs[-1] == "-":
            fs.pop()
        return self.cname(c) + ("(" + ", ".join(fs) + ")" if fs else "")
    def outcomes(self, res, text):
        """Outcome table of parser results: <rejected> with a diagnostic, text(value, state) otherwise."""
        from . import runner
        outs = []
        for k, v, s in res:
            f = runner.fact_text(s, runner.plain)
            if k == "x":
                outs.append(("<does not end>" if any(e[0] == "endless" for e in s.effects()) else "<internal error>", f))
            elif self.diags(s):
                outs.append(("<rejected>", f))
            else:
                outs.append((local(text(v, s)), f))
        return runner.compact(outs) if outs else [("<does not end>", [])]
