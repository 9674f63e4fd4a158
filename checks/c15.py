"""C15: the lexer. Every first character, every punctuation followed by any character, key words, numbers, strings and comments in all their forms, and the token table."""
from sa.world import *
from sa import runner
import string

ANY = "\u2603"                  # any one character, or the end of the file

_base = []
def lexer():
    if not _base:
        W = World(program("cxx"), unroll=300)
        W.I.maxrec = 12
        p = W.p
        W.I.presets["caseInsensitive"] = 1
        L = W.I.newobj(W.st, "Lexer")
        cs = [f for f in p.fns.values() if f.get("ctor") and f.get("cls") == "Lexer" and len(f["p"]) == 1 and "Source" in f["p"][0]["t"]]
        if len(cs) != 1:
            raise AnalysisError("constructor of Lexer: %d" % len(cs))
        W.src = sym("source")
        W.invoke(cs[0], L, (W.src,))
        W.st.set(L, "__cls", "Lexer")
        W.L = L
        W.need("Token", "type")
        _base.append(W)
    import copy
    B = _base[0]
    W = World.__new__(World)
    W.__dict__.update(B.__dict__)
    W.st = B.st.copy()
    W.I = copy.copy(B.I)
    W.I.unknown, W.I.rtcalls, W.I.visited, W.I.exits = {}, set(), set(), []
    W.problems = []
    return W

NAMES = {}
def kinds(p):
    if not NAMES:
        for k, v in p.enumconst.items():
            if k.startswith("Token::TokenType::") and k.split("::")[-1] not in ("FirstComparison", "LastComparison"):
                NAMES.setdefault(v, k.split("::")[-1])
    return NAMES

def tokenlist(W, text, count=40):
    """The tokens of a text: [([(kind, value)], state)], one for each distinguishable choice of the unknown characters."""
    names = kinds(W.p)
    base = W.st.copy()
    def hook(I, n, f, o, vs, st):
        nm = f["n"]
        if nm.endswith("Source::Get"):
            i = st.get("#in", "i") or 0
            if i > len(text) + 20:
                st.add("endless", (), None)
                I.exits.append(("x", st))
                return []
            st.set("#in", "i", i + 1)
            if i >= len(text):
                return [(-1, st)]
            return [(sym("any%d" % i) if text[i] == ANY else ord(text[i]), st)]
        if nm.endswith("::operator Location"):
            l = I.newobj(st, "Location")
            for k, v in (("fname", "f.pas"), ("lineNum", 7), ("column", 3)):
                W.need("Location", k)
                st.set(l, k, v)
            return [(l, st)]
        return number(I, n, f, vs, st)
    W.I.hook = hook
    f = W.p.fn("Lexer::GetToken")
    outs = []
    def go(s0, toks):
        W.adopt(s0)
        for k, v, s in W.run(f, W.L, ()):
            if k == "x":
                outs.append((toks + [("<endless>" if any(e[0] == "endless" for e in s.effects()) else "<internal error>", None)], s))
                continue
            t = s.get(v, "type")
            kind = names.get(t) if isinstance(t, int) else runner.plain(t)
            x = None
            if kind in ("Identifier", "StringLiteral"):
                x = s.get(v, "strVal")
            elif kind in ("Integer", "Char"):
                x = s.get(v, "intVal")
            elif kind == "Real":
                x = s.get(v, "realVal")
            l2 = toks + [(str(kind), x)]
            if kind == "EndOfFile" or len(l2) >= count:
                outs.append((l2, s))
            else:
                go(s, l2)
    go(base, [])
    W.adopt(base)
    return outs

def show(v):
    return repr(v) if isinstance(v, (str, int, float)) else runner.plain(v)

def text(toks):
    return " ".join(k + ("(%s)" % show(x) if x is not None else "") for k, x in toks)

def tokens(src, count=40):
    def f():
        W = lexer()
        return runner.compact([(text(t), runner.fact_text(s, runner.plain)) for t, s in tokenlist(W, src, count)]), W.meta("lexer.cpp: %r" % src.replace(ANY, "?"))
    return f

def spans(l):
    """A sorted list of characters as ranges."""
    out = []
    for c in l:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    w = lambda c: "end" if c == 256 else chr(c) if 32 < c < 127 else "%02x" % c
    return " ".join(w(a) if a == b else w(a) + ".." + w(b) for a, b in out)

def first(a):
    """One character followed by each possible character or the end of the file: which tokens, for which characters."""
    def f():
        W = lexer()
        cl = {}
        for b in list(range(256)) + [256]:
            src = chr(a) + (chr(b) if b < 256 else "")
            rs = tokenlist(W, src)
            if len(rs) != 1:
                raise AnalysisError("%r: %d outcomes" % (src, len(rs)))
            t = []
            for k, x in rs[0][0]:
                if isinstance(x, str):
                    x = {src: "=", src[:1]: "=1", src[1:]: "=2"}.get(x, repr(x))
                elif isinstance(x, (int, float)):
                    x = "=" if str(x) == src else "=1" if src[:1] == str(x) else "=2" if src[1:] == str(x) else show(x)
                t.append(k + ("(%s)" % x if x is not None else ""))
            cl.setdefault(" ".join(t), []).append(b)
        return [("%s: %s" % (t, spans(l)), [{}]) for t, l in sorted(cl.items())], W.meta("lexer.cpp: %r followed by each character" % chr(a))
    return f

def table(fn, what):
    """A property of every kind of token."""
    def f():
        W = lexer()
        fs = W.p.fn(fn)
        W.st.set("#tok", "t", 1)
        out = []
        for v, nm in sorted(kinds(W.p).items()):
            if nm == "Builtin":
                continue            # no token has this kind
            t = W.I.newobj(W.st, "Token")
            W.st.set(t, "type", v)
            for k, x in (("intVal", 0), ("realVal", 0.0), ("strVal", "")):
                W.st.set(t, k, x)
            r = W.run(fs, t, ())
            out.append(("%s %s" % (nm, " | ".join("<internal error>" if k == "x" else show(x) for k, x, s in r)), [{}]))
        return out, W.meta("token.cpp: %s" % fn)
    return f

def number(I, n, f, vs, st):
    """The C library's number conversions on known text."""
    nm = f["n"].split("::")[-1]
    if nm == "__errno_location":
        return [(mk("addr", ("c", "#errno", "v")), st)]
    if nm in ("strtod", "strtoull", "strtoul", "strtoll", "strtol"):
        s = I.val(st, vs[0])
        p = I.val(st, vs[1])
        def end(x):
            if isinstance(p, T) and p.op == "addr":
                I.store(st, p.a[0], x)
        if not isinstance(s, str):
            end(mk("rest", nm, s))
            return [(mk(nm, s, *[I.val(st, v) for v in vs[2:]]), st)]
        i = len(s) - len(s.lstrip(" \t\n\v\f\r"))
        j = i
        sign = ""
        if j < len(s) and s[j] in "+-":
            sign = s[j]
            j += 1
        if nm == "strtod":
            import re
            m = re.match(r"(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", s[j:])
            v = float(sign + m.group()) if m else 0.0
            e = j + m.end() if m else 0
            over = v in (float("inf"), float("-inf"))
        else:
            b = I.val(st, vs[2])
            d = "0123456789abcdefghijklmnopqrstuvwxyz"[:b]
            k = j
            while k < len(s) and s[k].lower() in d:
                k += 1
            e = k if k > j else 0
            v = int(s[j:k], b) if k > j else 0
            v = -v if sign == "-" else v
            lo, hi = (0, 2 ** 64 - 1) if "u" in nm else (-2 ** 63, 2 ** 63 - 1)
            over = v > hi or v < (-hi if "u" in nm else lo)
            v = hi if v > hi else v
            if "u" in nm and v < 0:
                v += 2 ** 64
        end(s[e:])
        if over:
            st.set("#errno", "v", 34)
        return [(v, st)]
    return None

def main(argv):
    program("cxx")
    return runner.table_check("C15", "c15", argv, EXPLAIN, RULE)

def cases():
    c = {}
    for a in range(256):
        c["first %02x %s" % (a, chr(a) if 32 < a < 127 else "")] = first(a)
    def add(src, name=None):
        c["text " + repr(name or src).replace(ANY, "?")] = tokens(src)
    kw = [str(w) for w in KEYS]
    for w in kw:
        add(w)
        add(w.upper())
        add(w[0].upper() + w[1:])
        add(w + "x")
        add("x" + w)
        add(w + "_")
        add(w + "1")
        add(w[:-1])
        add(w + w)
    for w in ("__LINE__", "__FILE__", "__line__", "__File__", "__LINE", "_", "_a", "a_b_1", "A", "identifier", "integer", "Unknown", "EOF", "eof", "char", "boolean", "real"):
        add(w)
    for w in ("0", "7", "007", "123", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999",
              "1.5", "1.", "1.;", "1..2", "1.)", "1.5.2", "1e5", "1E5", "1e+5", "1e-5", "1.5e3", "1.5e-3", "1e", "1e+", "1.5e", "1.5e-", "1e5e5", "1e5.", "1e5..2", "1e400", "1e-400", "1.e5", "1e5x", "12x", "1_2",
              "$0", "$ff", "$FF", "$fF", "$fg", "$", "$ ", "$g", "$ffffffff", "$ffffffffffffffff", "$10000000000000000", "$1.5", "$1e5", "$1..2", "$1#2",
              "2#101", "2#102", "2#", "2# 1", "2#-1", "2#+1", "8#17", "8#18", "8#17.5", "8#17e2", "8#1..8#2", "16#ff", "16#FF", "16#fg", "16#1#2", "36#z", "36#Z", "37#1", "1#0", "0#0", "10#5", "10#5.5", "99999999999#1",
              "16#", "16#;", "16##5", "12#b", "12#c", "16#0x5", "3.5#1", "1.5", "3 4", "3,4", "a[1]", "a(.1.)", "a^.b", "1+2", "1-2", "-1", "x:=1", "x:= 1", "x: =1", "a<=b", "a< =b", "a<>b", "a><b", "a>=b", "a**b", "a* *b",
              "a.b", "a..b", "a...b", "a....b", "(.", "(.)", ".)", "(..)", "(...)", ":=:", "::=", ":==", "<<", "<=>", "<><", "><>", ">>=", "***", "****", "@a", "a@", "p^^", "..)", ".).",
              "a.)", "(a.)", "1..)", "5.)."):
        add(w)
    for q in ("'", '"'):
        o = "'" if q == '"' else '"'
        for w in ("", "a", "ab", "a b", o, o + o, q + q, q + q + q + q, "a" + q + q + "b", q + q + "a", "a" + q + q, "{", "(*", "//", "a{b}c", "\n", "\\", "	", "é", "ÿ", "éÿ", "a" * 300):
            add(q + w + q, q + w[:20] + q)
            add(q + w + q + "x", q + w[:20] + q + "x")
        for w in ("", "a", "ab", "a\n", "ab\nc" + q, q + q, q + q + "a", "\n", o, "a" + o):
            add(q + w)
        add(q + "a" + q + q + "b")
        add(q + "ab" + q + q + "cd" + q)
        add(q + "ab" + q + "cd" + q)
        add(q + "ab" + q + " " + q + "cd" + q)
    for m in ("{}", "{a}", "(**)", "(*a*)", "//a\n", "{ a b }", "(* a * b *)", "(***)", "(*)*)", "(****)", "{{}", "{(*}", "(*{*)", "{//}", "// { \n", "// (* \n", "{'}", "(*'*)", "{\n}", "(*\n\n*)", "//\n", "///\n",
              "{*)}", "(*}*)", "{}{}", "{}(**)", "(**){}", "(**)(**)", "{}//\n", "//\n{}", "//\n//\n", "(**)//\n", "{} {}", "{}\n{}", "{}{}{}", "(**){}//\n{}", " {} ", "\t", "\n", "\r\n", "\f", "\v"):
        add(m)
        add("a" + m + "b")
        add("a" + m)
        add(m + "b")
        add("1" + m + "2")
        add("<" + m + "=")
        add("'a'" + m + "'b'")
    for w in ("{", "(*", "(* ", "(**", "(*)", "{ a", "(* a *", "a{", "a(*", "//", "// a", "a//", "a/", "a/ /b", "(", "( *", "*)", "}", "a}b", "{a}}", "(*a*)*)", "//a", "a//b\n", "a//b\nc"):
        add(w)
    for w in ("!", "#", "%", "&", "?", "\\", "`", "|", "~", "\x00", "\x01", "\x7f", "\x80", "\xe9", "\xff"):
        add(w)
        add("a" + w + "b")
        add("a " + w + w + " b")
        add("1" + w)
    c["precedence of every kind of token"] = table("Token::Precedence", "precedence")
    c["spelling of every kind of token"] = table("Token::TypeStr", "spelling")
    return c

KEYS = """for to downto do function procedure if then else while repeat until begin end case otherwise with program unit module write writeln writestr read readln readstr var array of packed record
class object type file string set forward inline implementation interface const nil and and_then or or_else not div mod xor shr shl pow in static virtual override private public protected restricted
constructor destructor label goto uses bindable default value import sizeof""".split()

EXPLAIN = ("The lexer is interpreted abstractly from the current source on a character list in place of the source file: every pair of characters, all key words with prefixes and extensions in any letter case, all forms of "
           "numbers, strings and comments with malformed and unterminated ones, some with characters of unknown value, and the token table. The list of tokens with their values is compared with the reviewed table spec/C15.json.")
RULE = ("One obligation per text: the derived token list is the specified one; an endless loop or an internal error is a violation. Non-trivial: distinct token lists.")
