"""Rebuilds the control-flow graph that a code generator emits from its effect log, checks it, and renders it canonically."""
from .terms import *
from . import llvmm

SILENT = {"setglobal", "BB", "setBody", "delete", "new", "make:llvm::IRBuilder", "ctor", "v:Name"}

class Block:
    def __init__(self, bid):
        self.id = bid
        self.ins = []
        self.term = None      # (kind, cond, [succ])
        self.extra = []       # instructions after the terminator

class Cfg:
    """blocks: id -> Block, entry, exit (current block at the end)."""
    def __init__(self, effs, entry=mk("curbb", 0), cur=None):
        self.blocks = {}
        self.entry = entry
        self.created = []
        self.phis = {}
        self.problems = []
        self.loops = []
        cur = self.entry if cur is None else cur
        self.blk(cur)
        self.cur = self.run(effs, cur)
    def blk(self, b):
        if b not in self.blocks:
            self.blocks[b] = Block(b)
        return self.blocks[b]
    def run(self, effs, cur):
        for e in effs:
            n, a, r = e[0], e[1], e[2]
            if n == "BB":
                self.created.append(r)
                self.blk(r)
                continue
            if n == "SetInsertPoint":
                cur = a[0]
                if isinstance(cur, T) and cur.op == "make:llvm::IRBuilder":
                    continue
                self.blk(cur)
                continue
            if n == "addIncoming":
                self.phis.setdefault(a[0], []).append((a[1], a[2]))
                continue
            if n == "addCase":
                for b in self.blocks.values():
                    if b.term and b.term[0] == "CreateSwitch" and b.term[3] is a[0]:
                        b.term[2].append(a[2])
                        b.term[4].append((a[1], a[2]))
                        break
                else:
                    self.loopcases = True
                continue
            if n in SILENT:
                continue
            b = self.blk(cur)
            if n in llvmm.TERMS:
                if b.term:
                    self.problems.append(("second terminator", cur, n, e))
                    continue
                if n == "CreateBr":
                    b.term = (n, None, [a[0]], r, [])
                elif n == "CreateCondBr":
                    b.term = (n, a[0], [a[1], a[2]], r, [])
                elif n == "CreateSwitch":
                    b.term = (n, a[0], [a[1]], r, [])
                else:
                    b.term = (n, a[0] if a else None, [], r, [])
                for s in b.term[2]:
                    if isinstance(s, T) and s.op == "bb":
                        self.blk(s)
                continue
            if b.term:
                self.problems.append(("instruction after the terminator", cur, n, e))
                continue
            b.ins.append(e)
            if n.startswith("v:") and n[2:] in ("CodeGen", "Address") and not (n == "v:Address" and a[0] in SIMPLE):
                nb = mk("after", r)
                b.term = ("into", None, [nb], r, [])
                cur = nb
                self.blk(cur)
        return cur
    def preds(self):
        p = {b: [] for b in self.blocks}
        for b in self.blocks.values():
            if b.term:
                for s in b.term[2]:
                    p.setdefault(s, []).append(b.id)
        return p
    def reach(self):
        seen = []
        todo = [self.entry]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            b = self.blocks.get(x)
            if b and b.term:
                todo += b.term[2]
        return seen
    def check(self, final_open=True):
        """Well-formedness problems of the emitted graph."""
        out = list(self.problems)
        P = self.preds()
        for b in self.blocks.values():
            if b.id is self.cur and not b.term and final_open:
                continue
            if isinstance(b.id, T) and b.id.op in ("bb", "after", "curbb") and not b.term:
                if b.id.op == "bb" or b.ins or P.get(b.id) or b.id is self.entry:
                    out.append(("block without a terminator", b.id, None, None))
        reach = set(self.reach())
        for ph, inc in self.phis.items():
            where = [b for b in self.blocks.values() if any(e[2] is ph for e in b.ins)]
            if len(where) != 1:
                out.append(("PHI placed %d times" % len(where), ph, None, None))
                continue
            pr = [x for x in P[where[0].id]]
            got = [x[1] for x in inc]
            if sorted(map(repr, pr)) != sorted(map(repr, got)):
                out.append(("PHI incoming blocks %s differ from predecessors %s" % (got, pr), where[0].id, None, None))
        for b in self.blocks.values():
            for i, e in enumerate(b.ins):
                if e[0] == "CreatePHI":
                    if any(x[0] != "CreatePHI" for x in b.ins[:i]):
                        out.append(("PHI after another instruction", b.id, None, e))
                    if e[2] not in self.phis:
                        out.append(("PHI without incoming values", b.id, None, e))
        return out
    # ---- canonical rendering
    def canon(self):
        """Text of the graph: blocks numbered in depth-first order from the entry, empty forwarding blocks removed."""
        fwd = {}
        def target(x):
            n = 0
            while n < 50:
                b = self.blocks.get(x)
                if b and not b.ins and b.term and b.term[0] == "CreateBr" and x is not self.entry and not self.isphi(b.term[2][0]):
                    x = b.term[2][0]
                    n += 1
                else:
                    break
            return x
        order = []
        def visit(x):
            x = target(x)
            if x in order:
                return
            order.append(x)
            b = self.blocks.get(x)
            if b and b.term:
                for s in b.term[2]:
                    visit(s)
        visit(self.entry)
        return order, target
    def isphi(self, x):
        b = self.blocks.get(x)
        return bool(b and b.ins and b.ins[0][0] == "CreatePHI")

def root(a):
    """(base, constant path) of an address term."""
    if isinstance(a, T) and a.op == "CreateGEP":
        b, p = root(a.a[1])
        return b, p + (a.a[2],)
    return a, ()

def constpath(p):
    return all(isinstance(v, T) and v.op == "vec" and all(isinstance(i, T) and i.op == "ci" and isinstance(i.a[1], int) for i in v.a) for v in p)

def disjoint(a, b):
    (ra, pa), (rb, pb) = root(a), root(b)
    if ra is rb:
        return pa != pb and constpath(pa) and constpath(pb) and len(pa) == len(pb) and all(len(x.a) == len(y.a) for x, y in zip(pa, pb))
    return all(isinstance(r, T) and r.op in ("CreateAlloca",) for r in (ra, rb))

def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, T):
        return any(mentions(y, x) for y in t.a)
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False

def commute(ins):
    """Sorts runs of adjacent instructions that commute: loads, and stores to provably different places."""
    out = []
    i = 0
    while i < len(ins):
        run = [ins[i]]
        k = ins[i][0]
        j = i + 1
        if k in ("CreateLoad", "CreateStore"):
            while j < len(ins) and ins[j][0] == k:
                e = ins[j]
                if k == "CreateLoad" and any(mentions(e[1], r[2]) for r in run):
                    break
                if k == "CreateStore" and not all(disjoint(e[1][1], r[1][1]) for r in run):
                    break
                run.append(e)
                j += 1
            if len(run) > 1:
                run.sort(key=lambda e: repr(e[1]))
        out += run
        i = j
    return out

class Render:
    """Names effect results by first occurrence in canonical block order and prints terms."""
    def __init__(self, cfg, value=None, drop=()):
        self.c = cfg
        self.names = {}
        self.bn = {}
        self.drop = set(drop)
        self.nallocas = 0
        self.text = self.render(value)
    def bname(self, b):
        return self.bn.get(b) or self.term(b)
    def render(self, value):
        c = self.c
        order, target = c.canon()
        # merge straight-line chains
        P = {}
        for x in order:
            b = c.blocks.get(x)
            if b and b.term:
                for s in b.term[2]:
                    P.setdefault(target(s), []).append(x)
        heads = []
        for x in order:
            pr = P.get(x, [])
            if x is c.entry or len(pr) != 1 or c.blocks[pr[0]].term[0] not in ("CreateBr", "into"):
                heads.append(x)
        for i, h in enumerate(heads):
            self.bn[h] = "B%d" % i
        self.target = target
        # every block maps to its head
        lines = []
        chains = {}
        for h in heads:
            ch = [h]
            x = h
            while True:
                b = c.blocks.get(x)
                if not b or not b.term or b.term[0] not in ("CreateBr", "into"):
                    break
                t = target(b.term[2][0])
                if t in self.bn:
                    break
                ch.append(t)
                x = t
            chains[h] = ch
            for y in ch:
                self.bn.setdefault(y, self.bn[h])
        for x in list(c.blocks):
            self.bn.setdefault(x, self.bn.get(target(x)) or self.bname_un(x))
        # forwarding blocks used as PHI predecessors keep the name of the block that enters them
        for h in heads:
            for x in chains[h]:
                b = c.blocks.get(x)
                if b:
                    b.ins = commute(b.ins)
                for e in (b.ins if b else ()):
                    if e[2] is not None and e[0] not in self.drop and e[0] not in ("CreateAlloca", "CreateStore"):
                        self.names.setdefault(e[2], "%%%d" % len(self.names))
        for h in heads:
            out = []
            last = None
            for x in chains[h]:
                b = c.blocks.get(x)
                if not b:
                    continue
                for e in b.ins:
                    if e[0] in self.drop or e[0] == "CreateAlloca":
                        continue
                    out.append(self.ins(e))
                last = b
            if last is not None and last.term:
                k, cond, succ, r, cases = last.term
                if k in ("CreateBr", "into"):
                    out.append("br " + self.bname(target(succ[0])))
                elif k == "CreateCondBr":
                    out.append("cond %s ? %s : %s" % (self.term(cond), self.bname(target(succ[0])), self.bname(target(succ[1]))))
                elif k == "CreateSwitch":
                    out.append("switch %s default %s%s" % (self.term(cond), self.bname(target(succ[0])),
                               "".join(" [%s: %s]" % (self.term(v), self.bname(target(t))) for v, t in cases)))
                elif k == "CreateRet":
                    out.append("ret " + self.term(cond))
                else:
                    out.append(k[6:].lower())
            if last is not None and (last.id is c.cur):
                out.append("end")
            lines.append("%s: %s" % (self.bn[h], "; ".join(out)))
        if value is not None:
            lines.append("= " + self.term(value))
        return "\n".join(lines)
    def bname_un(self, x):
        return "U"
    def ins(self, e):
        n, a, r = e[0], e[1], e[2]
        lhs = ""
        if r is not None and r in self.names:
            lhs = self.names[r] + " = "
        return lhs + self.app(n, a, r)
    def app(self, n, a, r=None):
        n2 = n
        if n.startswith("v:"):
            n2 = n[2:].replace("CodeGen", "gen").replace("Address", "addr")
        elif n.startswith("Create"):
            n2 = n[6:].lower()
        if n == "CreatePHI":
            inc = sorted("[%s,%s]" % (self.term(v), self.bname(self.phipred(b))) for v, b in self.c.phis.get(r, []))
            return "phi %s %s" % (self.term(a[0]), " ".join(inc))
        if n in ("CreateStore",):
            return "store %s -> %s" % (self.term(a[0]), self.term(a[1]))
        if n == "CreateLoad":
            return "load %s %s" % (self.term(a[0]), self.term(a[1]))
        if n == "CreateCall":
            return "call " + self.callee(a[0]) + "(" + (", ".join(self.term(x) for x in a[1].a) if a[1].op == "vec" else self.term(a[1])) + ")"
        return "%s(%s)" % (n2, ", ".join(self.term(x) for x in a))
    def phipred(self, b):
        return b
    def callee(self, f):
        if isinstance(f, T) and f.op == "rtfn":
            return str(f.a[0]) if isinstance(f.a[0], str) else self.term(f.a[0])
        if isinstance(f, T) and f.op == "callee":
            return self.term(f.a[1])
        return self.term(f)
    def term(self, x):
        if isinstance(x, T):
            if x in self.names:
                return self.names[x]
            if x in self.bn:
                return self.bn[x]
            op, a = x.op, x.a
            if op == "CreateAlloca":
                # stack slots live in the entry block: named by first use
                self.nallocas += 1
                self.names[x] = "A%d" % (self.nallocas - 1)
                return "A%d:%s" % (self.nallocas - 1, self.term(a[0]))
            if op == "lty":
                return a[0]
            if op == "ci":
                return "%s %s" % (self.term(a[0]), self.term(a[1]))
            if op == "cf":
                return "double %s" % self.term(a[0])
            if op == "null0":
                return "zero %s" % self.term(a[0])
            if op == "larr":
                return "[%s x %s]" % (self.term(a[1]), self.term(a[0]))
            if op == "lstruct":
                return "{%s}" % (self.term(a[1])[1:-1] if isinstance(a[1], T) and a[1].op == "vec" else self.term(a[1]))
            if op == "lopaque":
                return "%" + self.term(a[0])
            if op == "lfnty":
                return "%s(%s)" % (self.term(a[0]), ", ".join(self.term(y) for y in a[1].a) if isinstance(a[1], T) and a[1].op == "vec" else self.term(a[1]))
            if op == "vec":
                return "[%s]" % ", ".join(self.term(y) for y in a)
            if op == "sym":
                return a[0]
            if op == "null":
                return "null"
            if op == "obj":
                return "%s" % a[1].split("::")[-1]
            if op == "fld":
                return "%s.%s" % (self.term(a[0]), a[1])
            if op == "rtfn":
                return "@" + (a[0] if isinstance(a[0], str) else self.term(a[0]))
            if op == "lin":
                s = " + ".join(("%s*" % k if k != 1 else "") + self.term(t) for t, k in a[1])
                return "(%s%s)" % (s, (" + %d" % a[0]) if a[0] else "")
            if op == "CreateLoad":
                return "load(%s, %s)" % (self.term(a[0]), self.term(a[1]))
            return self.app(op, [y for y in a if not (isinstance(y, tuple) and len(y) == 2 and y[0] == "#")], x) if op != "CreatePHI" \
                else "phi"
        if isinstance(x, tuple):
            return "<" + ", ".join(self.term(y) for y in x) + ">"
        if isinstance(x, str):
            return repr(x)
        return str(x)

def render(st, value=None, since=None, drop=()):
    c = Cfg(st.effects(since))
    return Render(c, value, drop).text
