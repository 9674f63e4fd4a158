"""C06: well-formedness of everything the code generators emit, over the cases of all table checks."""
import time
from sa import runner
from sa.repo import program, REPO
from sa.graph import Graph
from sa.world import blockmakers

MODS = runner.CODEGEN

EXPLAIN = ("Every graph derived by abstract interpretation of the code generators (all cases of the table checks) is checked: each block has exactly one "
           "terminator and nothing after it, each PHI stands first in its block and names exactly the predecessors of the block, including the blocks in "
           "which opaque sub-expressions end. Opaque parts are assumed to end in a block of their own choosing, except the address of a plain variable, for which the "
           "call graph shows that no function it reaches creates a block or moves the insertion point. Functions that create blocks but are in no analysed case are listed.")
RULE = ("One obligation per derived graph: no block without or with two terminators, no code behind a terminator, PHI incoming blocks = predecessors. "
        "One for the variable address: no block-creating function reachable.")

def main(argv):
    p = program("cxx")
    t0 = time.time()
    errs, bad, n, g, seen = {}, [], 0, set(), set()
    for m in MODS:
        for name, (out, meta, err, dt) in runner.run_cases(m).items():
            if name.startswith(("c64 ", "c32 ")):
                continue
            n += 1
            if err:
                errs["%s %s" % (m, name)] = err
                continue
            g |= {x[0] for x in out}
            seen |= set(meta.get("blockfns") or ())
            for q in (meta.get("problems") or []):
                if meta.get("unknown") and "?" in q:
                    continue
                bad.append({"what": "%s: %s" % (name, q), "detail": "case %s of %s: %s\nin: %s\n%s" % (name, m, q, meta.get("where"), "\n".join(x[0] for x in out)[:1500])})
    G = Graph(p)
    bm = blockmakers(p)
    n += 1
    par = G.reach([p.fn("VariableExprAST::Address")["id"]])
    for x in par:
        if x in bm:
            bad.append({"what": "VariableExprAST::Address creates blocks", "detail": "the loop variable's address is assumed to be one straight piece of code, but: " + G.path(par, x)})
    rest = sorted({p.fns[i]["n"] for i in bm - seen})
    cov = {"explanation": EXPLAIN, "rule": RULE, "evaluations": n, "distinct_nontrivial": len(g), "not_decided": len(errs), "modules": MODS, "source": REPO,
           "block_creating_functions_analysed": sorted({p.fns[i]["n"] for i in bm & seen}), "block_creating_functions_not_analysed": rest}
    return runner.finish("C06", t0, cov, bad, errs)
