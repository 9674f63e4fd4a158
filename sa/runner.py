"""Runs a check's cases in parallel, compares the derived summaries with the reviewed specification, and reports."""
import sys, os, re, json, time, traceback, fnmatch, signal, gzip
from concurrent.futures import ProcessPoolExecutor
from .repo import AnalysisError, VERIF, REPO, program
from .terms import T
from . import cfg

CASETIME = 200

class CaseTimeout(Exception):
    pass

# the table checks whose cases emit code
CODEGEN = ["c04", "c05", "c07", "c11", "c13"]

def fact_text(st, render):
    out = {}
    for k, f in st.facts.items():
        if isinstance(k, tuple):
            m = k[1]
            t = "iv:" + "+".join(sorted("%s*%s" % (c, render(x)) for x, c in m))
            out[t] = ["iv", f[0], f[1]]
        else:
            if isinstance(k, T) and k.op in ("not",):
                continue
            out[render(k)] = [f[0], sorted(str(render(x)) if isinstance(x, T) else repr(x) for x in f[1])]
    return out

def compat(a, b):
    """Can both fact sets hold at once (decided on syntactically equal conditions)?"""
    for k, f in a.items():
        g = b.get(k)
        if g is None:
            continue
        if f[0] == "iv":
            lo = max([x for x in (f[1], g[1]) if x is not None], default=None)
            hi = min([x for x in (f[2], g[2]) if x is not None], default=None)
            if lo is not None and hi is not None and lo > hi:
                return False
        elif f[0] == "in" and g[0] == "in":
            if not set(f[1]) & set(g[1]):
                return False
        elif f[0] == "in" and g[0] == "out":
            if set(f[1]) <= set(g[1]):
                return False
        elif f[0] == "out" and g[0] == "in":
            if set(g[1]) <= set(f[1]):
                return False
    return True

def compact(outs):
    """[(text, facts)] -> list of distinct outcomes; conditions dropped when there is a single outcome."""
    texts = []
    for t, f in outs:
        if t not in texts:
            texts.append(t)
    if len(texts) == 1:
        return [[texts[0], []]]
    r = []
    for t in sorted(texts):
        fs = []
        for t2, f in outs:
            if t2 == t and f not in fs:
                fs.append(f)
        r.append([t, sorted(fs, key=lambda x: json.dumps(x, sort_keys=True))])
    return r

def compare(want, got):
    """First disagreement between two outcome tables or None."""
    for t, fs in got:
        for g in fs or [{}]:
            ok = False
            bad = None
            for w, ws in want:
                if not ws or any(compat(x, g) for x in ws):
                    if w == t:
                        ok = True
                    else:
                        bad = w
            if not ok:
                return (t, bad, g)
            if bad is not None:
                # compatible with a different outcome too: only acceptable if conditions are at least as coarse in the spec
                if not any(w == t and any(entails(g, x) for x in (ws or [{}])) for w, ws in want):
                    return (t, bad, g)
    gt = {t for t, _ in got}
    for w, ws in want:
        if w not in gt:
            return (None, w, None)
    return None

def entails(g, x):
    """Every condition of x is among (or implied by) those of g."""
    for k, f in x.items():
        h = g.get(k)
        if h is None:
            return False
        if f[0] == "iv":
            if h[0] != "iv":
                return False
            if f[1] is not None and (h[1] is None or h[1] < f[1]):
                return False
            if f[2] is not None and (h[2] is None or h[2] > f[2]):
                return False
        elif f[0] == "in":
            if h[0] != "in" or not set(h[1]) <= set(f[1]):
                return False
        elif f[0] == "out":
            if h[0] == "in":
                if set(h[1]) & set(f[1]):
                    return False
            elif not set(f[1]) <= set(h[1]):
                return False
    return True

def summarize(W, results, value=True, text=None, drop=()):
    """Outcome table of [(kind, value, state)] results."""
    W.problems = getattr(W, "problems", []) + cfgproblems(results)
    outs = []
    for k, v, s in results:
        if k == "x":
            outs.append(("<internal error>", fact_text(s, lambda x: plain(x))))
            continue
        if k == "e":
            outs.append(("<rejected>", fact_text(s, lambda x: plain(x))))
            continue
        c = cfg.Cfg(s.effects())
        r = cfg.Render(c, v if value else None, drop)
        t = r.text if text is None else text(v, s, r)
        outs.append((t, fact_text(s, r.term)))
    return compact(outs)

def cfgproblems(results):
    """Well-formedness problems of the graphs of [(kind, value, state)] results."""
    out = []
    for k, v, s in results:
        if k != "r":
            continue
        c = cfg.Cfg(s.effects())
        ps = c.check()
        if ps:
            r = cfg.Render(c, None)
            for what, where, ins, e in ps:
                t = "%s: %s %s" % (what, r.bname(where) if isinstance(where, T) else where, ins or "")
                if t not in out:
                    out.append(t)
    return out

_plain = None
def plain(x):
    global _plain
    if _plain is None:
        _plain = cfg.Render(cfg.Cfg([]), None)
    return _plain.term(x)

LOCAL = re.compile(r"(loopv\(\d+, 'local', )(\d+)\)")
def renumber(out):
    """Loop-carried locals are named by their order, not by the number of the declaration."""
    if not out:
        return out
    t = json.dumps(out)
    if "loopv" not in t:
        return out
    ids = sorted({int(m.group(2)) for m in LOCAL.finditer(t)})
    return sorted(json.loads(LOCAL.sub(lambda m: "%sv%d)" % (m.group(1), ids.index(int(m.group(2)))), t)), key=lambda o: o[0])

def _alarm(*a):
    raise CaseTimeout()

def _one(job):
    mod, name = job
    # processor time, so that a loaded machine does not change what is decided
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASETIME)
    t = time.time()
    try:
        r = mod_cases(mod)[name]()
        if isinstance(r, tuple):
            out, meta = r
        else:
            out, meta = r, {}
        return name, renumber(out), meta, None, time.time() - t
    except CaseTimeout:
        return name, None, {}, "time limit", time.time() - t
    except AnalysisError as e:
        return name, None, {}, "analysis: %s" % e, time.time() - t
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return name, None, {}, "%s: %s at %s:%d" % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno), time.time() - t
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)

_cases = {}
def mod_cases(mod):
    if mod not in _cases:
        m = __import__("checks." + mod, fromlist=["x"])
        _cases[mod] = m.cases()
    return _cases[mod]

def specpath(pid):
    return os.path.join(VERIF, "spec", pid + ".json")

def run_cases(mod, names=None, procs=8):
    program("cxx")
    cs = mod_cases(mod)
    names = list(cs) if names is None else names
    res = {}
    with ProcessPoolExecutor(min(procs, max(1, len(names)))) as ex:
        for name, out, meta, err, dt in ex.map(_one, [(mod, n) for n in names], chunksize=max(1, min(16, len(names) // 64))):
            res[name] = (out, meta, err, dt)
    return res

def iter_cases(mod, names, budget=700, procs=8, casetime=60):
    """Runs cases and yields results as they come; what is not done when the time is up comes out as not decided."""
    from concurrent.futures import as_completed, TimeoutError as FTimeout
    global CASETIME
    mod_cases(mod)
    CASETIME = casetime
    program("cxx")
    t0 = time.time()
    ex = ProcessPoolExecutor(min(procs, max(1, len(names))))
    fs = {ex.submit(_one, (mod, n)): n for n in names}
    done = set()
    try:
        for f in as_completed(fs, timeout=budget):
            done.add(fs[f])
            yield f.result()
    except FTimeout:
        for n in names:
            if n not in done:
                yield n, None, {}, "time limit of the check", 0
    finally:
        ps = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in ps:
            try:
                p.kill()
            except Exception:
                pass

def table_check(pid, mod, argv, explanation, rule, assumptions=(), extra=None, floor=None):
    """Derive every case's summary from the current tree and compare it with spec/<pid>.json."""
    t0 = time.time()
    pat = None
    if "--case" in argv:
        pat = argv[argv.index("--case") + 1]
    cs = mod_cases(mod)
    names = [n for n in cs if pat is None or fnmatch.fnmatch(n, pat)]
    res = run_cases(mod, names)
    errs = {n: r[2] for n, r in res.items() if r[2]}
    if "-v" in argv:
        for n in names:
            out, meta, err, dt = res[n]
            print("### %s  (%.1fs)%s" % (n, dt, "  !! " + err if err else ""))
            for t, fs in out or []:
                print("  | " + t.replace("\n", "\n  |   "))
                if "-vv" in argv:
                    for f in fs:
                        print("      ?", json.dumps(f)[:600])
            if meta.get("unknown"):
                print("  unknown:", meta["unknown"])
    if "--record" in argv:
        path = specpath(pid)
        old = json.load(open(path)) if os.path.exists(path) and pat is not None else {}
        for n in names:
            if res[n][0] is not None:
                old[n] = {"out": res[n][0]}
                if res[n][1].get("unknown"):
                    old[n]["unknown"] = res[n][1]["unknown"]
        old = {n: old[n] for n in cs if n in old}
        with open(path, "w") as f:
            json.dump(old, f, indent=0, sort_keys=False)
        print("recorded %d cases, %d errors" % (len(names) - len(errs), len(errs)))
        for n, e in list(errs.items())[:40]:
            print("  error", n, e)
        return 0 if not errs else 2
    spec = json.load(open(specpath(pid)))
    bad = []
    for n in names:
        out, meta, err, dt = res[n]
        if err:
            continue
        if n not in spec:
            errs[n] = "no specification"
            continue
        d = compare(spec[n]["out"], out)
        if d is None:
            continue
        nu = set(map(str, meta.get("unknown") or [])) - set(map(str, spec[n].get("unknown") or []))
        if nu:
            errs[n] = "differs, but through constructs outside the model: %s" % sorted(nu)[:5]
            continue
        bad.append((n, d, meta))
    if pat is None:
        for n in spec:
            if n not in cs:
                errs[n] = "specified case is gone"
    outs = sum(len(r[0]) for r in res.values() if r[0])
    cov = {"explanation": explanation, "rule": rule, "evaluations": len(names), "distinct_nontrivial": len({json.dumps(r[0]) for r in res.values() if r[0]}),
           "outcomes": outs, "not_decided": len(errs),
           "samples": [{"case": n, "summary": res[n][0][0][0][:600]} for n in names[:: max(1, len(names) // 4)][:4] if res[n][0]],
           "source": REPO}
    return finish(pid, t0, cov, [violation_of(n, d, m) for n, d, m in bad], errs, assumptions)

def violation_of(n, d, meta):
    got, want, facts = d
    return {"what": n, "detail": "derived: %s\nspecified: %s\ncondition: %s\nin: %s" % (got, want, json.dumps(facts)[:2000] if facts else "", meta.get("where", ""))}

def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid and d.get("status") == "known":
                    r.append(d)
    return r

def finish(pid, t0, cov, violations, errs, assumptions=()):
    """violations: [{what, detail}]; prints, writes evidence, returns the exit status."""
    kf = known_findings(pid)
    new = []
    for v in violations:
        m = [k for k in kf if k["match"] == v["what"]]
        if m:
            print("KNOWN-FINDING: property=%s %s" % (pid, m[0]["what"]))
        else:
            new.append(v)
    for n, e in list(errs.items())[:20]:
        print("not decided: %s: %s" % (n, e), file=sys.stderr)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(new[:20]):
        p = os.path.join(rdir, "%s-%d.txt" % (pid, i))
        with open(p, "w") as f:
            f.write("%s\n%s\n" % (v["what"], v["detail"]))
        print("%s: %s" % (v["what"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    ev = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %s; violations %d, not decided %d, %.1f s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int)), len(new), len(errs), time.time() - t0))
    if new:
        return 1
    n = cov.get("evaluations") or 0
    return 2 if len(errs) > max(2, n // 4) else 0

def oracle_check(pid, mod, argv, explanation, rule, assumptions=(), budget=700):
    """A check whose cases return ([violations], obligations, program text) as JSON instead of an outcome table."""
    t0 = time.time()
    cs = mod_cases(mod)
    pat = argv[argv.index("--case") + 1] if "--case" in argv else None
    errs, bad, n, progs = {}, [], 0, set()
    for name, out, meta, err, dt in iter_cases(mod, [c for c in cs if pat is None or pat in c], budget):
        if err:
            errs[name] = err
            continue
        b, k, x = json.loads(out[0][0])
        n += k
        progs.add(str(x))
        if len(bad) > 40 and "-v" not in argv:
            break
        if "-v" in argv:
            print(name, k, round(dt, 2), b, meta.get("unknown"))
        for what in b:
            if meta.get("unknown"):
                errs[name] = "outside the model: %s" % meta["unknown"][:3]
                continue
            bad.append({"what": what, "detail": "%s: %s" % (name, x)})
    cov = {"explanation": explanation, "rule": rule, "evaluations": len(cs), "distinct_nontrivial": len(progs), "obligations": n, "not_decided": len(errs), "source": REPO}
    seen, ub = set(), []
    for x in bad:
        if x["what"] not in seen:
            seen.add(x["what"])
            ub.append(x)
    return finish(pid, t0, cov, ub, errs, assumptions)
