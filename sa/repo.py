"""Extracts and loads the resolved program of /repo (compiler C++ and runtime C)."""
import os, sys, json, hashlib, subprocess, glob, shutil, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LACSAP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, parse failure...)."""

CXXFLAGS = ["-std=c++17", "-fno-exceptions", "-fno-rtti", "-DNDEBUG=1", "-O2", "-I/usr/lib/llvm-18/include",
            "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
CFLAGS = ["-std=c11", "-O2"]

def _resource_dir():
    return subprocess.run(["/usr/bin/clang-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()

def build_extractor():
    exe = os.path.join(BUILD, "extract")
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    stamp = exe + ".sum"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    r = subprocess.run(["bash", os.path.join(VERIF, "extractor", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    with open(stamp, "w") as f:
        f.write(h)
    return exe

def _sources_hash(files, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()[:24]

def extract(kind):
    """kind: 'cxx', 'c64' or 'c32'; returns list of (tu, data)."""
    exe = build_extractor()
    if kind == "cxx":
        tus = sorted(glob.glob(os.path.join(REPO, "*.cpp")))
        hdrs = glob.glob(os.path.join(REPO, "*.h"))
        flags = ["-resource-dir", _resource_dir()] + CXXFLAGS
    else:
        tus = sorted(glob.glob(os.path.join(REPO, "runtime", "*.c")))
        hdrs = glob.glob(os.path.join(REPO, "runtime", "*.h"))
        flags = ["-resource-dir", _resource_dir()] + CFLAGS + (["-m32"] if kind == "c32" else [])
    if not tus:
        raise AnalysisError("no sources under " + REPO)
    key = _sources_hash(tus + hdrs, flags + [hashlib.sha256(open(exe, "rb").read()).hexdigest()])
    cdir = os.path.join(BUILD, "cache", kind + "-" + key)
    pk = os.path.join(cdir, "all.pickle")
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, "rb"))
        except Exception:
            pass
    import fcntl
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    with open(os.path.join(BUILD, "cache", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(pk):
            try:
                return pickle.load(open(pk, "rb"))
            except Exception:
                pass
        return extract1(kind, exe, tus, flags, cdir, pk)

def extract1(kind, exe, tus, flags, cdir, pk):
    # drop older caches of this kind
    for old in glob.glob(os.path.join(BUILD, "cache", kind + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = cdir + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    def one(tu):
        out = os.path.join(tmp, os.path.basename(tu) + ".json")
        r = subprocess.run([exe, REPO, out, tu, "--"] + flags, capture_output=True, text=True, cwd=os.path.dirname(tu))
        if r.returncode != 0 or not os.path.exists(out):
            raise AnalysisError("cannot parse %s: %s" % (tu, r.stderr[-1500:]))
        return (os.path.basename(tu), json.load(open(out)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, tus))
    with open(os.path.join(tmp, "p"), "wb") as f:
        pickle.dump(res, f)
    try:
        os.makedirs(cdir, exist_ok=True)
        os.replace(os.path.join(tmp, "p"), pk)
    except OSError:
        pass
    shutil.rmtree(tmp, ignore_errors=True)
    return res

class Program:
    def __init__(self, kind):
        self.kind = kind
        self.fns = {}      # id -> function
        self.byname = {}   # qualified name -> [ids]
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.decls = {}
        self.tus = []
        for tu, d in extract(kind):
            self.tus.append(tu)
            for f in d["functions"]:
                if f["id"] not in self.fns or (self.fns[f["id"]].get("implicit") and not f.get("implicit")):
                    self.fns[f["id"]] = f
                    f["tu"] = tu
            for c in d["classes"]:
                self.classes.setdefault(c["n"], c)
            for e in d["enums"]:
                self.enums.setdefault(e["n"], e)
            for g in d["globals"]:
                i = g["v"]["id"]
                if i not in self.globals or ("i" in g and "i" not in self.globals[i]):
                    self.globals[i] = g
            for x in d["decls"]:
                self.decls.setdefault(x["id"], x)
        for i, f in self.fns.items():
            self.byname.setdefault(f["n"], []).append(i)
        self.derived = {}
        for n, c in self.classes.items():
            for b in c.get("bases", []):
                self.derived.setdefault(b, []).append(n)
        self.enumconst = {}
        for n, e in self.enums.items():
            for k, v in e["v"].items():
                self.enumconst[k] = v
                self.enumconst[n + "::" + k] = v
        # fields including inherited, with types
        self.sub = {}
    def fn(self, name, n=None, optional=False):
        """The unique function with a qualified name (optionally with n parameters)."""
        ids = [i for i in self.byname.get(name, []) if n is None or len(self.fns[i]["p"]) == n]
        if len(ids) != 1:
            if optional and not ids:
                return None
            raise AnalysisError("anchor function %s%s: %d definitions" % (name, "" if n is None else "/%d" % n, len(ids)))
        return self.fns[ids[0]]
    def subclasses(self, name):
        out = []
        st = [name]
        while st:
            x = st.pop()
            for d in self.derived.get(x, []):
                if d not in out:
                    out.append(d)
                    st.append(d)
        return out
    def isa(self, c, base):
        if c == base:
            return True
        k = self.classes.get(c)
        return bool(k) and any(self.isa(b, base) for b in k.get("bases", []))
    def allfields(self, cname):
        c = self.classes.get(cname)
        if not c:
            return []
        r = []
        for b in c.get("bases", []):
            r += self.allfields(b)
        return r + [dict(f, cls=cname) for f in c["fields"]]
    def resolve(self, cname, method_id):
        """The final overrider of method_id in class cname, or None."""
        todo = [cname]
        while todo:
            x = todo.pop(0)
            c = self.classes.get(x)
            if not c:
                continue
            for m in c.get("methods", []):
                if m["id"] == method_id or method_id in self.allov(m):
                    return m["id"]
            todo += c.get("bases", [])
        return None
    def allov(self, m):
        r = set(m.get("ov", []))
        todo = list(r)
        while todo:
            x = todo.pop()
            mm = self.methods().get(x)
            for y in (mm or {}).get("ov", []):
                if y not in r:
                    r.add(y)
                    todo.append(y)
        return r
    def methods(self):
        if not hasattr(self, "_m"):
            self._m = {m["id"]: m for c in self.classes.values() for m in c.get("methods", [])}
        return self._m

_progs = {}
def program(kind):
    if kind not in _progs:
        _progs[kind] = Program(kind)
    return _progs[kind]

def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path

def walk(n, f):
    """Calls f on every dict node with a 'k'."""
    if isinstance(n, dict):
        if "k" in n:
            f(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)

if __name__ == "__main__":
    build_extractor()
    for k in ("cxx", "c64", "c32"):
        extract(k)
