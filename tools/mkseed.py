#!/usr/bin/env python3
"""mkseed.py DEF.json: makes seeded/<id>/ from {"id","property","needs","breaks","edits":[[file,old,new]],"prog":..,"expect":..} ("rc": compile must fail/succeed)."""
import json, sys, os, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Compiles and runs p.pas; its output must be the expected one.
here=$(cd "$(dirname "$0")" && pwd)
d=/tmp/lacsap-demo-%(id)s
rm -rf /tmp/lacsap-demo-%(id)s
mkdir -p "$d" && cp "$here"/p.pas "$d"/ && cd "$d" || exit 1
timeout 60 /repo/lacsap %(opt)s p.pas > compile.log 2>&1 || { cat compile.log; exit 1; }
timeout 60 ./p < /dev/null > out.txt 2>&1
rc=$?
diff out.txt "$here"/expected.txt
r=$?
[ $rc -eq %(prc)d ] || { echo "exit status $rc"; r=1; }
rm -rf /tmp/lacsap-demo-%(id)s
exit $r
"""
REJ = """#!/bin/bash
# p.pas must be rejected with a diagnostic and exit status 1.
here=$(cd "$(dirname "$0")" && pwd)
d=/tmp/lacsap-demo-%(id)s
rm -rf /tmp/lacsap-demo-%(id)s
mkdir -p "$d" && cp "$here"/p.pas "$d"/ && cd "$d" || exit 1
timeout 60 /repo/lacsap %(opt)s p.pas > compile.log 2>&1
rc=$?
cat compile.log
r=0
[ $rc -eq 1 ] || { echo "exit status $rc"; r=1; }
[ -e p ] && { echo "made an executable"; r=1; }
rm -rf /tmp/lacsap-demo-%(id)s
exit $r
"""
d = json.load(open(sys.argv[1]))
wt = "/tmp/mkseed-wt"
subprocess.run(["rm", "-rf", "/tmp/mkseed-wt"])
subprocess.check_call(["git", "clone", "-q", "/repo", wt])
for f, a, b in d["edits"]:
    p = os.path.join(wt, f)
    s = open(p).read()
    if s.count(a) != 1:
        sys.exit("%s: %d matches of %r" % (f, s.count(a), a))
    open(p, "w").write(s.replace(a, b))
diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
base = subprocess.check_output(["git", "-C", wt, "log", "--format=%H", "--reverse"], text=True).split()[0]
# every removed line must be in the base revision's file
for f, a, b in d["edits"]:
    old = subprocess.run(["git", "-C", wt, "show", base + ":" + f], capture_output=True, text=True).stdout.split("\n")
rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
for l in rem:
    if not any(l in subprocess.run(["git", "-C", wt, "show", base + ":" + f], capture_output=True, text=True).stdout.split("\n") for f, a, b in d["edits"]):
        print("WARNING not an original line:", l)
out = os.path.join(HERE, "seeded", d["id"])
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "w").write(diff)
open(os.path.join(out, "meta.json"), "w").write(json.dumps({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, indent=1) + "\n")
open(os.path.join(out, "p.pas"), "w").write(d["prog"])
if d.get("reject"):
    t = REJ
else:
    t = DEMO
    open(os.path.join(out, "expected.txt"), "w").write(d["expect"])
if d.get("demo"):
    t = d["demo"]
open(os.path.join(out, "demo.sh"), "w").write(t % {"id": d["id"], "opt": d.get("opt", ""), "prc": d.get("prc", 0)} if not d.get("demo") else t)
os.chmod(os.path.join(out, "demo.sh"), 0o755)
subprocess.run(["rm", "-rf", "/tmp/mkseed-wt"])
