#!/usr/bin/env python3
"""Author/verify planted bugs. Usage:
  seed.py make SPEC.py      SPEC defines SEEDS = [dict(id, prop, file, edits=[(old,new)...], needs, breaks, demo=C++ text, flags=[...])]
  seed.py verify [ids...]   for each: apply in /repo, build, test, demo, run the check, undo; prints a table
Not used by any check."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, "seeded")
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", **k)
def make(spec):
    ns = {}; exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        wt = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        try:
            run(["git", "-C", "/repo", "worktree", "prune"])
            a = run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (wt, wt), shell=True)
            for f, es in edits.items():
                p = os.path.join(wt, f); t = open(p).read()
                for old, new in es:
                    n = t.count(old)
                    assert n == 1, (s["id"], f, n, old)
                    t = t.replace(old, new)
                open(p, "w").write(t)
            d = run(["git", "-C", wt, "diff"]).stdout
        finally: shutil.rmtree(wt, ignore_errors=True)
        o = os.path.join(SD, s["id"]); os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(d)
        open(os.path.join(o, "demo.cpp"), "w").write(s["demo"])
        fl = " ".join(s.get("flags", []))
        open(os.path.join(o, "demo.sh"), "w").write('''#!/bin/bash
# exit 0: property holds on this tree; non-zero: violated
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d /tmp/demo_XXXXXX)"
trap 'rm -rf -- "$T"' EXIT
g++ -std=c++20 -O1 -w -pthread %s -I"$D" -Iinclude "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
''' % fl)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        for fn, txt in s.get("extra", {}).items(): open(os.path.join(o, fn), "w").write(txt)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        print("made", s["id"])
def verify(ids, build=True):
    assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "/repo dirty"
    for i in ids or sorted(os.listdir(SD)):
        o = os.path.join(SD, i); meta = json.load(open(os.path.join(o, "meta.json")))
        clean = run(["bash", os.path.join(o, "demo.sh")], cwd="/repo").returncode
        r = run(["git", "-C", "/repo", "apply", os.path.join(o, "patch.diff")])
        if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        try:
            t = "-"
            if build:
                b = run(["bash", "/opt/vp/build.sh"]); run(["bash", "/opt/vp/test.sh", "/tmp/seed_t.json"])
                j = json.load(open("/tmp/seed_t.json")); t = "%d/%d" % (len(j["passed"]), len(j["passed"]) + len(j["failed"]))
            dm = run(["bash", os.path.join(o, "demo.sh")], cwd="/repo"); 
            c = run(["python3", "run.py", meta["property"]], cwd=V)
            line = [l for l in c.stdout.splitlines() if "VIOLATION" in l][:1]
            why = [l for l in c.stdout.splitlines() if "| case:" in l or "VP-C" in l or "ERROR" in l][:1]
        finally: run(["git", "-C", "/repo", "checkout", "--", "."])
        print("%-28s %s demo clean=%d bug=%d tests=%s check=%d %s" % (i, meta["property"], clean, dm.returncode, t, c.returncode, (why or line or [""])[0][:160]), flush=True)
    if build: run(["bash", "/opt/vp/build.sh"])
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    else: verify([a for a in sys.argv[2:] if not a.startswith("-")], "--nobuild" not in sys.argv)
