#!/usr/bin/env python3
"""Driver: run.py PROP [--tier quick|thorough]
Builds the harnesses of one property against /repo's current working tree, runs them, writes
evidence/<PROP>.json and prints VIOLATION / KNOWN-FINDING lines. Exit 0: held; 1: violated; 2: error of the check."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import registry
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "/usr/bin/g++"
JOBS = 8

def sh(cmd, timeout, env=None, cwd=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t0
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, dec(e.stdout), dec(e.stderr), time.time() - t0

def compile_part(prop, part, bdir):
    out = os.path.join(bdir, part["name"])
    san = part.get("san", True)
    cmd = [CXX, "-std=c++20", part.get("opt", "-O1"), "-g1", "-w", "-pthread"]
    if part.get("ndebug", True): cmd += ["-DNDEBUG"]
    if san: cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    cmd += ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "checks")]
    for inc in part.get("inc", []): cmd += ["-I" + os.path.join(HERE, inc)]
    cmd += ["-I" + os.path.join(REPO, "include")]
    cmd += part.get("flags", [])
    cmd += [os.path.join(HERE, "checks", part["src"])] + [os.path.join(HERE, x) for x in part.get("srcs", [])]
    cmd += ["-o", out] + part.get("libs", [])
    rc, o, e, w = sh(cmd, 800)
    return rc, e, out, w

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.CHECKS[prop]
    t0 = time.time()
    budget = 840 if tier == "quick" else 24 * 3600
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop and k["status"] == "known"]
    bdir = tempfile.mkdtemp(prefix="vp_build_%s_" % prop, dir="/tmp")
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        return run(prop, tier, seed, spec, t0, budget, known, bdir, rdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def run(prop, tier, seed, spec, t0, budget, known, bdir, rdir):
    parts = [p for p in spec["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=97"
    env["LSAN_OPTIONS"] = "exitcode=97"
    exes = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_part, prop, p, bdir): p for p in parts}
        for f in cf.as_completed(futs):
            p = futs[f]; rc, e, out, w = f.result()
            if rc != 0:
                print("ERROR: harness %s does not build against %s" % (p["src"], REPO)); print(e[-6000:])
                return 2
            exes[p["name"]] = out
    print("[%s] built %d harness(es) in %.1fs" % (prop, len(exes), time.time() - t0))
    runs = []
    for p in parts:
        n = p.get("shards", {}).get(tier, 1) if isinstance(p.get("shards"), dict) else p.get("shards", 1)
        for i in range(n): runs.append((p, i, n))

    def one(p, i, n, tag=""):
        res = os.path.join(bdir, "%s.%d%s.json" % (p["name"], i, tag))
        cmd = [exes[p["name"]], "--out", res, "--tier", tier, "--shard", str(i), "--nshards", str(n)] + p.get("args", [])
        for k in known: cmd += ["--known", k["key"]]
        left = max(30, budget - (time.time() - t0))
        cwd = tempfile.mkdtemp(prefix="vp_run_", dir=bdir)
        rc, o, e, w = sh(cmd, left, dict(env, VP_SCRATCH=cwd), cwd)
        r = None
        try: r = json.load(open(res))
        except Exception: pass
        return rc, o, e, w, r

    results, bad = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(p, i, n, ex.submit(one, p, i, n)) for (p, i, n) in runs]
        for p, i, n, f in futs:
            rc, o, e, w, r = f.result()
            results.append((p, i, n, rc, o, e, w, r))
            if rc != 0: bad.append((p, i, n, rc, o, e, w, r))
    # replay before report
    violations = []
    for (p, i, n, rc, o, e, w, r) in bad[:3]:
        if rc == 96:
            print("ERROR: harness error in %s" % p["name"]); print(e[-3000:]); return 2
        if rc == 124 and time.time() - t0 > budget - 40:
            print("ERROR: %s did not finish within the time budget" % p["name"]); print(e[-2000:]); return 2
        rc2, o2, e2, w2, r2 = one(p, i, n, ".replay")
        confirmed = rc2 != 0
        violations.append((p, i, n, rc, e, r, confirmed))
    cov = {"states": 0, "transitions": 0, "evaluations": 0, "traces_validated_against_impl": 0, "distinct_nontrivial": 0}
    samples, notes, extra, exhaustive = [], [], {}, True
    per_part = {}
    known_hit = {}
    for (p, i, n, rc, o, e, w, r) in results:
        if not r: continue
        cov["states"] += r["states"]; cov["transitions"] += r["transitions"]; cov["evaluations"] += r["evaluations"]
        cov["traces_validated_against_impl"] += r["traces"]; cov["distinct_nontrivial"] += r["distinct"]
        samples += [x for x in r["samples"][:5] if x not in samples]; notes += [x for x in r["notes"] if x not in notes]
        for k, v in r["extra"].items(): extra[p["name"] + "." + k] = extra.get(p["name"] + "." + k, 0) + v
        exhaustive = exhaustive and r["exhaustive"]
        d = per_part.setdefault(p["name"], {"evaluations": 0, "states": 0, "transitions": 0, "wall_s": 0})
        d["evaluations"] += r["evaluations"]; d["states"] += r["states"]; d["transitions"] += r["transitions"]; d["wall_s"] += round(r["wall_s"], 2)
        for fd in r["found"]: known_hit[fd["key"]] = fd["msg"]
    if not cov["traces_validated_against_impl"]: cov["traces_validated_against_impl"] = cov["evaluations"]  # every case is an execution of the real code
    cov["samples"] = samples[:8] or ["(none)"]
    cov["rule"] = spec["rule"]
    cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    cov["exhaustive"] = exhaustive and not bad
    cov["per_harness"] = per_part
    if extra: cov["counters"] = extra
    if notes: cov["notes"] = notes[:20]
    if spec["level"] != "model_checking":
        cov = {k: v for k, v in cov.items() if k not in ("traces_validated_against_impl",)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in known:
        if k["key"] in known_hit: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("[%s] tier=%s evaluations=%d states=%d transitions=%d distinct=%d wall=%.1fs" % (
        prop, tier, cov["evaluations"], cov["states"], cov["transitions"], cov["distinct_nontrivial"], time.time() - t0))
    if violations:
        for (p, i, n, rc, e, r, confirmed) in violations:
            msg = ""
            if r and r.get("found"): msg = "; ".join(x["key"] + ": " + x["msg"] for x in r["found"])
            path = os.path.join(rdir, "%s_%s_%d.txt" % (prop, p["name"], i))
            with open(path, "w") as f:
                f.write("property: %s\nharness: checks/%s (shard %d of %d)\nexit: %d, confirmed by replay: %s\n%s\n\n"
                        "replay: VERIF_TIER=%s python3 run.py %s\n\n--- stderr ---\n%s\n" % (prop, p["src"], i, n, rc, confirmed, msg, tier, prop, e[-20000:]))
            print((msg or e[-1500:])[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
