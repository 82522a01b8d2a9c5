#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real crate: check.py <property> <quick|thorough> [--jobs re] [-v]

Every run compiles /repo's current working tree together with /verif/harness to LLVM IR, executes the property's
harnesses symbolically (engine/), replays every counterexample natively and rewrites evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check could not run at all.
"""
import sys, os, json, time, subprocess, hashlib, fcntl, re, tempfile, shutil, resource, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = "/repo"
B = os.path.join(V, ".build")
CPUS = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None); e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", ""); e["RUSTC_WRAPPER"] = ""
    return e

def src_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(V, "harness", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(V, "harness", "Cargo.toml")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort(); files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def build_engine():
    r = sh(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "B=" + os.path.join(B, "engine")])
    if r.returncode: raise RuntimeError("engine build failed\n" + r.stdout[-3000:])

def drop_fingerprints(target):
    for d, ds, fs in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in list(ds):
                if x.startswith(("little_exif", "vharness")): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            ds[:] = []

def opt_path():
    r = sh(["rustc", "--print", "sysroot"], env=env())
    root = r.stdout.strip().splitlines()[-1]
    p = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    if os.path.exists(p): return p
    raise RuntimeError("no llvm opt in the rust toolchain (llvm-tools)")

def build_ir():
    t = os.path.join(B, "ir"); e = env(); e["CARGO_TARGET_DIR"] = t
    r = sh(["cargo", "rustc", "--lib", "--crate-type=staticlib", "--release", "--offline", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], env=e, cwd=os.path.join(V, "harness"))
    if r.returncode: raise RuntimeError("harness build failed\n" + r.stdout[-6000:])
    d = os.path.join(t, "release", "deps")
    ll = max((os.path.join(d, f) for f in os.listdir(d) if f.startswith("vharness") and f.endswith(".ll")), key=os.path.getmtime)
    api = re.findall(r"^define[^@\n]*@(h_[A-Za-z0-9_]+)", open(ll).read(), re.M)
    out = os.path.join(B, "h.ll")
    r = sh([opt_path(), "-S", "-internalize-public-api-list=" + ",".join(api), "-passes=function(lower-invoke,simplifycfg),internalize,globaldce,function(scalarizer<load-store>,lower-atomic,lower-constant-intrinsics)", ll, "-o", out + ".tmp"])
    if r.returncode: raise RuntimeError("opt failed\n" + r.stdout[-3000:])
    os.replace(out + ".tmp", out)

def build_native():
    t = os.path.join(B, "native"); e = env(); e["CARGO_TARGET_DIR"] = t
    r = sh(["cargo", "build", "--offline", "--profile", "replay", "--features", "native", "--bin", "replay"], env=e, cwd=os.path.join(V, "harness"))
    if r.returncode: raise RuntimeError("native replay build failed\n" + r.stdout[-6000:])

def build_all():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash(); hf = os.path.join(B, "hash")
        old = open(hf).read() if os.path.exists(hf) else ""
        if old != h:
            if os.path.exists(hf): os.remove(hf)
            for t in ("ir", "native"): drop_fingerprints(os.path.join(B, t))
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine)]
            if old != h or not os.path.exists(os.path.join(B, "h.ll")):
                fs += [ex.submit(build_ir), ex.submit(build_native)]
            for f in fs: f.result()
        open(hf, "w").write(h)

SX = os.path.join(B, "engine", "sx")
REPLAY = os.path.join(B, "native", "replay", "replay")

def comments():
    """What each harness does and what its parameters bound: the comment above it"""
    c = {}; h = os.path.join(V, "harness", "src")
    for f in os.listdir(h):
        above = []
        for l in open(os.path.join(h, f)):
            l = l.strip()
            if l.startswith("//"): above.append(l.lstrip("/ ")); continue
            m = re.match(r"fn (h_\w+)\(", l)
            if m: c[m.group(1)] = " ".join(above)
            above = []
    return c

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (36 << 30, 36 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def native(fn, params, hexin, timeout=20):
    """-> (class, text, trace)"""
    d = tempfile.mkdtemp(prefix="sxreplay")
    try:
        try:
            r = subprocess.run([REPLAY, fn, ",".join(map(str, params)), hexin], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return "hang", "no result within %ds" % timeout, ""
        tr = "".join(l[6:] + ";" for l in r.stdout.splitlines() if l.startswith("REACH "))
        if r.returncode == 0: return "ok", "", tr
        if r.returncode == 43: return "check", next((l for l in r.stdout.splitlines() if "CHECK-FAILED" in l), ""), tr
        if r.returncode == 42: return "assume", "", tr
        return "panic", r.stderr[-600:], tr
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_job(job, outdir, i, extra=()):
    out = os.path.join(outdir, "%d.json" % i)
    cmd = [SX, "--ir", os.path.join(B, "h.ll"), "--fn", job["fn"], "--out", out, "--max-time", str(job["time"]), "--max-steps", str(job.get("steps", 8000000)), "--max-mem", str(job.get("mem", 3300)), "--z3-timeout", str(job.get("z3", 20000))]
    for p in job["params"]: cmd += ["--param", str(p)]
    if job.get("ascii"): cmd.append("--ascii-lower")
    cmd += list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=job["time"] + 120)
        err = r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return {"engine_error": "job did not stop at its time limit"}
    try:
        res = json.load(open(out))
    except Exception:
        res = {"engine_error": "no result: " + err}
    if "engine_error" in res and err: res["engine_error"] += " | " + err[-800:]
    res["wall"] = time.time() - t0
    return res

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sel = None; verbose = "-v" in sys.argv
    if "--jobs" in sys.argv: sel = re.compile(sys.argv[sys.argv.index("--jobs") + 1])
    T0 = time.time()
    import jobs as J
    P = J.PROPS[pid]
    jobs = [j for j in P["jobs"] if (tier == "thorough" and j["tier"] != "quick-only") or j["tier"] in ("quick", "quick-only")]
    if sel: jobs = [j for j in jobs if sel.search(j["fn"] + str(j["params"]))]
    jobs.sort(key=lambda j: -j.get("cost", 1))
    try:
        build_all()
    except Exception as e:
        print("CHECK-ERROR property=%s %s" % (pid, e)); sys.exit(2)
    tb = time.time() - T0
    outdir = tempfile.mkdtemp(prefix="sxjobs")
    budget = (430 if tier == "quick" else 3600 * 2)
    results = [None] * len(jobs)
    def one(i):
        j = dict(jobs[i]); left = budget - (time.time() - T0)
        if left < 5: return {"engine_error": "not started: check budget used up"}
        j["time"] = min(j["time"], left)
        return run_job(j, outdir, i)
    with cf.ThreadPoolExecutor(max(1, CPUS)) as ex:
        futs = {ex.submit(one, i): i for i in range(len(jobs))}
        for f in cf.as_completed(futs):
            i = futs[f]; results[i] = f.result()
            if verbose:
                r = results[i]; print("  job %s%s: %s" % (jobs[i]["fn"], jobs[i]["params"], r.get("engine_error") or "exh=%s paths=%d viol=%d %.1fs z3=%.1fs reach=%s" % (r["exhausted"], r["paths"], len(r["violations"]), r["seconds"], r["queries"]["z3_seconds"], r["reach"])), flush=True)
    known = J.load_known(os.path.join(V, "known_findings.txt"))
    alarms, kf, unconf, inconclusive, missing = [], [], [], [], []
    validated = mismatched = 0; samples = []; mism = []
    replays = []
    for j, r in zip(jobs, results):
        if "engine_error" in r:
            inconclusive.append({"job": j["fn"], "params": j["params"], "reason": r["engine_error"][:1500]}); continue
        if not r["exhausted"]: inconclusive.append({"job": j["fn"], "params": j["params"], "reason": "bounds not exhausted: stopped by time or memory limit, or solver unknown", "paths": r["paths"], "incomplete": r["incomplete"]})
        for l in j.get("reach", []):
            if not r["reach"].get(l): missing.append("%s%s: %s" % (j["fn"], j["params"], l))
    # native comparison of sampled paths
    todo = []
    for j, r in zip(jobs, results):
        for s in r.get("samples", [])[: (8 if tier == "quick" else 60)]: todo.append((j, s))
    if tier == "quick": todo = todo[:400]
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for (j, s), (c, txt, tr) in zip(todo, ex.map(lambda x: native(x[0]["fn"], x[0]["params"], x[1]["input"]), todo)):
            if c == "ok" and tr == s["trace"]: validated += 1
            else: mismatched += 1; mism.append({"harness": j["fn"], "params": j["params"], "input": s["input"], "engine": s["trace"], "native": [c, txt, tr]})
            if len(samples) < 12: samples.append({"harness": j["fn"], "params": j["params"], "input": s["input"], "path": s["trace"]})
    # counterexamples
    for j, r in zip(jobs, results):
        for v in r.get("violations", []):
            if "alloc-fail" in v.get("notes", "") and v["kind"] == "panic" and False: continue
            c, txt, tr = native(j["fn"], j["params"], v["input"])
            if c in ("ok", "assume"):
                unconf.append({"job": j["fn"], "params": j["params"], "kind": v["kind"], "where": v["where"], "msg": v["msg"], "input": v["input"], "native": c}); continue
            k = J.match_known(known, pid, j, v)
            if k: kf.append(k); continue
            alarms.append((j, v, c, txt))
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for n, (j, v, c, txt) in enumerate(alarms):
        rp = os.path.join(V, "replays", "%s-%d.json" % (pid, n))
        json.dump({"property": pid, "harness": j["fn"], "params": j["params"], "input": v["input"], "kind": v["kind"], "where": v["where"], "msg": v["msg"], "native": c, "native_output": txt, "engine_stack": v["stack"], "how": "python3 /verif/check.py replay " + rp}, open(rp, "w"), indent=1)
        replays.append(rp)
    for k in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ok = [r for r in results if "engine_error" not in r]
    def tot(f): return sum(f(r) for r in ok)
    notes = comments()
    fns = sorted({f for r in ok for f in r["functions"]}); lines = {}
    for r in ok:
        for f, l in r["lines"].items(): lines.setdefault(f, set()).update(l)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
      "coverage": {"states": tot(lambda r: r["states"]), "transitions": tot(lambda r: r["steps"]), "traces_validated_against_impl": validated,
        "samples": samples, "paths_completed": tot(lambda r: r["paths"]), "paths_outside_assumptions": tot(lambda r: r["assumed_out"]), "assertions_evaluated": tot(lambda r: r["checks"]),
        "solver": {k: round(tot(lambda r: r["queries"][k]), 3) for k in (ok[0]["queries"] if ok else [])},
        "jobs": [{"harness": j["fn"], "params": j["params"], "bounds": notes.get(j["fn"], ""), "exhausted": r.get("exhausted", False), "paths": r.get("paths"), "solver_queries": r.get("queries", {}).get("total"), "z3_seconds": r.get("queries", {}).get("z3_seconds"), "seconds": round(r.get("wall", 0), 2), "reached": r.get("reach"), "error": r.get("engine_error")} for j, r in zip(jobs, results)],
        "jobs_exhausted": sum(1 for r in ok if r["exhausted"]), "jobs_total": len(jobs), "exhaustive": all(r.get("exhausted") for r in results) if results else False,
        "inconclusive": inconclusive, "unconfirmed_counterexamples": unconf, "native_trace_mismatches": mism[:10], "expected_reach_missing": missing,
        "functions_encoded": [demangle(f) for f in fns], "source_lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
        "known_findings_seen": sorted(set(kf)), "build_seconds": round(tb, 1)},
      "assumptions": P.get("assumptions", []) + J.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": len(alarms)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    print("%s %s: jobs=%d exhausted=%d paths=%d queries=%d z3=%.1fs validated=%d mismatched=%d unconfirmed=%d inconclusive=%d missing=%d wall=%.1fs (build %.1fs)" % (pid, tier, len(jobs), sum(1 for r in ok if r["exhausted"]), tot(lambda r: r["paths"]), tot(lambda r: r["queries"]["total"]), tot(lambda r: r["queries"]["z3_seconds"]), validated, mismatched, len(unconf), len(inconclusive), len(missing), time.time() - T0, tb))
    for m in inconclusive: print("INCONCLUSIVE %s%s %s" % (m["job"], m["params"], m["reason"][:600 if verbose else 160].replace("\n", " ")))
    for m in missing: print("NOT-REACHED " + m)
    for m in unconf: print("UNCONFIRMED %s%s %s %s %s" % (m["job"], m["params"], m["kind"], m["where"], m["msg"][:120]))
    for m in mism[:5]: print("TRACE-MISMATCH %s%s engine=%s native=%s %s" % (m["harness"], m["params"], m["engine"], m["native"], m["input"][:200]))
    if not ok: print("CHECK-ERROR property=%s no job produced a result" % pid); sys.exit(2)
    for rp, (j, v, c, txt) in zip(replays, alarms):
        print("VIOLATION property=%s replay=%s" % (pid, rp)); print("   %s%s %s %s %s (native: %s) input=%s" % (j["fn"], j["params"], v["kind"], v["where"], v["msg"][:100], c, v["input"][:240]))
    sys.exit(1 if alarms else 0)

def demangle(s):
    # readable form of a v0-mangled path: identifiers in order
    ids = re.findall(r"(?<![0-9])([1-9][0-9]?)(_?)([A-Za-z_][A-Za-z0-9_]*)", s); out = []; i = 0
    while i < len(s):
        m = re.match(r"([1-9][0-9]?)_?(?=[A-Za-z_])", s[i:])
        if m and (i == 0 or not s[i-1].isdigit()):
            n = int(m.group(1)); st = i + m.end(); w = s[st:st + n]
            if len(w) == n and re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", w): out.append(w); i = st + n; continue
        i += 1
    return "::".join(out) if out else s

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        build_all(); r = json.load(open(sys.argv[2])); print(native(r["harness"], r["params"], r["input"])); sys.exit(0)
    if sys.argv[1] == "setup":
        build_all(); print("built"); sys.exit(0)
    main()
