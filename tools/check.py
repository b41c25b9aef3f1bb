#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   run one property's check (see MANIFEST.json)
   check.py --replay <replay file>        re-run a saved failure

Exit 0: held on everything explored (known findings are listed on KNOWN-FINDING lines).
Exit 1: VIOLATION property=<id> replay=<path>."""
import sys, os, json, time, subprocess, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B, registry

VT = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(VT): VT = shutil.which("python3-vt") or sys.executable

def child_env(flavour_dir, scratch):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": scratch, "LC_ALL": "C", "ALTA_PLUGIN_PATH": os.path.join(flavour_dir, "plugins"),
         "ALTA_FLAVOUR_DIR": flavour_dir, "PBT_SCRATCH": scratch, "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
         "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0", "VERIF_DIR": VERIF, "ALTA_REPO": B.REPO,
         "ASAN_OPTIONS": "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=4096:abort_on_error=0:exitcode=99:handle_segv=1"}
    return e

def argv_for(t, flavour_dir):
    if t["kind"] == "cpp": return [os.path.join(flavour_dir, "h_" + t["harness"])]
    return [VT, os.path.join(VERIF, "clitests", t["harness"] + ".py")]

def prepare(tests):
    """build every flavour needed; returns flavour -> dir"""
    need = {}
    for t in tests:
        n = need.setdefault(t["flavour"], (set(), set()))
        n[0].update(t["targets"])
        if t["kind"] == "cpp": n[1].add(t["harness"])
    return {fl: B.build(fl, sorted(tg), sorted(hs)) for fl, (tg, hs) in need.items()}

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def run_replay(t, fdir, tape, scratch, tag):
    d = os.path.join(scratch, "rp_" + tag); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "r")
    try: r = subprocess.run(argv_for(t, fdir) + ["--test", t["name"], "--replay", tape, "--out", out], env=child_env(fdir, d), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=d, timeout=400)
    except subprocess.TimeoutExpired: return 2, "timeout"
    return r.returncode, r.stdout.decode("utf-8", "replace")

def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2])); t = registry.find(rp["property"], rp["test"])
        dirs = prepare([t]); scratch = tempfile.mkdtemp(prefix="vf_")
        try:
            tp = os.path.join(scratch, "tape"); open(tp, "w").write("\n".join(map(str, rp["tape"])) + "\n")
            rc, o = run_replay(t, dirs[t["flavour"]], tp, scratch, "x"); print(o); sys.exit(1 if rc == 1 else 0)
        finally: shutil.rmtree(scratch, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.PROPS[pid]; tests = [dict(t) for t in spec["tests"] + spec.get("probes", [])]
    t0 = time.time()
    dirs = prepare(tests); t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    known = load_known(); kf = [k for k in known["findings"] if k["property"] == pid]
    viol = []; labels = {}; samples = []; per_test = []; ev = nt = disc = 0
    try:
        for t in spec.get("probes", []):
            if t["known"] not in [k["id"] for k in kf]: raise SystemExit("probe %s has no entry in known_findings.json" % t["name"])
        jobs = []
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        budget = (75.0 if tier == "quick" else 700.0) * 1.0
        for t in spec["tests"]:
            sh = t.get("shards", 4); n = t[tier] if tier in t else t["quick"] * 20
            n = max(1, int(n * scale))
            sh = min(sh, n)
            for i in range(sh): jobs.append((t, i, n // sh + (1 if i < n % sh else 0)))
        deadline = time.time() + (budget if tier == "quick" else budget)
        failing = []
        def work(j):
            t, i, n = j
            if failing and time.time() - t0 > 200: return t, i, None, ""      # a failure is known already (cases which hang are slow)
            fdir = dirs[t["flavour"]]
            d = os.path.join(scratch, "%s_%d" % (t["name"], i)); os.makedirs(d, exist_ok=True)
            rem = max(3.0, min(deadline - time.time(), t.get("maxtime", {}).get(tier, 1e9)))
            out = os.path.join(d, "o")
            cmd = argv_for(t, fdir) + ["--test", t["name"], "--seed", str(seed * 1009 + i), "--cases", str(n), "--maxtime", "%.1f" % rem,
                                       "--shrinktime", "20" if tier == "quick" else "60", "--out", out]
            with open(os.path.join(d, "log"), "wb") as lg:
                try: r = subprocess.run(cmd, env=child_env(fdir, d), stdout=lg, stderr=subprocess.STDOUT, cwd=d, timeout=rem + 420)
                except subprocess.TimeoutExpired: return t, i, None, "shard timed out"
            try: res = json.load(open(out + ".json"))
            except Exception as e: return t, i, None, "no result (%s): %s" % (r.returncode, open(os.path.join(d, "log"), errors="replace").read()[-3000:])
            if res["failed"]: failing.append(t["name"])
            return t, i, res, ""
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex: results = list(ex.map(work, jobs))
        agg = {}
        errors = []
        for t, i, res, err in results:
            if res is None and not err: continue
            if res is None: errors.append("%s/%d: %s" % (t["name"], i, err)); continue
            a = agg.setdefault(t["name"], dict(test=t["name"], cases=0, nontrivial=0, discarded=0, labels={}, samples=[]))
            for k in ("cases", "nontrivial", "discarded"): a[k] += res[k]
            for l, n in res["labels"].items(): a["labels"][l] = a["labels"].get(l, 0) + n
            if len(a["samples"]) < 2: a["samples"] += res["samples"][:1]
            if res["failed"] and not any(v[0]["name"] == t["name"] for v in viol) and not (viol and time.time() - t0 > 300):
                # a failure counts when it replays
                fdir = dirs[t["flavour"]]; hits = 0; o = ""
                need, tries = (1, 6) if t.get("threads") else (2, 3)      # schedules differ from run to run: seen twice is enough
                for k in range(tries):
                    rc, oo = run_replay(t, fdir, res["tape"], scratch, "%s_%d_%d" % (t["name"], i, k))
                    if rc == 1: hits += 1; o = oo
                    if hits >= need or k + 1 - hits > tries - need: break
                if hits >= need: viol.append((t, res, o))
                else: a["labels"]["unreproduced_failure"] = a["labels"].get("unreproduced_failure", 0) + 1; print("note: failure of %s did not replay (%d/%d): %s" % (t["name"], hits, tries, res["msg"][:300]))
        # known findings: each probe re-runs the listed failing case
        kf_out = []
        for t in spec.get("probes", []):
            tp = os.path.join(scratch, "empty"); open(tp, "w").write("")
            rc, o = run_replay(t, dirs[t["flavour"]], tp, scratch, "probe_" + t["name"])
            k = [k for k in kf if k["id"] == t["known"]][0]
            if rc == 1: print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"])); kf_out.append(k["id"])
            else: print("note: known finding %s does not fail on this tree" % k["id"])
        for a in agg.values(): ev += a["cases"]; nt += a["nontrivial"]; disc += a["discarded"]; samples += ["%s: %s" % (a["test"], s) for s in a["samples"]]
        n_v = 0
        seen = set()
        for t, res, o in viol:
            if t["name"] in seen: continue
            seen.add(t["name"]); n_v += 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s_%s.json" % (pid, t["name"]))
            tape = [int(x) for x in open(res["tape"]).read().split()]
            json.dump(dict(property=pid, test=t["name"], tape=tape, message=res["msg"], case=res["desc"], seed=res["seed"], replay_cmd="python3 tools/check.py --replay " + rp), open(rp, "w"), indent=1)
            print("FAILED %s.%s: %s\n  case: %s" % (pid, t["name"], res["msg"][:1500], res["desc"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = dict(property=pid, tier=tier, seed=seed, level="exploration",
                 coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=spec["rule"], samples=samples or ["(no sample)"], discarded=disc,
                               per_test=[dict(test=a["test"], cases=a["cases"], nontrivial=a["nontrivial"], discarded=a["discarded"], labels=a["labels"]) for a in agg.values()],
                               known_findings=kf_out, build_s=round(t_build, 1)),
                 assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=n_v)
        json.dump(e, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for a in agg.values():
            print("%-28s cases=%d nontrivial=%d discarded=%d %s" % (a["test"], a["cases"], a["nontrivial"], a["discarded"], " ".join("%s:%d" % x for x in sorted(a["labels"].items()))[:400]))
        if n_v: sys.stdout.flush(); sys.exit(1)
        if errors: print("\n".join(errors)); sys.exit(3)
        print("OK %s %s seed=%d cases=%d nontrivial=%d build=%.1fs wall=%.1fs" % (pid, tier, seed, ev, nt, t_build, time.time() - t0))
    finally: shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    try: main()
    except B.BuildError as e:
        print("build failed:\n%s" % e); sys.exit(3)
