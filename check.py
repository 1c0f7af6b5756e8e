#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles the harnesses the property needs against the sources in /repo (environment: VERIF_REPO), runs the monitored workloads,
collects what the monitors observed, writes evidence/<id>.json and reports violations.
Exit status: 0 held on everything explored, 1 violated (VIOLATION line), 2 no verdict (harness failure).
"""
import argparse, collections, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import runs as R

JOBS = int(os.environ.get("VERIF_JOBS", "8"))

VARIANTS = {
    # the project's own optimisation flags
    "prod": "-O2 -g1 -march=native -ffast-math -funroll-loops",
    "asan": "-O1 -g -march=native -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
    # optimised, so that the Green's function's large cache reservations do not dominate
    "asan2": "-O2 -g1 -march=native -fsanitize=address,undefined -fno-sanitize=null,pointer-overflow,alignment -fno-sanitize-recover=all -fno-omit-frame-pointer",
    # data races
    "tsan": "-O1 -g -march=native -fsanitize=thread -fno-omit-frame-pointer",
    # for memcheck
    "plain": "-O2 -g1",
}


def scratch_root():
    """A memory file system if there is room (the workloads create and remove many small files), else /tmp."""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 4 << 30 and os.access("/dev/shm", os.W_OK | os.X_OK):
            return "/dev/shm"
    except OSError:
        pass
    return "/tmp"


def log(*a):
    print(*a, flush=True)


def source_of(harness):
    return R.HARNESSES.get(harness, {}).get("file", harness + ".cc")


def tree_hash(harness, variant, extra):
    h = hashlib.sha256()
    h.update(repr((harness, VARIANTS[variant], extra)).encode())
    roots = [os.path.join(REPO, d) for d in ("eisvogel", "extern", "applications")] + [os.path.join(VERIF, "harness")]
    for root in roots:
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".hh", ".hxx", ".cc", ".cxx", ".cpp", ".h", ".hpp")) and (root != os.path.join(VERIF, "harness") or f.endswith((".hh", ".hpp")) or f == source_of(harness)):
                    h.update(os.path.join(d, f).encode())
                    h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:24]


def compile_one(harness, variant, outdir):
    spec = R.HARNESSES.get(harness, {})
    cmd = ["g++", "-std=c++20", "-w"] + VARIANTS[variant].split() + ["-I" + os.path.join(VERIF, "harness")]
    cmd += ["-I" + i.replace("@", REPO).replace("%", VERIF) for i in spec.get("inc", [])]
    cmd += ["-I" + os.path.join(REPO, "eisvogel/core"), "-I" + os.path.join(REPO, "eisvogel/core/impl"), "-I" + REPO]
    cmd += spec.get("flags", [])
    out = os.path.join(outdir, harness + "." + variant)
    cache = os.environ.get("VH_CACHE")          # development only: reuse binaries for identical sources
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, tree_hash(harness, variant, spec.get("flags", [])))
        if os.path.exists(key):
            shutil.copy2(key, out)
            return out, 0.0, None
    cmd += [os.path.join(VERIF, "harness", source_of(harness))] + [s.replace("@", REPO) for s in spec.get("src", [])] + ["-o", out, "-luuid", "-ltbb"] + spec.get("libs", [])
    t = time.time()
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return None, time.time() - t, p.stderr[-4000:]
    if key:
        shutil.copy2(out, key + ".tmp%d" % os.getpid())
        os.rename(key + ".tmp%d" % os.getpid(), key)
    return out, time.time() - t, None


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                known.append(dict(property=f["property"], key=f["key"], text=line.split(None, 3)[3]))
    return known


def run_env(run):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:malloc_fill_byte=203:max_malloc_fill_size=65536"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"
    env.pop("MALLOC_PERTURB_", None)
    env.update(run.get("env", {}))
    return env


def read_records(prefix):
    recs = []
    for f in sorted(glob.glob(glob.escape(prefix) + ".*")):
        for line in open(f, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass          # torn last line of a killed worker
    return recs


def run_suite(binary, run, seed, tier, work, tag):
    """Returns (records, error)."""
    cases, budget = run[tier] if tier in run else run["quick"]
    out = os.path.join(work, tag)
    cmd = [binary, "--suite", run["suite"], "--seed", str(seed), "--cases", str(cases), "--budget", str(budget), "--jobs", str(min(JOBS, run.get("jobs", JOBS))),
           "--scratch", work, "--out", out, "--tscale", str(run.get("tscale", 4 if "san" in run["variant"] else 1))]
    if tier == "thorough":
        cmd.append("--thorough")
    p = subprocess.run(run.get("wrap", []) + cmd, capture_output=True, text=True, errors="replace", env=run_env(run), timeout=budget + 700)
    if p.returncode:
        return [], "runner %s exited with %d: %s" % (tag, p.returncode, p.stderr[-500:])
    recs = read_records(out)
    for x in recs:
        if x.get("key") == "memcheck":
            x["msg"] += "\n" + p.stderr[:2000]
    return recs, None


def confirm(binary, run, seed, tier, idx, work, timeout):
    """Repeats one case alone; returns True if it fails again (in whatever way)."""
    out = os.path.join(work, "confirm.%d" % idx)
    cmd = run.get("wrap", []) + [binary, "--suite", run["suite"], "--seed", str(seed), "--only", str(idx), "--scratch", work, "--out", out]
    if tier == "thorough":
        cmd.append("--thorough")
    try:
        p = subprocess.run(cmd, capture_output=True, env=run_env(run), timeout=timeout)
    except subprocess.TimeoutExpired:
        return True
    if p.returncode:
        return True
    try:
        return any("key" in json.loads(l) for l in open(out))
    except OSError:
        return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only runs whose harness or suite contains this")
    a = ap.parse_args()
    pid, tier, seed = a.property, a.tier, a.seed
    spec = R.RUNS[pid]
    t0 = time.time()
    runs = list(spec["runs"])
    if a.only:
        runs = [r for r in runs if a.only in r["harness"] or a.only in r["suite"]]
    only_idx = None
    if a.replay:
        rep = json.load(open(a.replay))
        runs = [r for r in runs if r["suite"] == rep["suite"] and r["variant"] == rep["variant"] and r["harness"] == rep["harness"] and r.get("env", {}) == rep.get("env", {})][:1]
        seed, tier, only_idx = rep["seed"], rep["tier"], rep["case"]

    work = tempfile.mkdtemp(prefix="verif.%s." % pid, dir=os.environ.get("VERIF_SCRATCH") or scratch_root())
    violations, known_seen, errors = [], collections.OrderedDict(), []
    evals = 0
    sigs, samples, counters, per_run = set(), [], collections.Counter(), []
    known = [k for k in load_known() if k["property"] == pid]
    try:
        # ---- build
        need = sorted({(r["harness"], r["variant"]) for r in runs})
        bins = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as ex:
            futs = {ex.submit(compile_one, h, v, work): (h, v) for h, v in need}
            for f in concurrent.futures.as_completed(futs):
                h, v = futs[f]
                b, dt, err = f.result()
                if err:
                    errors.append("cannot compile %s (%s):\n%s" % (h, v, err))
                bins[(h, v)] = b
        if errors:
            for e in errors:
                log("ERROR:", e)
            return 2
        t_build = time.time() - t0

        # ---- replay of one case
        if only_idx is not None:
            r = runs[0]
            out = os.path.join(work, "replay")
            cmd = r.get("wrap", []) + [bins[(r["harness"], r["variant"])], "--suite", r["suite"], "--seed", str(seed), "--only", str(only_idx), "--scratch", work, "--out", out] + (["--thorough"] if tier == "thorough" else [])
            p = subprocess.run(cmd, env=run_env(r))
            print(open(out).read() if os.path.exists(out) else "", "exit status", p.returncode)
            return 0

        # ---- run
        digests = collections.defaultdict(dict)      # (digest group, idx) -> {run tag: digest}
        for n, r in enumerate(runs):
            tag = "%s-%s-%s-%d" % (r["harness"], r["variant"], r["suite"], n)
            t = time.time()
            recs, err = run_suite(bins[(r["harness"], r["variant"])], r, seed, tier, work, tag)
            if err:
                errors.append(err)
            ran = [x for x in recs if "key" not in x or x.get("cnt") or x.get("desc")]
            evals += len(recs)
            cnt = collections.Counter()
            for x in recs:
                if x["nt"] and "key" not in x:
                    sigs.add((r["suite"], x["sig"]))
                for k, v in x["cnt"].items():
                    cnt[k] += v
                if "desc" in x and "key" not in x and len(samples) < 12 and sum(1 for s in samples if s["suite"] == r["suite"]) < 3 and x["nt"]:
                    samples.append(dict(suite=r["suite"], case=x["idx"], text=x["desc"][:600]))
                if "key" in x:
                    key = x["key"]
                    if key in ("hang", "crash") and ("signal 9" in x["msg"] or key == "hang") and not confirm(bins[(r["harness"], r["variant"])], r, seed, tier, x["idx"], work, 240):
                        counters["unconfirmed_" + key] += 1      # not reproducible when run alone: inconclusive
                        continue
                    k = next((k for k in known if k["key"] == key), None)
                    if k:
                        known_seen[k["key"]] = k
                        continue
                    violations.append(dict(property=pid, harness=r["harness"], variant=r["variant"], suite=r["suite"], env=r.get("env", {}), seed=seed, tier=tier,
                                           case=x["idx"], key=key, message=x["msg"], description=x.get("desc", "")))
                elif r.get("digest"):
                    digests[(r["digest"], x["idx"])][tag] = (x["dig"], r, x)
            counters.update(cnt)
            per_run.append(dict(harness=r["harness"], variant=r["variant"], suite=r["suite"], env=r.get("env", {}), cases=len(recs), seconds=round(time.time() - t, 1), events=dict(cnt)))
            floor = r.get("floor", 1)
            if len(recs) < floor and not any(v["suite"] == r["suite"] for v in violations):
                errors.append("%s: only %d cases ran (expected at least %d)" % (tag, len(recs), floor))
            log("%-40s %7d cases %6.1f s  %s" % (tag, len(recs), time.time() - t, " ".join("%s=%d" % kv for kv in sorted(cnt.items())[:8])))
            if violations and len(violations) >= 20:
                break
        # ---- monitors that compare runs with each other
        ncmp = 0
        for (grp, idx), d in sorted(digests.items(), key=lambda kv: kv[0][1]):
            if len(d) > 1:
                ncmp += 1
                if len({v[0] for v in d.values()}) > 1:
                    r, x = list(d.values())[-1][1:]
                    violations.append(dict(property=pid, harness=r["harness"], variant=r["variant"], suite=r["suite"], env=r.get("env", {}), seed=seed, tier=tier, case=idx,
                                           key="digest", message="observable results differ between runs: " + ", ".join("%s=%d" % (k, v[0]) for k, v in d.items()), description=x.get("desc", "")))
        if ncmp:
            counters["digests_compared"] = ncmp
        if "post" in spec and not a.only:
            ctx = dict(pid=pid, bins=bins, seed=seed, tier=tier, work=work, jobs=JOBS, repo=REPO, counters=counters, run_env=run_env, log=log)
            v2, ev2, err2 = getattr(R, spec["post"])(ctx)
            violations += v2
            evals += ev2
            errors += err2
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # ---- verdict
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=spec["rule"], samples=samples or [dict(text="no sample recorded")],
               events=dict(counters), runs=per_run, build_s=round(t_build, 1))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_seen.values():
        log("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    if violations:
        # prefer the shortest explanation: monitors before crashes, small cases first
        violations.sort(key=lambda v: v["case"])
        v = violations[0]
        path = os.path.join(outdir, "%s-%s-%d.json" % (pid, v["suite"], v["case"]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        log("%d violating cases; first: suite %s, case %d, %s: %s" % (len(violations), v["suite"], v["case"], v["key"], v["message"][:1500]))
        if v["description"]:
            log("history:", v["description"][:1500])
        log("replay with: python3 check.py %s --replay %s" % (pid, path))
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [k for k in known if k["key"] not in known_seen]
    for k in missing:
        log("note: the listed finding %s was not observed in this run" % k["key"])
    if errors:
        for e in errors:
            log("ERROR:", e)
        return 2
    log("property %s held on %d executions (%d distinct non-trivial), %.1f s" % (pid, evals, len(sigs), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
