#!/usr/bin/env python3
"""check driver:  run.py <property> [quick|thorough]

Builds the harness from /repo's current tree, runs the property's symbolic
jobs, validates sampled paths against the native build, replays every finding
natively, and writes evidence/<property>.json."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import specs

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = int(os.environ.get("FCB_CORES", "8"))
NEWZ3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            open("/proc/self/oom_score_adj", "w").write("800")
        except OSError:
            pass
    return f


def job_name(j):
    return f"{j['entry']}({','.join(str(p) for p in j.get('params', []))})"


def run_job(engine, ll, j, tmp, deadline):
    out = f"{tmp}/{hashlib.sha1(job_name(j).encode()).hexdigest()[:12]}.json"
    t = min(j["time"], max(5, deadline - time.time()))
    cmd = [engine, ll, "--entry", j["entry"], "--out", out,
           "--param", ",".join(str(p) for p in j.get("params", [])),
           "--time", str(int(t)), "--seed", str(SEED),
           "--samples", str(j.get("samples", 6)), "--findings", str(j.get("findings", 4))]
    for k, f in (("steps", "--steps"), ("paths", "--paths"), ("heap", "--heap")):
        if k in j:
            cmd += [f, str(j[k])]
    if j.get("z3new"):
        cmd += ["--z3", NEWZ3]
    if j.get("merge"):
        cmd += ["--merge"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 60, preexec_fn=limits(j.get("gb", 12)))
        err = r.stderr[-1500:] + r.stdout[-500:]
        rc = r.returncode
    except subprocess.TimeoutExpired:
        err, rc = "engine timed out", -1
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError as e:
            err += str(e)
    return dict(job=j, rc=rc, err=err, res=res, wall=time.time() - t0)


def native(nat, entry, params, vals, tmp, timeout=20, valgrind=False):
    """-> dict(kind, detail, obs)"""
    fd, vf = tempfile.mkstemp(dir=tmp, suffix=".vals")
    os.write(fd, ("\n".join(str(v) for v in vals) + "\n").encode())
    os.close(fd)
    work = tempfile.mkdtemp(dir=tmp)
    e = {"SYM_VALS": vf, "SYM_PARAMS": ",".join(str(p) for p in params), "TMPDIR": work, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
    cmd = [nat, entry]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e, cwd=work, preexec_fn=limits(8) if not valgrind else None)
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        rc = None
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        err = ""
    finally:
        shutil.rmtree(work, ignore_errors=True)
        os.unlink(vf)
    obs = [int(m) for m in re.findall(r"^@@OBS (\d+)$", out, re.M)]
    notes = re.findall(r"^@@NOTE (.*)$", out, re.M)
    fail = re.findall(r"^@@FAIL (.*)$", out, re.M)
    if rc is None:
        k, d = "hang", f"no result within {timeout} s"
    elif fail:
        k, d = "assert", fail[0]
    elif "@@ASSUME" in out:
        k, d = "assume", "an assumption of the harness does not hold"
    elif rc == 0 and "@@DONE" in out:
        k, d = "ok", ""
    elif "panicked at" in err:
        k, d = "panic", " ".join(err[err.index("panicked at"):].split())[:400]
    elif rc == 99 and valgrind:
        k, d = "memory", err[:600]
    else:
        k, d = "crash", f"exit {rc}: {err[-300:]}"
    return dict(kind=k, detail=d, obs=obs, notes=notes)


def known_findings():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(pid, job, f, nat):
    for k in known_findings():
        if k.get("status") != "open" or k["property"] != pid:
            continue
        if k["entry"] != job["entry"]:
            continue
        if k.get("params") is not None and k["params"] != list(job.get("params", [])):
            continue
        if k["kind"] == f["kind"] and re.search(k["match"], f["msg"] + " || " + nat["detail"]):
            return k
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    spec = specs.SPECS[pid]
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    if tier == "quick":
        jobs = [j for j in jobs if j.get("tier") != "thorough"]
    else:
        # a deeper twin replaces the quick instance of the same name
        names = {j["name"] for j in jobs if j.get("tier") == "thorough" and "name" in j}
        jobs = [j for j in jobs if not (j.get("tier", "quick") == "quick" and j.get("name") in names)]
    if only:
        jobs = [j for j in jobs if re.search(only, job_name(j))]
    bins = sorted({j["bin"] for j in jobs})
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(B.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="fcbcheck.", dir=B.BUILD)
    try:
        return check(pid, tier, spec, jobs, bins, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, spec, jobs, bins, tmp, t0):
    limit = 840 if tier == "quick" else 4 * 3600
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            fe = ex.submit(B.engine)
            fb = ex.submit(B.build, bins)
            engine, built = fe.result(), fb.result()
    except B.BuildError as e:
        print(f"ERROR: build failed\n{e}")
        return 2
    tb = time.time() - t0
    deadline = t0 + limit - 60
    results = []
    jobs.sort(key=lambda j: -j["time"])
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(run_job, engine, built[j["bin"]][0], j, tmp, deadline) for j in jobs]
        for f in cf.as_completed(futs):
            results.append(f.result())
    ts = time.time() - t0 - tb
    results.sort(key=lambda r: job_name(r["job"]))

    errors, incon, viol, known, notes = [], [], [], [], []
    validated = 0
    samples = []
    tot = dict.fromkeys("paths completed instructions forks symbolic_branches queries sat unsat fp_queries order_queries core_queries core_fallback cache_hits unsat_crosschecked solver_unknown limit resource_cut infeasible".split(), 0)
    solver_s = 0.0
    funcs = set()
    per = []
    exhaustive = True
    z3v = ""
    for r in results:
        j, res, nm = r["job"], r["res"], job_name(r["job"])
        nat = built[j["bin"]][1]
        params = j.get("params", [])
        if res is None:
            incon.append(f"{nm}: the executor gave no result (rc {r['rc']}): {r['err'][-400:]}")
            exhaustive = False
            per.append(dict(job=nm, note="no result"))
            continue
        for k in tot:
            tot[k] += res.get(k, 0)
        solver_s += res["solver_s"]
        z3v = res.get("solver", z3v)
        funcs |= {f for f in res["functions"]}
        complete = not res["incomplete"] and not res["limit"] and not res["solver_unknown"] and not res["resource_cut"]
        if not complete:
            exhaustive = False
            incon.append(f"{nm}: not exhaustive: {res['incomplete'] or ''} {json.dumps(res['limits'])}")
        # vacuity: the required witnesses
        missing = [k for k in j.get("reach", [1]) if str(k) not in res["reach"]]
        if missing and complete and not res["findings"]:
            errors.append(f"{nm}: vacuous, witness {missing} was not reached on any path")
        # translator validation
        ok = 0
        for s in res["samples"][: j.get("samples", 6)]:
            n = native(nat, j["entry"], params, s["vals"], tmp)
            want = [int(x) for x in s["obs"]]
            if n["kind"] != "ok" or n["obs"] != want:
                # a finding of its own when the real code misbehaves where the executor did not see it
                if n["kind"] in ("assert", "panic", "crash", "hang"):
                    viol.append((j, dict(kind=n["kind"], msg="native run of a path the executor completed", vals=s["vals"], trace=[]), n))
                else:
                    errors.append(f"{nm}: executor and native build disagree on {s['vals']}: native {n['kind']} {n['detail']} obs {n['obs']}, executor {want}")
            else:
                ok += 1
        validated += ok
        if res["samples"] and len(samples) < 12:
            samples.append(dict(job=nm, assignment=res["samples"][-1]["vals"][:40], observed=res["samples"][-1]["obs"][:20]))
        # findings
        for f in res["findings"]:
            n = None
            for _ in range(4):
                n = native(nat, j["entry"], params, f["vals"], tmp)
                if n["kind"] not in ("ok", "assume"):
                    break
            if n["kind"] == "ok" and f["kind"] == "memory":
                n = native(nat, j["entry"], params, f["vals"], tmp, timeout=60, valgrind=True)
            if n["kind"] in ("ok", "assume"):
                errors.append(f"{nm}: finding does not reproduce natively ({n['kind']}): {f['kind']} {f['msg']} values {f['vals'][:40]}")
                continue
            k = match_known(pid, j, f, n)
            if k:
                known.append((k, j, f, n))
            else:
                viol.append((j, f, n))
        # required known counterexamples: nothing to do, a known finding that is gone is simply not printed
        per.append(dict(job=nm, complete=complete, paths=res["paths"], completed=res["completed"], instructions=res["instructions"],
                        queries=res["queries"], solver_s=res["solver_s"], wall_s=res["wall_s"], reach=sorted(res["reach"]),
                        bounds=j.get("bounds", ""), validated=ok))
    # several findings of one job that differ only in the values are one violation
    seen = set()
    for k, j, f, n in known:
        key = k["id"]
        if key not in seen:
            seen.add(key)
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = VERIF + "/evidence/replay"
    vids = set()
    for j, f, n in viol:
        key = (j["entry"], n["kind"], n["detail"][:120])
        if key in vids:
            continue
        vids.add(key)
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(repr((pid, key)).encode()).hexdigest()[:10]
        path = f"{rdir}/{pid}-{j['entry']}-{h}.json"
        json.dump(dict(property=pid, bin=j["bin"], entry=j["entry"], params=j.get("params", []), finding=f, native=n,
                       how="python3 vlib/replay.py " + path), open(path, "w"), indent=1)
        print(f"  {job_name(j)}: {f['kind']}: {f['msg'][:200]} | native: {n['kind']} {n['detail'][:200]}")
        print(f"VIOLATION property={pid} replay={path}")
    fc = sorted(f for f in funcs if "fcb_core" in f or "/cli/" in f or f.startswith(("writer/", "reader/", "packed_rtree/", "static_btree/", "http_reader/", "cj_utils", "lib.rs")))
    ev = dict(
        property=pid, tier=tier, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples,
            exhaustive=exhaustive and not errors,
            explanation="states: symbolic paths explored (each stands for every input that satisfies its path condition); transitions: IR instructions executed symbolically; traces validated: completed paths whose model was re-run in the native build with identical observations",
            queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_fp=tot["fp_queries"],
            decided_by=dict(builtin_bitblast=tot["core_queries"], order_theory=tot["order_queries"], cache=tot["cache_hits"], z3_fallback=tot["core_fallback"] + tot["fp_queries"], unsat_crosschecked_with_z3=tot["unsat_crosschecked"], z3=z3v),
            solver_unknown=tot["solver_unknown"], paths_cut_by_resource_model=tot["resource_cut"], solver_s=round(solver_s, 2),
            jobs=per, functions_encoded=fc, functions_total=len(funcs),
            bounds=spec["bounds"], outside=spec.get("outside", ""), inconclusive=incon, errors=errors,
            known_findings=sorted(seen), build_s=round(tb, 1), solve_s=round(ts, 1),
        ),
        assumptions=spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
        violations=len(vids), wall_s=round(time.time() - t0, 1),
    )
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {len(results)} jobs, {tot['paths']} paths, {tot['queries']} queries, {validated} paths validated natively, "
          f"build {tb:.0f}s solve {ts:.0f}s, exhaustive within bounds: {ev['coverage']['exhaustive']}")
    for i in incon:
        print("INCONCLUSIVE:", i[:600])
    if vids:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e[:900])
        return 2
    if not any(p.get("paths") for p in per):
        print("ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
