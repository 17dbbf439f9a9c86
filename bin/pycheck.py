"""C09..C14: seeded sweeps of the Python module simulator."""
import json, os, shutil, subprocess, sys, tempfile, time
from common import *
from cppcheck import count_union

# runs per worker and time cap of the sweep (seconds), per tier
BUDGET = {
    "C09": ((700, 45), (30000, 600)),
    "C10": ((2200, 45), (80000, 600)),
    "C11": ((2200, 40), (80000, 600)),
    "C12": ((2600, 45), (80000, 600)),
    "C13": ((1600, 45), (60000, 600)),
    "C14": ((2500, 40), (80000, 600)),
    "C16": ((1500, 45), (60000, 600)),
}
RULE = {
    "C09": "One run = one seeded computation over 3-5 slots of dense jets with save points, executed once without interruption and without any copy or restore code, and once through 1-3 crashes (at an operation, in the middle of a write, before fsync, before rename) with restarts from the simulated disk; every operation's outcome in every life is compared. Non-trivial: at least one crash happened. Distinct: by hash of everything observed.",
    "C10": "One run = one damaged saved state (bytes of a pickle, or the state given to __setstate__) restored twice in processes that differ only in the contents of fresh memory, followed by all kinds of operations on what was restored. Non-trivial: the damage was applied. Distinct: by hash of everything observed.",
    "C11": "One run = one seeded history of views taken, written and dropped, in-place updates (some failing), jets dropped, cycles collected and memory reused; all views and jets are compared with the model after every step. Non-trivial: at least one view was taken. Distinct: by hash of everything observed.",
    "C12": "One run = 2-3 Python threads calling operations on shared jets under one seeded schedule (switches between bytecodes, inside number conversions, and at single memory accesses whenever the interpreter lock is released); results and final contents must be explained by a serial order, found by search. Non-trivial: more switches than threads. Distinct: by hash of everything observed.",
    "C13": "One run = 1-5 operations called from Python, each executed without a failure on equal operands, up to seven times with allocation failures, and once more without. Non-trivial: at least one call failed. Distinct: by hash of everything observed.",
    "C14": "One run = 1-6 calls from Python, each made with arguments that do not fit, whose conversion fails at a drawn point (once or from then on), that lie about their length, or whose conversion runs another operation on the same jets; up to six times, then once with good arguments. Non-trivial: at least one call was refused or re-entered. Distinct: by hash of everything observed.",
    "C16": "One run = one program of 0-13 steps (operations, repeated imports, threads that end, collections) that leaves jets and views in 1-5 of 20 places (modules, types, cycles, suspended generators, blocked threads, exit functions, ...), may fork at a drawn point with a drawn order of the two processes, and ends by return, exit status or unhandled exception; every process ends through the interpreter's own finalisation and static destructors. Steps are compared with a process that neither forks nor holds anything; what is held is looked at whenever the interpreter gets to drop it. Non-trivial: every run. Distinct: by hash of everything observed.",
}
ASSUME = [
    "Sampling, not enumeration: a clean batch is evidence, not proof.",
    "The module is compiled with clang 18 -O1 from /repo's binding sources and header; CPython, numpy and pickle run as installed, without instrumentation.",
    "Allocation failures are injected at operator new / malloc as called by the module; not inside pybind11's table of instances, not for calls pybind11 itself refuses, and not in Python's own allocator.",
]
COMPONENTS = {
    "real": ["python/src and include/hyperjet/hyperjet.h (compiled unmodified)", "pybind11", "libstdc++", "Eigen", "CPython, pickle, numpy"],
    "simulated": ["scheduler of Python threads (interpreter lock)", "heap of the module (addresses, contents, reuse, exhaustion)", "disk holding saved states (C09)", "process crashes and restarts (C09)", "mutexes and static-init guards when the module uses them"],
    "stubbed": [],
}
SCRIPT = os.path.join(VERIF, "pysim", "pysim.py")


def python():
    for p in (os.environ.get("VERIF_PYTHON"), "/opt/vp/venv/bin/python"):
        if p and os.path.exists(p):
            return p
    return sys.executable


def build():
    src = os.path.join(VERIF, "pysim")
    key = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "python", "src")] + [os.path.join(src, f) for f in ("Makefile", "pyrt.cpp", "exports.map")])
    d = os.path.join(BUILD, "py-" + key)
    so = os.path.join(d, "hyperjet.so")
    if os.path.exists(so):
        return so, 0.0
    prune("py-", "py-" + key)
    t0 = time.time()
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    inc = subprocess.run([python(), "-c", "import sysconfig;print(sysconfig.get_path('include'))"], stdout=subprocess.PIPE, text=True).stdout.strip() or "/usr/include/python3.12"
    p = subprocess.run(["make", "-s", "-C", src, "-j%d" % CORES, "REPO=" + REPO, "OUT=" + tmp, "PYINC=" + inc, tmp + "/hyperjet.so"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("building the simulated module from %s failed:\n%s" % (REPO, p.stdout[-3000:]))
    for f in os.listdir(tmp):
        if f.endswith(".o"):
            os.remove(os.path.join(tmp, f))
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return so, time.time() - t0


def env(so):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.dirname(so), MALLOC_ARENA_MAX="1")
    return e


def run_json(so, *args, timeout=300):
    p = subprocess.run([python(), SCRIPT, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env(so))
    out = p.stdout.strip().splitlines()
    return p.returncode, (json.loads(out[-1]) if out else {"class": None, "stderr": p.stderr[-600:]})


def check(prop):
    t0 = time.time()
    if prop not in BUDGET:
        raise CheckError("unknown property " + prop)
    so, build_s = build()
    runs, cap = BUDGET[prop][1 if tier() == "thorough" else 0]
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix="pysim-%s-" % prop)
    try:
        procs, dirs = [], []
        ts = time.time()
        for w in range(CORES):
            d = os.path.join(work, "w%d" % w)
            os.makedirs(d)
            dirs.append(d)
            err = open(os.path.join(d, "stderr"), "w")
            procs.append(subprocess.Popen([python(), SCRIPT, "sweep", "--prop", prop, "--seed", str(seed()), "--from", str(w * runs), "--to", str((w + 1) * runs), "--cap", str(cap), "--out", d, "--max-violations", "3", "--known", json.dumps([k["class"] for k in known])], stdout=subprocess.DEVNULL, stderr=err, env=env(so)))
        for p in procs:
            p.wait(timeout=cap + 300)
        sweep_s = time.time() - ts
        res, errors, lost = [], [], []
        for p, d in zip(procs, dirs):
            f = os.path.join(d, "result.json")
            if not os.path.exists(f):
                raise CheckError("a worker gave no result: " + open(os.path.join(d, "stderr")).read()[-800:])
            r = json.load(open(f))
            if p.returncode or r["error"]:
                errors.append("simulator error: %s %s" % (r["error"], open(os.path.join(d, "stderr")).read()[-800:]))
            res.append(r)
        found = sorted((v for r in res for v in r["violations"]), key=lambda v: v["index"])
        unlisted = [v for v in found if not match_known(known, v["class"], v["message"])]
        verdict, lines = 0, []
        for k in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        seen = {}
        for v in unlisted:
            seen.setdefault(v["class"], []).append(v)
        for v in [v for n in range(3) for vs in seen.values() for v in vs[n:n + 1]][:6]:
            # gate: the recorded run must fail in the same way in fresh processes
            use, mini = v["file"], os.path.join(work, "mini.json")
            a, b = run_json(so, "replay", use), run_json(so, "replay", use)
            if a[0] != 1 or b[0] != 1 or a[1].get("class") != v["class"] or b[1].get("class") != v["class"]:
                lost.append({"violation": v, "replays": [a, b]})
                continue
            path = os.path.join(replay_dir(), "%s-seed%d-%d.json" % (prop, seed(), v["index"]))
            try:
                m = subprocess.run([python(), SCRIPT, "minimize", v["file"], mini, "25" if tier() == "quick" else "90"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(so), timeout=400)
                if m.returncode == 0 and os.path.exists(mini):
                    c, d = run_json(so, "replay", mini), run_json(so, "replay", mini)
                    if c == d and c[0] == 1 and c[1]["class"] == v["class"] and not match_known(known, v["class"], c[1]["message"]):
                        use, a, b = mini, c, d
            except subprocess.TimeoutExpired:
                pass
            if a != b:
                lines.append("note: the changed code reads memory that is not under the simulator's control; the violation reproduces, its details vary: %s / %s" % (str(a)[:300], str(b)[:300]))
            shutil.copy(use, path)
            lines.append("violation class: %s" % a[1]["class"])
            lines.append("%s" % a[1]["message"][:1500])
            lines.append("replay with: python3 %s replay %s" % (os.path.join(VERIF, "bin", "check.py"), path))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            verdict = 1
            break
        if verdict == 0 and errors:
            raise CheckError(errors[0])
        if verdict == 0 and len(lost) > 1:
            raise CheckError("violations that do not replay: %s" % lost[:2])
        for l in lost:
            lines.append("note: set aside, did not fail again when replayed: %s" % l["violation"])
        wall = time.time() - t0
        def add(k):
            d = {}
            for r in res:
                for n, v in r[k].items():
                    d[n] = d.get(n, 0) + v
            return d
        n = sum(r["runs"] for r in res)
        c = add("counters")
        cov = {
            "evaluations": n,
            "distinct_nontrivial": count_union(dirs, "hashes.bin"),
            "rule": RULE[prop],
            "samples": [s for r in res for s in r["samples"]][:3],
            "simulated_runs": n,
            "simulated_processes": sum(r["processes"] for r in res),
            "runs_repeated_to_prove_repeatability": sum(r["repeated"] for r in res),
            "runs_per_hour": int(n / max(sweep_s, 1e-9) * 3600),
            "seeds_per_hour": int(n / max(sweep_s, 1e-9) * 3600),
            "simulated_time_logical_steps": c["accesses"] + c["steps"],
            "simulated_time_measure": "memory accesses of the module plus scheduling decisions; nothing depends on a clock",
            "faults_fired": add("faults"),
            "outcomes": add("stats"),
            "counters": c,
            "distinct_interleavings": count_union(dirs, "scheds.bin"),
            "distinct_interleavings_measure": "distinct (program, list of thread switches with their step); only C12 has threads",
            "distinct_fault_sites": count_union(dirs, "cov.bin"),
            "distinct_fault_sites_measure": "distinct (jet class, operation or kind of damage, fault kind or crash stage, ordinal)",
            "components": COMPONENTS,
            "build_s": round(build_s, 1), "workers": CORES,
            "failures_that_did_not_replay": lost,
            "violations_found": [{k: v[k] for k in ("index", "class", "message")} for v in found][:10],
            "known_findings_seen": sorted({v["class"] for v in found if match_known(known, v["class"], v["message"])}),
        }
        if verdict == 0 and cov["distinct_nontrivial"] < 20:
            raise CheckError("only %d non-trivial runs: the check explored nothing" % cov["distinct_nontrivial"])
        write_evidence(prop, "exploration", cov, wall, 1 if verdict else 0, ASSUME)
        print("%s: %d simulated runs (%d distinct non-trivial) in %.1f s, build %.1f s" % (prop, n, cov["distinct_nontrivial"], sweep_s, build_s))
        for l in lines:
            print(l)
        return verdict
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    so, _ = build()
    rc, r = run_json(so, "replay", path)
    print(json.dumps(r))
    return rc
