"""C01..C08, C15: seeded sweeps of the C++ simulator."""
import json, os, shutil, struct, subprocess, sys, tempfile, time
from common import *

# runs per worker and time cap of the sweep (seconds), per tier
BUDGET = {
    #       quick            thorough
    "C01": ((2400, 40), (120000, 600)),
    "C02": ((2400, 40), (120000, 600)),
    "C03": ((12000, 30), (400000, 500)),
    "C04": ((12000, 30), (400000, 500)),
    "C05": ((3200, 40), (120000, 600)),
    "C06": ((8000, 30), (300000, 500)),
    "C07": ((8000, 30), (300000, 500)),
    "C08": ((4800, 40), (160000, 600)),
    "C15": ((2400, 40), (120000, 600)),
}
RULE = {
    "C01": "One run = one seeded set of 2-4 threads evaluating expressions over shared read-only jets, executed under one seeded schedule (8 schedules per program) and compared operation by operation with each thread running alone. Non-trivial: at least one thread was preempted inside a library operation. Distinct: by hash of the full event log (programs, results, context switches).",
    "C02": "One run = one seeded set of 2-4 threads on disjoint jets, half of them with allocation failures, under one seeded schedule (8 per program), compared operation by operation with each thread alone. Non-trivial: at least one preemption inside a library operation. Distinct: by hash of the event log.",
    "C03": "One run = a seeded sequence of 1-5 value-producing operations; each faulted operation is executed without the fault, three times with it, and once more after memory is available. Non-trivial: at least one allocation failure fired. Distinct: by hash of the event log.",
    "C04": "One run = a seeded history of 2-7 in-place operations with allocation failures and refused arguments; the target is compared with its state before the failed call and with a fault-free reference. Non-trivial: at least one allocation failure fired. Distinct: by hash of the event log.",
    "C05": "One run = a seeded history of up to 14 operations per thread (1-3 threads) with allocation failures, executed three times with every load, store, allocation and release checked, then everything is destroyed and live allocations counted. Non-trivial: the library allocated memory and an allocation failed or at least three operations completed. Distinct: by hash of the event log.",
    "C06": "One run = a seeded history executed twice: with one filling of fresh heap and stack memory, and with another filling, another memory layout and an unrelated (partly failing) history before it; results are compared bit for bit. Non-trivial: at least one operation completed. Distinct: by hash of the event log.",
    "C07": "One run = a seeded sequence of stream outputs with sink faults (full, throwing, transient, short, slow, already failed, out of memory) and allocation failures, plus recovery. Non-trivial: at least one fault fired. Distinct: by hash of the event log.",
    "C08": "One run = 2-4 threads updating 1-3 shared jets in place under their locks, with self-updates and allocation failures, compared update by update with the serial model. Non-trivial: an update completed and a thread was preempted inside the library. Distinct: by hash of the event log.",
    "C15": "One run = 2-4 threads computing on their own jets and handing them over through 1-3 locked boxes (by reference, move, copy, replacement, update), each thread ending for real when it is done (its thread-local destructors are scheduled too); executed three times in one process with new threads each time (8 schedules per program), then all jets are destroyed. Every operation is compared with the same operations in the recorded hand-over order in a single thread. Non-trivial: a jet was taken over from another thread. Distinct: by hash of the event log.",
}
PROBES = ["operation completed although an allocation failed", "faulted operation refused", "faulted operation reported exhaustion", "text complete", "no text", "partial text", "stream exception", "update of a jet of another size accepted", "updates acknowledged", "updates by the jet itself", "exchanges through a box", "jets taken over from another thread", "jets taken over from a thread that had ended"]
ASSUME = [
    "Sampling, not enumeration: a clean batch is evidence, not proof.",
    "The library is compiled with clang 18 -O1 from /repo's header; std::string and stream templates are compiled with it; accesses inside the non-template C++ runtime and libc (number formatting, math functions) are not individual scheduling points.",
    "Allocation failures are injected at operator new / malloc as called by the library and by inlined standard-library and Eigen code.",
]
COMPONENTS = {
    "real": ["include/hyperjet/hyperjet.h (compiled unmodified)", "libstdc++ containers, strings and streams", "Eigen"],
    "simulated": ["thread scheduler", "heap (addresses, contents, exhaustion)", "mutexes, static-init guards and atomics when the library uses them", "output sinks (std::streambuf)"],
    "stubbed": [],
}


def run_json(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    out = p.stdout.strip().splitlines()
    return p.returncode, (json.loads(out[-1]) if out else {})


def count_union(dirs, name):
    s = set()
    for d in dirs:
        b = open(os.path.join(d, name), "rb").read()
        s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return len(s)


def check(prop):
    t0 = time.time()
    exe, build_s = build_hjsim()
    runs, cap = BUDGET[prop][1 if tier() == "thorough" else 0]
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix="hjsim-%s-" % prop)
    try:
        procs, dirs = [], []
        ts = time.time()
        for w in range(CORES):
            d = os.path.join(work, "w%d" % w)
            os.makedirs(d)
            dirs.append(d)
            err = open(os.path.join(d, "stderr"), "w")
            procs.append(subprocess.Popen([exe, "sweep", "--prop", prop, "--seed", str(seed()), "--from", str(w * runs), "--to", str((w + 1) * runs), "--cap", str(cap), "--out", d, "--max-violations", "4"], stdout=subprocess.DEVNULL, stderr=err))
        for p in procs:
            p.wait(timeout=cap + 200)
        sweep_s = time.time() - ts
        res, errors, lost = [], [], []
        for p, d in zip(procs, dirs):
            f = os.path.join(d, "result.json")
            if not os.path.exists(f):
                raise CheckError("a worker gave no result: " + open(os.path.join(d, "stderr")).read()[-800:])
            r = json.load(open(f))
            if p.returncode or r["error"]:
                errors.append("simulator error: " + open(os.path.join(d, "stderr")).read()[-800:])
            res.append(r)
        found = sorted((v for r in res for v in r["violations"]), key=lambda v: v["index"])
        unlisted = [v for v in found if not match_known(known, v["class"], v["message"])]
        verdict = 0
        lines = []
        for k in known:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        seen = {}
        for v in unlisted:
            seen.setdefault(v["class"], []).append(v)
        for v in [v for n in range(3) for vs in seen.values() for v in vs[n:n + 1]][:6]:
            # gate: the recorded run must fail in the same way in fresh processes
            use, mini = v["file"], os.path.join(work, "mini.replay")
            a, b = run_json([exe, "replay", use], 120), run_json([exe, "replay", use], 120)
            if a[0] != 1 or b[0] != 1 or a[1].get("class") != v["class"] or b[1].get("class") != v["class"]:
                lost.append({"violation": v, "replays": [a, b]})
                continue
            path = os.path.join(replay_dir(), "%s-seed%d-%d.replay" % (prop, seed(), v["index"]))
            m = subprocess.run([exe, "minimize", v["file"], mini, "25" if tier() == "quick" else "90"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if m.returncode == 0 and os.path.exists(mini):
                c, d = run_json([exe, "replay", mini], 120), run_json([exe, "replay", mini], 120)
                if c == d and c[0] == 1 and c[1].get("class") == v["class"]:
                    use, a, b = mini, c, d
            if a != b:
                lines.append("note: the changed code reads memory that is not under the simulator's control; the violation reproduces, its details vary: %s / %s" % (str(a)[:300], str(b)[:300]))
            shutil.copy(use, path)
            lines.append("violation class: %s" % a[1]["class"])
            lines.append("%s" % a[1]["message"])
            lines.append("replay with: python3 %s replay %s" % (os.path.join(VERIF, "bin", "check.py"), path))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            verdict = 1
            break
        if verdict == 0 and errors:
            raise CheckError(errors[0])
        if verdict == 0 and len(lost) > 1:
            raise CheckError("violations that do not replay: %s" % lost[:2])
        for l in lost:
            lines.append("note: set aside, did not fail again when replayed: %s" % l["violation"])
        tot = lambda k: sum(r[k] for r in res)
        add = lambda k: {n: sum(r[k][n] for r in res) for n in res[0][k]}
        wall = time.time() - t0
        n = tot("runs")
        cov = {
            "evaluations": n,
            "distinct_nontrivial": count_union(dirs, "/hashes.bin".lstrip("/")),
            "rule": RULE[prop],
            "samples": [s for r in res for s in r["samples"]][:4],
            "simulated_runs": n,
            "simulated_processes": tot("processes"),
            "runs_per_hour": int(n / max(sweep_s, 1e-9) * 3600),
            "seeds_per_hour": int(n / max(sweep_s, 1e-9) * 3600),
            "simulated_time_logical_steps": tot("steps"),
            "scheduling_points_by_kind": add("kinds"),
            "faults_fired": add("faults"),
            "distinct_interleavings": count_union(dirs, "scheds.bin"),
            "distinct_interleavings_measure": "distinct (program, list of context switches with their step)",
            "distinct_fault_and_preemption_sites": count_union(dirs, "cov.bin"),
            "distinct_fault_and_preemption_sites_measure": "distinct (kind of jet, operation, fault kind, ordinal of the failed allocation) and (preempted operation, preempting operation, kind of scheduling point)",
            "context_switches": tot("switches"), "preemptions_inside_operations": tot("preempt"), "blocked_on_lock": tot("contended"), "conflicting_accesses_seen": tot("conflicts"),
            "operations_completed": tot("okops"), "exhaustion_reported": tot("reported"), "operations_refused": tot("refused"), "operations_retried": tot("retried"),
            "runs_set_aside": tot("unsuitable"),
            "components": COMPONENTS,
            "build_s": round(build_s, 1), "workers": CORES,
            "probes": {n: v for i, n in enumerate(PROBES) for v in [sum(r["probes"][i] for r in res)] if v},
            "failures_that_did_not_replay": lost,
            "violations_found": [{"index": v["index"], "class": v["class"], "message": v["message"]} for v in found][:10],
        }
        if verdict == 0 and cov["distinct_nontrivial"] < 20:
            raise CheckError("only %d non-trivial runs: the check explored nothing" % cov["distinct_nontrivial"])
        write_evidence(prop, "exploration", cov, wall, 1 if verdict else 0, ASSUME)
        print("%s: %d simulated runs (%d distinct non-trivial) in %.1f s, build %.1f s" % (prop, n, cov["distinct_nontrivial"], sweep_s, build_s))
        for l in lines:
            print(l)
        return verdict
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    exe, _ = build_hjsim()
    rc, r = run_json([exe, "replay", path], 300)
    print(json.dumps(r))
    return rc
