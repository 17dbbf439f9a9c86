#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded instruction-level thread schedules over shared read-only jets, compared with each thread alone", "Seeded sampling of interleavings at every memory access, allocation and call of the library, with happens-before conflict detection on library memory. Assumes sequentially consistent execution between scheduling points; accesses inside the precompiled libstdc++ are not separate scheduling points."),
    "C02": ("seeded instruction-level thread schedules with allocation failures over disjoint jets, compared with each thread alone", "As C01, with allocation failures in half of the threads. Hidden shared state is found when it changes a result or is accessed in conflict."),
    "C03": ("simulated heap with injected allocation failures, reference result, leak accounting and retry", "Each value-producing operation is run with its allocations failing (single, repeated, persistent, size-limited); sampled over operations, kinds of jet, sizes and values."),
    "C04": ("simulated heap with injected allocation failures and refused arguments in in-place histories, before/after oracle", "The target is compared bit for bit with its state before the failed call and with a fault-free execution. Nested scalars are outside the property."),
    "C05": ("simulated heap checking every load, store, allocation and release over histories with failures and schedules", "Every access made by library code is checked against the live simulated allocations and stack objects of the run; leaks are counted at the end of each history."),
    "C06": ("replays of one history under different simulated heap/stack contents, layouts and prior (failing) histories", "Bitwise comparison of two executions that differ only in what the simulator controls."),
    "C07": ("simulated stream sinks with injected write faults and allocation failures, prefix/visibility/recovery oracle", "Sinks that fill up, throw, fail transiently or accept short writes at every byte position drawn; compared with the text of a healthy stream."),
    "C08": ("seeded schedules of lock-protected in-place updates with failures and retries against a serial reference model", "Recorded acknowledged updates are applied to an independent serial model in lock order; compared to rounding after every update."),
    "C15": ("seeded schedules of threads that hand jets over through locked boxes and end while others run, compared with the recorded hand-over order in a single thread", "Sampled programs and schedules; thread ends, with the destructors of thread-local objects, are scheduled like any other step; three generations of threads per run, then leak accounting."),
}
NA = {
    "C20": "pure function of its input: no schedule, clock, fault, I/O or other party takes part, so simulating it would be input generation under another name (the in-place and self-update part that depends on histories is C08)",
    "C21": "pure function of its input: no schedule, fault or I/O takes part (in-place histories are C08)",
    "C22": "compares pure functions on the same input; no schedule, fault or I/O takes part",
    "C23": "pure function of its arguments (what a refused update leaves behind is C04, damaged saved states are C10)",
    "C24": "pure index arithmetic; no schedule, fault or I/O takes part (out-of-storage accesses are C05)",
    "C25": "pure function of two values",
    "C26": "pure function of its input",
    "C27": "pure function of its input (failures inside matrix expressions are C03)",
    "C28": "pure function of its input (faults below the Python interface are C13)",
}
try:
    from manifest_py import PY
    CHECKS.update(PY)
except ImportError:
    for i in ("C09", "C10", "C11", "C12", "C13", "C14", "C16"):
        NA[i] = "check under construction"
m = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile the unmodified header and binding sources with their own compiler flags (-fsanitize=thread call-outs bound to the simulator) and link-time wrappers", "source_commits": []},
    "checks": [{"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "python3 bin/check.py %s --thorough" % i, "technique": T + t, "level": "exploration", "level_note": n + " Sampling: a clean batch is evidence, not proof."} for i, (t, n) in sorted(CHECKS.items())],
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in CHECKS],
    "notes": "Every check builds from /repo's current tree into /verif/build (ignored by git). 'python3 bin/check.py replay FILE' replays a reported violation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
