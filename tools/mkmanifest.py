#!/usr/bin/env python3
"""Writes MANIFEST.json from the scenarios that exist (sim/dst/src/cNN.rs) and the properties."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "N01": "Pure closed-form arithmetic of one call: no schedule, clock, I/O, randomness or history for a simulator to control; a continuum of real inputs needs proof or input generation, not schedules. (That these calls do not depend on clock, history or threads is decided under C07 and C11.)",
    "N02": "A numerical identity of pure functions over a continuum of inputs; no nondeterminism to simulate. (Termination under hostile callbacks and clock faults is C14 and C07.)",
    "N03": "Mathematical consistency of pure functions; no schedule, fault or history can affect it. (Freshness of their samples is C03.)",
    "N04": "Correctness against external conventions is a table-and-rule question about pure functions of a date; a simulator adds nothing. (That answers do not depend on history, threads or the clock is C11 and C07.)",
    "N05": "Optimality of a deterministic fit is a numerical statement about one pure call; nothing to schedule or fail. (Independence from history and threads is C11.)",
    "N06": "Accuracy over a class of functions is numerical analysis of pure calls. (Termination and isolation under failing callbacks is C14.)",
    "N07": "Static tables and exact arithmetic compared with a published standard; no nondeterminism.",
    "N08": "A distributional identity over a continuum of Hurst parameters; deciding it needs statistics over many samples of one pure function, not schedules or faults. (Seeding, freshness and scaling of the noise are C01, C02, C03 and C05.)",
}
NOTE = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "sim/dst/src", i.lower() + ".rs")) or i in EXTRA:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + TECH[i],
            "level": "exploration",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none", "enable": "No hook in /repo: threads, clocks, entropy and allocation are intercepted at the C library boundary of the simulation binary, and preemption points are inserted by the compiler (sancov) when the checks build /repo's crates.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
