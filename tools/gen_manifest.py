#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
    "C26": "A pure, sequential function from four values to a byte string, with no concurrency, time, I/O or second party; what of it crosses the wire is checked under C23.",
}
LEVEL = "Evidence from sampled executions, not proof. Trusts the simulated kernel (UDP, epoll, clocks, futex) to behave like Linux, the scheduling points (system calls, locks, atomics of the radius crate) to be the interleavings that matter, and the independent reference implementation of RFC 2865 in the oracle."
NOTE = {
    "C20": "Same seeds run on both builds, complete histories compared. ",
    "C25": "The generator runs on the committed dictionaries, the system is built once with the committed and once with the generated modules, the same seeds run on both, and complete histories are compared. ",
    "C22": "Seeded sampling: the real generator binary with faults injected at its file system calls; successful exits compared with a plain run and with an independent reading of the dictionaries. Evidence, not proof; failures reported only by close() are not injected.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, histories judged by an oracle",
        "level": "exploration",
        "level_note": NOTE["C22"] if i == "C22" else NOTE.get(i, "Seeded sampling of whole-system runs judged against a reference model. ") + LEVEL,
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "No hooks in /repo: the seams are the system calls (interposed at link time), a compiler pass that yields at atomics, and the crate's own traits. See DESIGN.md. Known findings: known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
