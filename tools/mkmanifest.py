"""Writes MANIFEST.json from tools/meta.py (claimed: those whose harness exists) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import meta
NA = {
    "P31": "pure algebra of values: no thread, clock, I/O, allocation or other party takes part, so a simulator has nothing to schedule or fail",
    "P32": "pure functions of their numeric arguments; nothing nondeterministic to simulate",
    "P33": "pure numeric propagation; nothing nondeterministic to simulate",
    "P34": "pure arithmetic conversions between representations of one time value; no clock is read by them",
    "P35": "pure comparison and hashing of one integer (drawing ids is P13, ids as text P23)",
    "P36": "the macros evaluate a condition and throw: a pure function of their arguments",
    "P37": "parsing of an in-memory string: a pure function of its input (file based loading, merging and failures are P18 and P19)",
    "P38": "pure numeric helpers",
    "P40": "what the bindings do beside the exported logging calls (P29) is converting values inside a Python interpreter: nothing to schedule or fail, and most of it needs numpy's development files, which the system's Python lacks",
}
LEVEL = {
    "P01": "Seeded random and priority-based (PCT) scheduling at every memory access and synchronisation operation of client threads and workers; spurious wakeups, allocation failures at scheduling; history oracle for order, exactly-once, work conservation at quiescence and future results.",
}
checks = []
for p in sorted(meta.P):
    module, level, real, stubs, quick = meta.P[p]
    if not os.path.exists(os.path.join(V, "harness", module + ".cpp")):
        continue
    src = open(os.path.join(V, "harness", module + ".cpp")).read()
    if f'"{p}"' not in src:
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check {p}",
        "thorough_cmd": f"./check {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, clocks and faults of the real code, minimised exact replays",
        "level": level,
        "level_note": meta.NOTE[p],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())] +
                      [{"property": p, "reason": "no check registered yet"} for p in sorted(meta.P) if p not in {c["property"] for c in checks}],
    "notes": "No hooks in /repo: every seam is at link level (see DESIGN.md). known-findings.txt lists repaired and recorded defects.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
