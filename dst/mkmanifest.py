"""Writes MANIFEST.json from dst/meta.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import meta  # noqa

checks = []
for p in sorted(meta.PROPS):
    m = meta.PROPS[p]
    checks.append({
        "property": p, "quick_cmd": f"./check check {p}", "thorough_cmd": f"./check check {p} --tier thorough",
        "technique": m["technique"], "level": m["level"],
        "level_note": (m["note"] + " " if m["note"] else "") +
        "Seeded search over schedules, faults and workloads (" + str(m["runs"]["quick"]) + " runs in quick, up to " +
        str(m["runs"]["thorough"]) + " in thorough); a clean batch is evidence, not proof. Assumes numpy, scipy, pandas and CPython are right; see assumptions in the evidence file.",
    })
na = {
    "N01": "A pure function of its input: no schedule, clock, I/O, randomness or fault for a simulator to decide.",
    "N02": "A statement about the distribution over all seeds of a pure function of seed and position; simulation samples executions and cannot establish a distribution.",
    "N03": "An expectation over random maps of a pure computation; no nondeterminism or fault is involved once the seed is given.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
rest = [i for i in ids if i not in meta.PROPS]
out = {
    "version": 1, "setup_cmd": "./check setup", "checks": checks,
    "not_applicable": [{"property": i, "reason": na.get(i, "check not built yet")} for i in rest],
    "notes": "All checks share one simulator (dst/sim.py). No hooks in /repo: the seams are Python's own (threading, concurrent.futures, time, os, numpy, builtins) plus sys.monitoring.",
}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
