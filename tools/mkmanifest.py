#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.PLAN and properties.jsonl."""
import json
import os
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C20": "the derivative of an integrator is a pure function of its state: no schedule, clock, I/O, randomness or history for a simulator to decide",
    "C21": "equality of two quadrature sums is a pure function of the inputs: nothing for deterministic simulation to control",
    "C22": "convergence order is a numerical property of pure functions, not of an execution",
    "C23": "one smoother sweep is a pure function of matrix and vector: nothing for deterministic simulation to control",
    "C24": "algebraic identities of pure kernels: nothing for deterministic simulation to control",
}
NA.update(plan.NA if hasattr(plan, "NA") else {})
m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(sorted({x["target"] for x in plan.PLAN.values()})),
     "checks": [], "not_applicable": [],
     "notes": "Deterministic simulation with link-time seams; no hooks in /repo. python3 replay.py FILE replays a violation. See DESIGN.md."}
for q in props:
    i = q["id"]
    if i in plan.PLAN:
        P = plan.PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and histories)",
                            "level": P["level"],
                            "level_note": P["note"] + ". Sampled by seed, not exhaustive. Assumes: " + "; ".join(P["assumptions"]) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
