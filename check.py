#!/usr/bin/env python3
"""check.py <property>: build the simulator from /repo's working tree, search, report.

Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough. Exit 0: held on everything explored;
1: violation (line "VIOLATION property=<id> replay=<path>"); 2: the check itself failed."""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402
import plan  # noqa: E402

SIMULATED = {
    "real code": ["scaleupROM sources of /repo's working tree (asserts on)", "MFEM 4.5.2", "HDF5 1.10", "yaml-cpp", "libstdc++ iostreams"],
    "simulated": ["file system calls (open, read, write, truncate, lock, stat, rename, close) on a scratch directory per run", "clocks", "random device",
                  "memory allocation failures", "MPI (ranks are processes that run one at a time under the seeded scheduler)", "process crash and restart"],
}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) detail=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append({"sig": m.group(2), "re": re.compile(m.group(3), re.S), "what": m.group(4), "seen": 0})
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = plan.PLAN[prop]
    t0 = time.time()
    exe = builder.build(P["target"])
    t_build = time.time() - t0
    work = os.path.join(VERIF, "build", "work.%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    nw = int(os.environ.get("VERIF_JOBS", "8"))
    runs = P["quick_runs"] if tier == "quick" else 10 ** 9
    limit = P["quick_s"] if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", P["thorough_s"]))
    procs = []
    ts = time.time()
    for w in range(nw):
        cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(nw), "--count", str((runs + nw - 1) // nw),
               "--limit", str(limit), "--out", os.path.join(work, "o%d" % w), "--replays", replays, "--tier", tier, "--known", os.path.join(VERIF, "known-findings.txt")]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "e%d" % w), "w")))
    rcs = [p.wait() for p in procs]
    t_search = time.time() - ts
    lines = []
    for w in range(nw):
        try:
            with open(os.path.join(work, "o%d" % w)) as f:
                for l in f:
                    lines.append(json.loads(l))
        except (OSError, ValueError) as e:
            print("check: cannot read the results of worker %d: %s" % (w, e), file=sys.stderr)
            rcs.append(9)
    errs = "".join(open(os.path.join(work, "e%d" % w)).read()[-500:] for w in range(nw))
    shutil.rmtree(work, ignore_errors=True)
    lines.sort(key=lambda d: d["run"])
    if any(rcs) or not lines:
        print("check: the simulator failed: %s %s" % (rcs, errs), file=sys.stderr)
        return 2

    faults, counters, sched, states, covers = collections.Counter(), collections.Counter(), set(), set(), set()
    viol, irrep, st_ok, st_all, nt = [], 0, 0, 0, 0
    for d in lines:
        faults.update(d["faults"])
        counters.update(d["counters"])
        sched.add(d["sched"])
        states.add(d["hash"])
        if d["nt"]:
            nt += 1
            covers.add(d["cover"])
        if "selftest" in d:
            st_all += 1
            st_ok += d["selftest"]
        if "irreproducible" in d:
            irrep += 1
        elif "sig" in d:
            viol.append(d)
    known = known_findings(prop)
    new = []
    for d in viol:
        hit = [k for k in known if k["sig"] == d["sig"] and k["re"].search(d["detail"])]
        if hit:
            hit[0]["seen"] += 1
        else:
            new.append(d)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    samples = []
    for d in lines:
        if "trace" in d and len(samples) < 2:
            samples.append({"run": d["run"], "trace": [x[:300] for x in d["trace"][:25]]})
    rule = subprocess.run([exe, "rule", "--prop", prop], stdout=subprocess.PIPE, text=True).stdout.strip()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "evaluations": len(lines),
            "distinct_nontrivial": len(covers),
            "rule": rule,
            "samples": samples,
            "nontrivial_runs": nt,
            "simulated_processes": sum(d["nodes"] for d in lines),
            "simulated_steps": sum(d["steps"] for d in lines),
            "simulated_time_s": sum(d["sim_ns"] for d in lines) / 1e9,
            "runs_per_hour": round(len(lines) / max(t_search, 1e-3) * 3600),
            "seeds_per_hour": round(len(lines) / max(t_search, 1e-3) * 3600),
            "faults_injected": dict(faults),
            "outcomes": dict(counters),
            "distinct_executions": {"count": len(states), "measure": "hash over every operation, message, result and output of the run"},
            "distinct_schedules": {"count": len(sched), "measure": "hash of the sequence of scheduled processes (runs without MPI share one value)"},
            "determinism_selftest": {"repeated_runs": st_all, "identical": st_ok},
            "irreproducible_violations": irrep,
            "components": SIMULATED if P["target"] == "core" else dict(SIMULATED, stub=plan.STUBS),
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d simulated processes, build %.0f s, search %.0f s, determinism %d/%d" %
          (prop, len(lines), len(covers), ev["coverage"]["simulated_processes"], t_build, t_search, st_ok, st_all))
    if new:
        shown = set()
        for d in new:
            if d["sig"] in shown:
                continue
            shown.add(d["sig"])
            print("  %s: %s (run %d)" % (d["sig"], d["detail"][:600].replace("\n", " "), d["run"]))
            if "replay" in d:
                print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print("check: %s" % e, file=sys.stderr)
        sys.exit(2)
