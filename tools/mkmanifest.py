"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
NOT = {
    "N03": "a statement about a probability distribution; simulated runs fix the random source and cannot decide it (R02 decides reproducibility and structure, and compares approval frequencies with the parameters)",
}
NOTES = {
    "S01": "seeded search over reported optima, rounding noise and histories; trusts HiGHS on tiny models and the reference model; solver packages are simulated",
    "S02": "as S01, for Monroe and minimax AV rules",
    "S03": "as S01, for load and support programs; leximax-Phragmen with uniform weights only",
    "S04": "seeded search over profiles, committees, quotas and reported solutions against exhaustive definitions; priceability decided by LP relaxation",
    "S05": "as S04, the printed counterexample is parsed and verified against the definition",
    "S06": "seeded search over solver statuses/exceptions at every solve; a solver that lies about optimality or infeasibility is out of scope",
    "C01": "real threads released one line at a time by a seeded scheduler; preemption at Python line granularity in library code",
    "C02": "seeded interruption at executed library lines and failing output streams; C-level atomicity assumed",
    "H01": "seeded histories with interrupted calls against an exact reference model",
    "H02": "seeded histories with interrupted calls against an exact reference model",
    "H03": "seeded histories with interrupted calls against an exact reference model",
    "V01": "seeded histories of illegal and legal requests, edits and interrupted calls; every illegal one has to be refused",
    "H05": "seeded histories with interrupted calls against the definitions of the scores",
    "H04": "seeded histories of verbosity/logger changes and stream failures; printed committees parsed",
    "A01": "the library is re-imported under simulated package availability; solvers simulated",
    "R01": "Python's random module seeded per draw; outcomes compared with all voter orders",
    "R02": "generator histories re-run under the same seed with interleaved foreign random use",
    "D01": "simulated in-memory file system, seeded instances and histories",
    "D02": "simulated in-memory file system, seeded profiles and PrefLib texts",
    "D03": "simulated file system with lost/short/torn writes, ENOSPC/EIO and crashes at seeded operations",
    "D04": "seeded truncations, corruptions, read errors and directory orders",
    "P01": "seeded edit histories, rejected and interrupted edits, against a list model",
}
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NOT:
        na.append({"property": pid, "reason": NOT[pid]})
    elif os.path.exists(os.path.join(here, "sim", "props", pid + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": NOTES[pid],
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python selftest.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo were needed: all seams (solver packages, file system, random sources, threads, trace events) are outside the library. Replay a violation with: /opt/venv/bin/python replay.py replays/<file>.json",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
