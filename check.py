#!/opt/venv/bin/python
"""Seeded simulation campaign for one property.

    check.py PROP [--tier quick|thorough] [--seed N] [--cases N] [--wall S] [--only I,J]

Exit 0: property held on every simulated run; 1: violation (replay file written, line
"VIOLATION property=<id> replay=<path>"); 2: the machinery itself could not decide."""

import argparse
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

from sim import engine  # noqa: E402
from sim.core import derive_seed  # noqa: E402

SLOTS = 8  # fixed partition of case indices; each slot has its own PYTHONHASHSEED
PYTHON = sys.executable


def hash_seed(master, slot):
    return derive_seed(master, "hashseed", slot) % 4294967295


class Worker:
    def __init__(self, pid, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[var] = "1"
        self.proc = subprocess.Popen(
            [PYTHON, "-m", "sim.worker", pid],
            cwd=HERE,
            env=env,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL,
            text=True,
        )
        self.ready = None

    def wait_ready(self):
        line = self.proc.stdout.readline()
        self.ready = json.loads(line) if line else {"setup_error": "worker died during setup"}
        return self.ready

    def call(self, **req):
        try:
            self.proc.stdin.write(json.dumps(req) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            return {"status": "error", "message": "worker process died", "index": req.get("index")}
        return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=5)
        except (OSError, subprocess.TimeoutExpired):
            self.proc.kill()


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def matches(finding, res):
    return re.fullmatch(finding["cls"], res["cls"]) and re.search(
        finding["message"], res["message"]
    )


def campaign(pid, tier, master, cases, wall, only=None):
    """Run the cases; returns (results summary, list of violating results, setup error or None)."""
    deadline = time.monotonic() + wall
    agg = {
        "runs": 0, "ok": 0, "discard": 0, "unsupported": 0, "error": 0, "violation": 0, "known": 0,
        "counters": {}, "states": set(), "sigs": set(), "digests": {}, "steps": 0, "errors": [], "unsup": {},
        "cpu": 0.0,
    }  # fmt: skip
    bad, setup_errors = [], []
    stop = threading.Event()
    lock = threading.Lock()
    known = [f for f in load_known() if f["property"] == pid]

    def serve(slot):
        indices = [i for i in (only if only is not None else range(cases)) if i % SLOTS == slot]
        if not indices:
            return
        worker = Worker(pid, hash_seed(master, slot))
        ready = worker.wait_ready()
        if "setup_error" in ready:
            with lock:
                setup_errors.append(ready)
            stop.set()
            return
        for i in indices:
            if stop.is_set() or time.monotonic() > deadline:
                break
            res = worker.call(cmd="run", index=i, master=master, tier=tier)
            with lock:
                agg["runs"] += 1
                agg["cpu"] += res.get("wall", 0.0)
                status = res["status"]
                if status == "violation":
                    if any(matches(f, res) for f in known):
                        agg["known"] += 1
                        continue
                    res["slot"] = slot
                    bad.append(res)
                    stop.set()
                agg[status] = agg.get(status, 0) + 1
                if status == "error":
                    agg["errors"].append((i, res.get("message"), res.get("trace", "")))
                if status == "unsupported":
                    m = res.get("message", "")
                    agg["unsup"][m] = agg["unsup"].get(m, 0) + 1
                for k, v in res.get("counters", {}).items():
                    agg["counters"][k] = agg["counters"].get(k, 0) + v
                if status == "ok":
                    agg["states"].update(res["states"])
                    if "sig" in res:
                        agg["sigs"].add(res["sig"])
                    agg["steps"] += res["steps"]
                    if len(agg["digests"]) < 400:
                        agg["digests"][i] = res["digest"]
            if res.get("message") == "worker process died":
                worker = Worker(pid, hash_seed(master, slot))
                worker.wait_ready()
        worker.close()

    threads = [threading.Thread(target=serve, args=(s,), daemon=True) for s in range(SLOTS)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return agg, sorted(bad, key=lambda r: r["index"]), setup_errors


def determinism(pid, tier, master, digests, number):
    """Re-run some seeds in fresh processes; count event-log digests that differ."""
    picks = sorted(digests)[:number]
    if not picks:
        return 0, 0
    diff = 0
    by_slot = {}
    for i in picks:
        by_slot.setdefault(i % SLOTS, []).append(i)
    jobs = queue.Queue()

    def rerun(slot, idx):
        worker = Worker(pid, hash_seed(master, slot))
        if "setup_error" in worker.wait_ready():
            return
        for i in idx:
            res = worker.call(cmd="run", index=i, master=master, tier=tier)
            jobs.put((i, res.get("digest")))
        worker.close()

    ts = [threading.Thread(target=rerun, args=kv, daemon=True) for kv in by_slot.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    n = 0
    while not jobs.empty():
        i, d = jobs.get()
        n += 1
        if d != digests[i]:
            diff += 1
    return n, diff


def report(pid, prop, master, res, shrink_seconds):
    """Minimise, write the replay file, confirm it in a fresh process. Returns path or None."""
    slot = res["slot"]
    seed = hash_seed(master, slot)
    worker = Worker(pid, seed)
    worker.wait_ready()
    cand = (res["workload"], res.get("choices", []), res)
    if res["cls"] != "hang":
        out = worker.call(cmd="shrink", workload=res["workload"], choices=res.get("choices", []),
                          cls=res["cls"], seconds=shrink_seconds)  # fmt: skip
        if "workload" in out:
            cand = (out["workload"], out["choices"], out["result"])
    worker.close()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for workload, choices, result in (cand, (res["workload"], res.get("choices", []), res)):
        path = os.path.join(HERE, "replays", f"{pid}-{master}-{res['index']}.json")
        data = {
            "property": pid,
            "hashseed": seed,
            "seed": derive_seed(master, pid, "run", res["index"]),
            "master_seed": master,
            "case_index": res["index"],
            "cls": res["cls"],
            "message": result.get("message"),
            "digest": result.get("digest"),
            "workload": workload,
            "choices": choices,
            "trace": result.get("events", []),
        }
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        for _ in range(3):
            again = replay(path)
            if again["status"] == "violation" and again["cls"] == data["cls"]:
                return path, again
    return None, None


def replay(path):
    with open(path) as f:
        data = json.load(f)
    worker = Worker(data["property"], data["hashseed"])
    ready = worker.wait_ready()
    if "setup_error" in ready:
        return {"status": "violation", "cls": "setup", "message": ready["setup_error"]}
    out = worker.call(cmd="exec", workload=data["workload"], choices=data["choices"])
    worker.close()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--only")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    pid, tier, master = args.prop, args.tier, args.seed
    prop = engine.load_prop(pid)
    cases = args.cases or prop.CASES[tier]
    wall = args.wall or {"quick": 240.0, "thorough": 3000.0}[tier]
    only = [int(x) for x in args.only.split(",")] if args.only else None
    t0 = time.monotonic()
    agg, bad, setup_errors = campaign(pid, tier, master, cases, wall, only)
    search_wall = time.monotonic() - t0
    exit_code = 0
    if setup_errors:
        print(f"{pid}: cannot load the code under test: {setup_errors[0]['setup_error']}")
        print(setup_errors[0].get("trace", ""))
        exit_code = 2
    for index, msg, trace in agg["errors"][:3]:
        print(f"harness error in case {index}: {msg}\n{trace}")
    for finding in load_known():
        if finding["property"] != pid or only is not None:
            continue
        worker = Worker(pid, 0)
        worker.wait_ready()
        out = worker.call(cmd="exec", workload=finding["workload"],
                          choices=finding.get("choices", []))  # fmt: skip
        worker.close()
        if out.get("status") == "violation" and matches(finding, out):
            print(f"KNOWN-FINDING: property={pid} {finding['what']}")
    if bad:
        path, again = report(pid, prop, master, bad[0], {"quick": 60, "thorough": 300}[tier])
        if path is None:
            print(f"{pid}: case {bad[0]['index']} failed once ({bad[0]['message']}) "
                  "but did not reproduce")  # fmt: skip
            exit_code = 2
        else:
            print(again["message"])
            print(f"VIOLATION property={pid} replay={path}")
            exit_code = 1
    reruns, diff = (0, 0)
    if not bad and not setup_errors and only is None:
        reruns, diff = determinism(pid, tier, master, agg["digests"], 16)
    usable = agg["ok"] + agg["violation"] + agg["known"]
    if exit_code == 0 and agg["runs"] and (
        usable < 0.15 * agg["runs"] or agg["error"] > 0.02 * agg["runs"]
    ):
        print(f"{pid}: only {usable} of {agg['runs']} runs were usable: "
              f"{agg['discard']} discarded, {agg['unsupported']} unsupported, "
              f"{agg['error']} harness errors")  # fmt: skip
        for m, n in sorted(agg["unsup"].items(), key=lambda kv: -kv[1])[:5]:
            print(f"   unsupported x{n}: {m}")
        exit_code = 2
    wall_s = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(agg["counters"].items()) if k.startswith("fault_")}
    other = {k: v for k, v in sorted(agg["counters"].items()) if not k.startswith("fault_")}
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": master,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["sigs"]),
            "rule": prop.RULE,
            "samples": [{"case_index": i, "event_log_digest": d,
                         "workload": engine.make_workload(prop, pid, master, i, tier)}
                        for i, d in sorted(agg["digests"].items())[:3]],
            "distinct_states_reached": len(agg["states"]),
            "state_measure": prop.STATES,
            "runs_per_hour": round(agg["runs"] / max(search_wall, 1e-9) * 3600),
            "logged_events": agg["steps"],
            "simulated_time": getattr(prop, "SIM_TIME", "not applicable: the code reads no clock; "
                                      "progress is counted in simulated steps"),
            "faults_injected": faults,
            "counters": other,
            "discarded": agg["discard"],
            "unsupported_by_simulator": agg["unsupported"],
            "harness_errors": agg["error"],
            "known_finding_hits": agg["known"],
            "determinism_reruns": reruns,
            "determinism_mismatches": diff,
            "components_real": prop.REAL,
            "components_stubbed": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }  # fmt: skip
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{pid} [{tier}] seed {master}: {agg['runs']} simulated runs "
          f"({agg['discard']} discarded, {agg['unsupported']} unsupported, {agg['error']} errors), "
          f"{len(agg['states'])} distinct states, faults {sum(faults.values())}, "
          f"determinism {reruns - diff}/{reruns}, {wall_s:.1f} s, exit {exit_code}")  # fmt: skip
    return exit_code


if __name__ == "__main__":
    sys.exit(main())
