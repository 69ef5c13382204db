"""Worker process: python -m sim.worker PROP ; JSON requests on stdin, JSON replies on fd 1."""

import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim.core import derive_seed, install_repo_path  # noqa: E402
from sim import engine  # noqa: E402


def main():
    pid = sys.argv[1]
    reply_fd = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    reply = os.fdopen(reply_fd, "w")
    install_repo_path()
    prop = engine.load_prop(pid)
    try:
        prop.setup()
    except BaseException as e:  # pylint: disable=broad-except
        import traceback

        reply.write(json.dumps({"setup_error": f"{type(e).__name__}: {e}",
                                "trace": traceback.format_exc()[-3000:]}) + "\n")  # fmt: skip
        reply.flush()
        return
    reply.write(json.dumps({"ready": True}) + "\n")
    reply.flush()
    for line in sys.stdin:
        req = json.loads(line)
        limit = getattr(prop, "CASE_LIMIT", 60.0)
        if req["cmd"] == "run":
            index = req["index"]
            workload = engine.make_workload(prop, pid, req["master"], index, req["tier"])
            seed = derive_seed(req["master"], pid, "run", index)
            t0 = time.monotonic()
            res = engine.isolated(prop, workload, seed=seed, limit=limit)
            if res["status"] == "hang":  # a slow machine must not become an alarm
                res = engine.isolated(prop, workload, seed=seed, limit=5 * limit)
                if res["status"] == "hang":
                    res = {"status": "violation", "cls": "hang", "message": res["message"],
                           "detail": {}, "choices": [], "digest": "", "counters": {},
                           "states": [], "steps": 0}  # fmt: skip
            res["index"] = index
            res["wall"] = time.monotonic() - t0
            if res["status"] != "ok":
                res["workload"] = workload
            if res["status"] not in ("violation",):
                res.pop("choices", None)
        elif req["cmd"] == "exec":
            res = engine.isolated(prop, req["workload"], choices=req["choices"],
                                  limit=req.get("limit", 5 * limit))  # fmt: skip
            if res["status"] == "hang":
                res = {**res, "status": "violation", "cls": "hang", "digest": ""}
        elif req["cmd"] == "shrink":
            sh = engine.Shrinker(prop, req["cls"], time.monotonic() + req["seconds"], limit)
            best = sh.run(req["workload"], req["choices"])
            res = {"tried": sh.tried}
            if best is not None:
                res.update(workload=best[0], choices=best[1], result=best[2])
        else:
            res = {"error": "unknown command"}
        reply.write(json.dumps(res) + "\n")
        reply.flush()


if __name__ == "__main__":
    main()
