"""Running single simulated cases in isolation, shrinking failing ones, describing them.

`run_case` executes one case in this process. `isolated` forks, so that whatever the code under
test does (leaks, global state, endless loops, crashes) cannot reach the next case."""

import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from sim.core import REPO, Ctx, Discard, SimBudget, SimUnsupported, Violation, derive_seed, jdump

SIM_DIR = os.path.dirname(os.path.abspath(__file__))


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid}")


def make_workload(prop, pid, master, index, tier):
    rng = random.Random(derive_seed(master, pid, "workload", index))
    return prop.generate(rng, tier, index)


def blame(exc):
    """Whose failure is an exception that nobody handled? 'library', 'unsupported' or 'error'.

    An exception raised by a simulated component on behalf of the library (file system errors, solver
    errors) counts as the library's: it was not handled. A Python error inside a simulated component
    is the simulator's limitation, anything not passing through the library is a harness error."""
    files = []
    tb = exc.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    lib = any(f.startswith(REPO + "/abcvoting") for f in files)
    if not lib:
        return "error"
    if getattr(exc, "simulated_api", False):
        return "library"
    if files[-1].startswith(SIM_DIR) and isinstance(
        exc, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError)
    ):
        return "unsupported"
    return "library"


def run_case(prop, workload, seed=None, choices=None):
    """Execute one case here. Returns a JSON-able result."""
    ctx = Ctx(seed or 0, choices)
    res = {"status": "ok"}
    try:
        prop.execute(workload, ctx)
    except Violation as v:
        res = {
            "status": "violation",
            "cls": v.cls,
            "message": v.message,
            "detail": {k: repr(x) for k, x in v.detail.items()},
        }
    except Discard as d:
        res = {"status": "discard", "message": str(d)}
    except SimUnsupported as u:
        res = {"status": "unsupported", "message": str(u)}
    except SimBudget as b:
        res = {"status": "violation", "cls": "no-progress", "message": str(b), "detail": {}}
    except BaseException as e:  # pylint: disable=broad-except
        origin = blame(e)
        res = {
            "status": "violation" if origin == "library" else origin,
            "cls": "crash",
            "detail": {},
            "message": f"{type(e).__name__}: {e}",
            "trace": traceback.format_exc()[-3000:],
        }
    res["digest"] = ctx.digest()
    res["choices"] = ctx.choices
    res["counters"] = ctx.counters
    res["states"] = sorted(ctx.states)
    res["steps"] = len(ctx.events)
    if ctx.nontrivial:
        res["sig"] = hashlib.md5((jdump(workload) + res["digest"]).encode()).hexdigest()[:16]
    if res["status"] in ("violation", "error"):
        res["events"] = [list(map(str, e)) for e in ctx.events[-60:]]
    return res


def isolated(prop, workload, seed=None, choices=None, limit=60.0):
    """run_case in a forked child with a wall-clock watchdog."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(rfd)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            if not os.environ.get("SIM_DEBUG"):
                os.dup2(null, 2)
            res = run_case(prop, workload, seed, choices)
            data = json.dumps(res).encode()
            view = memoryview(data)
            while view:
                n = os.write(wfd, view)
                view = view[n:]
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks, deadline = [], time.monotonic() + limit
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            hung = True
            break
        block = os.read(rfd, 1 << 16)
        if not block:
            break
        chunks.append(block)
    os.close(rfd)
    if hung:
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    _, status = os.waitpid(pid, 0)
    if hung:
        return {"status": "hang", "cls": "hang", "message": f"no result within {limit:.0f} s"}
    data = b"".join(chunks)
    if not data:
        return {"status": "error", "message": f"case process died (wait status {status})"}
    return json.loads(data)


# ------------------------------------------------------------------------------------------
# shrinking


def _paths(obj, path=()):
    """All (path, value) pairs, outermost lists first."""
    yield path, obj
    if isinstance(obj, dict):
        for k in sorted(obj):
            yield from _paths(obj[k], path + (k,))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from _paths(v, path + (i,))


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def _set(obj, path, value):
    new = json.loads(json.dumps(obj))
    if not path:
        return value
    tgt = new
    for p in path[:-1]:
        tgt = tgt[p]
    tgt[path[-1]] = value
    return new


class Shrinker:
    def __init__(self, prop, cls, deadline, limit=60.0):
        self.prop, self.cls, self.deadline, self.limit = prop, cls, deadline, limit
        self.tried = 0
        self.seen = set()

    def fails(self, workload, choices):
        key = json.dumps([workload, choices], sort_keys=True)
        if key in self.seen or time.monotonic() > self.deadline:
            return None
        self.seen.add(key)
        self.tried += 1
        res = isolated(self.prop, workload, choices=choices, limit=self.limit)
        if res["status"] == "violation" and res["cls"] == self.cls:
            return res
        return None

    def run(self, workload, choices):
        best = (workload, choices, self.fails(workload, choices))
        if best[2] is None:
            return None
        protected = getattr(self.prop, "PROTECTED", ())
        changed = True
        while changed and time.monotonic() < self.deadline:
            changed = False
            # 1. drop choices (all-zero = nothing unusual happens)
            for cand in self._choice_candidates(best[1]):
                res = self.fails(best[0], cand)
                if res:
                    best, changed = (best[0], cand, res), True
            # 2. delete list elements, big blocks first
            for path, value in list(_paths(best[0])):
                if not isinstance(value, list) or any(p in protected for p in path):
                    continue
                try:
                    cur = _get(best[0], path)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(cur, list):
                    continue
                size = max(1, len(cur) // 2)
                while size >= 1 and time.monotonic() < self.deadline:
                    i = 0
                    while True:
                        cur = _get(best[0], path)
                        if i >= len(cur):
                            break
                        cand = _set(best[0], path, cur[:i] + cur[i + size :])
                        res = self.fails(cand, best[1])
                        if res:
                            best, changed = (cand, best[1], res), True
                        else:
                            i += size
                    size //= 2
            # 3. simplify scalars
            for path, value in list(_paths(best[0])):
                if not path or any(p in protected for p in path):
                    continue
                try:
                    cur = _get(best[0], path)
                except (KeyError, IndexError, TypeError):
                    continue
                for new in self._scalars(cur):
                    cand = _set(best[0], path, new)
                    res = self.fails(cand, best[1])
                    if res:
                        best, changed = (cand, best[1], res), True
                        break
        return best

    @staticmethod
    def _choice_candidates(choices):
        n = len(choices)
        if not n:
            return
        yield []
        if any(choices):
            yield [0] * n
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if any(choices[i : i + size]):
                    yield choices[:i] + [0] * len(choices[i : i + size]) + choices[i + size :]
            size //= 2
            if n > 64 and size < n // 64:
                break

    @staticmethod
    def _scalars(value):
        if isinstance(value, bool):
            if value:
                yield False
        elif isinstance(value, int):
            for new in (0, 1, value // 2, value - 1):
                if new < value and new >= 0:
                    yield new
        elif isinstance(value, str) and "/" in value:
            yield 1
        elif value is not None and not isinstance(value, (list, dict, str)):
            yield None
