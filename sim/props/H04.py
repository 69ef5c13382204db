"""Verbosity, loggers and output streams (also failing ones) never influence results."""

import io
import logging
import re
import sys

from sim import env, gen, history, session
from sim.core import Discard, Violation
from sim.oracle import axioms
from sim.props import common
from sim.solver import lin

CASES = {"quick": 2400, "thorough": 60000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULES = tuple(r for r in session.RULES if r not in ("rsd", "leximaxphragmen", "equal-shares-with-increment-completion"))
RULE = (
    "a case is a seeded history of verbosity changes, loggers (recording, failing, standard library) "
    "and standard output streams (recording, closed, broken pipe / disk full at a chosen write, "
    "ASCII-only, absent) mixed with rule computations, axiom checks, full analyses and profile edits; "
    "results are compared with the model, printed and logged committees and verdicts with the "
    "returned ones; non-trivial: at least one result was judged"
)
STATES = "distinct (verbosity, logger, stream, rule or axiom, algorithm) judged"
REAL = common.LIB + ["abcvoting.properties", "logging (standard library)"]
STUB = common.SOLVER_STUBS + ["sys.stdout (in-memory, failing on demand)", "logger objects"]
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS + [
    "winning committees are printed as '<number> winning committee(s):' followed by sets of names; "
    "output without this header is not judged",
]
LEVELS = (5, 10, 15, 20, 30, 40, 50, 7, 100, 0)
NEGATED = {"ejr+": "EJR+", "ejr": "EJR", "pjr": "PJR", "jr": "JR", "fjr": "FJR"}


class Stream(io.TextIOBase):
    """standard output as the simulator sees it"""

    def __init__(self, kind, at, ctx):
        self.kind, self.at, self.ctx = kind, at, ctx
        self.text, self.writes, self.fired = "", 0, False

    def writable(self):
        return True

    def fail(self, exc):
        self.fired = True
        self.ctx.count(f"fault_stream_{self.kind}")
        raise exc

    def write(self, s):
        if self.kind == "closed":
            self.fail(ValueError("I/O operation on closed file."))
        if self.kind == "ascii":
            try:
                s.encode("ascii")
            except UnicodeEncodeError as e:
                self.fail(e)
        self.writes += 1
        if self.kind in ("pipe", "full", "kbd") and self.writes >= self.at:
            self.fail({"pipe": BrokenPipeError(32, "Broken pipe (simulated)"),
                       "full": OSError(28, "No space left on device (simulated)"),
                       "kbd": KeyboardInterrupt("simulated")}[self.kind])  # fmt: skip
        self.text += s
        return len(s)

    def flush(self):
        pass

    def take(self):
        text, self.text = self.text, ""
        return text


class Logger:
    def __init__(self, kind, at, ctx):
        self.kind, self.at, self.ctx = kind, at, ctx
        self.messages, self.calls, self.fired = [], 0, False

    def log(self, level, msg, *args, **kwargs):
        self.calls += 1
        if self.kind == "fail" and self.calls >= self.at:
            self.fired = True
            self.ctx.count("fault_logger_fail")
            raise OSError(28, "log disk full (simulated)")
        if not isinstance(level, int) or not isinstance(msg, str):
            raise Violation("logger-call", f"logger called with ({level!r}, {msg!r})")
        self.messages.append((level, msg))

    def take(self):
        messages, self.messages = self.messages, []
        return messages


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(level=1)
        self.messages = []

    def emit(self, record):
        self.messages.append((record.levelno, record.getMessage()))


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    rules = RULES if rng.random() < 0.7 else (rng.choice(RULES),)
    weights = common.weights_for(rules, rng)
    spec = gen.election(rng, max_m=6, max_n=6, weights=weights)
    if spec["names"] is None and rng.random() < 0.4:
        spec["names"] = rng.sample(["Ann", "Bob", "Zoë", "Łukasz", "candidate-with-a-rather-long-name-1",
                                    "candidate-with-a-rather-long-name-2", "x y", "100%", "%s", "{}"], 10)  # fmt: skip
    if rng.random() < 0.12:  # different candidates of the same name
        pool = rng.choice((["Smith"], ["Smith", "Jones"], ["Ann", "Bob", "Ann"]))
        spec["names"] = [rng.choice(pool) for _ in range(spec["m"])]
    specs, ops = [spec], []
    if rng.random() < 0.06:  # long lists of winning committees
        m = rng.randint(7, 9)
        shared = sorted(rng.sample(range(m), rng.choice((0, 1, 1, 2))))
        spec = specs[0] = {"m": m, "names": None, "voters": [{"a": shared, "w": 1}] * rng.randint(1, 3)}
        ops.append({"op": "verbosity", "v": rng.choice((5, 10, 15, 20)), "how": "set"})
        for _ in range(rng.randint(1, 2)):
            ops.append({"op": "compute", "p": 0, "rule": rng.choice(("trivial", "av", "sav", "cc", "pav", "minimaxav")),
                        "k": m // 2, "resolute": False, "max": rng.choice((None, None, None, rng.randint(40, 130))),
                        "via": rng.choice(("compute", "direct"))})  # fmt: skip
            algs = session.RULES[ops[-1]["rule"]][0]
            ops[-1]["alg"] = "standard" if "standard" in algs else "brute-force"
    for _ in range(rng.randint(2, 6)):
        what = rng.random()
        if what < 0.28:
            ops.append({"op": "verbosity", "v": rng.choice(LEVELS), "how": rng.choice(("set", "attr", "default"))})
        elif what < 0.40:
            ops.append({"op": "logger", "kind": rng.choice(("none", "record", "fail", "std")),
                        "at": int(10 ** rng.uniform(0, 1.6))})  # fmt: skip
        elif what < 0.58:
            ops.append({"op": "stream", "at": int(10 ** rng.uniform(0, 1.7)),
                        "kind": rng.choice(("record", "closed", "pipe", "full", "ascii", "none", "kbd"))})  # fmt: skip
        elif what < 0.66:
            edit = session.random_edit(rng, specs, [w for w in weights if w != "unit"] or ["unit"])
            ops.append(edit)
        elif what < 0.78:
            ops.append(session.random_check(rng, specs, full=0.35))
        else:
            ops.append(session.random_compute(rng, specs, rules))
    if rng.random() < 0.3:
        ops.append(session.random_check(rng, specs, full=0.35))
    else:
        ops.append(session.random_compute(rng, specs, rules))
    return {"profiles": [spec], "ops": ops}


def squeeze(text):
    return re.sub(r"\s+", "", text)


def printed_committees(text):
    """(stated number, squeezed text after the header), or None if there is no such list"""
    hit = re.search(r"(?m)^\s*(\d+)\s+winning\s+committees?:", text)
    if not hit:
        return None
    return int(hit.group(1)), squeeze(text[hit.end() :])


def judge_committees(p, result, text, where):
    found = printed_committees(text)
    if found is None:
        return False
    number, rest = found
    want = sorted("{" + ",".join(sorted(squeeze(p.names[c]) for c in com)) + "}" for com in result)
    loose = sorted("{" + ",".join(squeeze(x) for x in sorted(str(p.names[c]) for c in com)) + "}" for com in result)
    size = len("".join(want))
    if number != len(result) or not any(consume(rest[:size], sets) for sets in (want, loose)):
        raise Violation("printed-differs", f"{where}: returned {want}, printed {number} committees: {rest[:300]}")
    if rest[size : size + 1] == "{":
        raise Violation("printed-differs", f"{where}: more committees printed than returned: {rest[:300]}")
    return True


def consume(text, sets):
    """is text a concatenation of exactly these sets in some order?"""
    sets = list(sets)
    while sets:
        for s in sets:
            if text.startswith(s):
                text = text[len(s) :]
                sets.remove(s)
                break
        else:
            return False
    return not text


def judge_verdict(op, verdicts, text, where):
    flat = squeeze(text)
    if op["prop"] == "full":
        hits = re.findall(r":(True|False)", flat)
        if hits and sorted(hits) != sorted(str(v) for v in verdicts.values()):
            raise Violation("printed-differs", f"{where}: returned {verdicts}, printed {hits}")
        return bool(hits)
    (verdict,) = verdicts.values()
    first = re.search(r"Committee\{[\d,]*\}(satisfies|doesnotsatisfy|is(?:not)?)", flat)
    if first and ("not" in first.group(1)) == verdict:
        raise Violation("printed-differs", f"{where}: returned {verdict}, printed {text[:200]!r}")
    return bool(first)


def execute(workload, ctx):
    if not workload["profiles"]:
        raise Discard("no profile")
    profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
    world = lin.World(ctx)
    lin.set_world(world)
    stdout = sys.stdout
    try:
        judged = play(workload, ctx, profiles, world)
    finally:
        sys.stdout = stdout
        lin.set_world(None)
    if not judged:
        raise Discard("nothing judged")
    ctx.nontrivial = True


class Setting:
    """what the user set: has to stay exactly so"""

    def __init__(self, out, ctx):
        self.out, self.ctx = out, ctx
        self.verbosity, self.logger = out.verbosity, out.logger
        self.handler = None
        self.logkind = "none"
        self.stream = sys.stdout = Stream("record", 1, ctx)

    def check(self, where):
        if self.out.verbosity != self.verbosity:
            raise Violation("verbosity-changed", f"{where}: verbosity is {self.out.verbosity}, was {self.verbosity}")
        if self.out.logger is not self.logger:
            raise Violation("logger-changed", f"{where}: logger is {self.out.logger!r}, was {self.logger!r}")
        if sys.stdout is not self.stream:
            raise Violation("stream-changed", f"{where}: sys.stdout was replaced")

    def configure(self, op):
        kind = op["op"]
        if kind == "verbosity":
            if op["how"] == "default":
                self.out.set_verbosity()
                self.verbosity = 30
            elif op["how"] == "set":
                self.out.set_verbosity(op["v"])
                self.verbosity = op["v"]
            else:
                self.out.verbosity = self.verbosity = op["v"]
        elif kind == "logger":
            self.logkind = op["kind"]
            self.handler = None
            if op["kind"] == "none":
                self.logger = None
            elif op["kind"] == "std":
                self.logger = logging.Logger("simulated", level=1)
                self.handler = Handler()
                self.logger.addHandler(self.handler)
            else:
                self.logger = Logger(op["kind"], op["at"], self.ctx)
            self.out.logger = self.logger
        else:
            self.stream = None if op["kind"] == "none" else Stream(op["kind"], op["at"], self.ctx)
            sys.stdout = self.stream

    def fired(self):
        hit = False
        for x in (self.stream, self.logger):
            if getattr(x, "fired", False):
                x.fired, hit = False, True
        return hit

    def take(self):
        printed = self.stream.take() if self.stream is not None else None
        logged = []
        if isinstance(self.logger, Logger):
            logged = self.logger.take()
        elif self.handler is not None:
            logged, self.handler.messages = self.handler.messages, []
        return printed, logged

    def repair(self):
        """a working stream and logger for the repetition of a failed call"""
        saved = (self.stream, self.logger, self.handler, self.logkind)
        self.stream = sys.stdout = Stream("record", 1, self.ctx)
        self.logger = self.out.logger = None
        self.handler, self.logkind = None, "none"
        return saved

    def restore(self, saved):
        self.stream, self.logger, self.handler, self.logkind = saved
        sys.stdout, self.out.logger = self.stream, self.logger


def play(workload, ctx, profiles, world):
    from abcvoting import output as module

    setting = Setting(module.output, ctx)
    if setting.verbosity != 30 or setting.logger is not None:
        raise Violation("verbosity-changed", f"initial verbosity {setting.verbosity}, logger {setting.logger}")
    judged = 0
    for number, op in enumerate(workload["ops"]):
        p = profiles[op.get("p", 0) % len(profiles)]
        where = f"step {number}"
        try:
            if op["op"] in ("verbosity", "logger", "stream"):
                setting.configure(op)
                ctx.count("setting_" + op["op"])
            elif op["op"] in ("compute", "check"):
                judged += perform(p, op, number, setting, ctx, world)
            else:
                session.edit_op(profiles, op, ctx)
        except Discard:
            ctx.count("skipped_ops")
        setting.check(f"after {where} ({op['op']})")
        for i, q in enumerate(profiles):
            q.verify(f"after {where} ({op['op']}), profile {i}")
    return judged


def perform(p, op, number, setting, ctx, world):
    setting.take()
    try:
        verdict = once(p, op, number, setting, ctx, world)
    except Failed as failed:
        where = f"step {number} ({op['op']} at verbosity {setting.verbosity}) after {failed.args[0]}"
        setting.check(where)
        p.verify(where)
        ctx.state("failed", setting.verbosity, failed.args[0], op.get("rule") or op["prop"])
        saved = setting.repair()
        try:
            verdict = once(p, op, number, setting, ctx, world, again=" (repeated)")
        except Failed as twice:
            raise Violation("retry-failed", f"{where}: {twice.args[0]}") from twice
        setting.check(where)
        setting.restore(saved)
        ctx.count("retries_after_failure")
    return verdict


class Failed(Exception):
    """the call was ended by the failing stream or logger"""


def once(p, op, number, setting, ctx, world, again=""):
    where = f"step {number}{again}, verbosity {setting.verbosity}, logger {setting.logkind}"
    if op["op"] == "compute":
        session.legal_compute(p, op)
        expected = session.oracle.winners(op["rule"], p.model(), op["k"])
        world.begin_op(100000 if op["rule"] == "maximin-support" else
                       40 + 75 * (p.m + len(p.voters)) + 3 * len(expected) * (op["k"] + 1))  # fmt: skip
        call = lambda: session.call_rule(p.real, op)  # noqa: E731
    else:
        session.legal_check(p, op)
        world.begin_op(60)
        call = lambda: session.call_check(p.real, op)  # noqa: E731
    try:
        result = call()
    except (session.SimUnsupported, session.SimBudget, Violation, Discard):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        if setting.fired():
            raise Failed(f"{type(e).__name__}: {e}") from e
        from sim.engine import blame

        if blame(e) == "unsupported":
            raise session.SimUnsupported(f"{type(e).__name__} in simulator: {e}") from e
        raise Violation("crash", f"{where}: {op} on {session.voters_str(p)} raised {type(e).__name__}: {str(e)[:300]}") from e
    swallowed = setting.fired()
    if swallowed:
        ctx.count("stream_failure_swallowed")
    printed, logged = setting.take()
    if op["op"] == "compute":
        session.judge(p, op, result, ctx, f" [{where}]")
        text = printed or ""
        if judge_committees(p, result, text, f"{where}: {op['rule']}/{op['alg']}") if not swallowed else False:
            ctx.count("printed_results_compared")
        elif setting.verbosity <= 20 and printed is not None and not swallowed:
            ctx.count("printed_result_not_found")
        log = "\n".join(m for _, m in logged)
        if not swallowed and judge_committees(p, result, log, f"{where}: {op['rule']}/{op['alg']} (logged)"):
            ctx.count("logged_results_compared")
        ctx.log("compute", op["rule"], op["alg"], sorted(sorted(int(c) for c in com) for com in result), bool(printed))
    else:
        verdicts = dict(result) if op["prop"] == "full" else {op["prop"]: result}
        for axiom, verdict in sorted(verdicts.items()):
            quota = op.get("quota")
            want = axioms.holds(axiom, p.model(), op["com"], None if quota is None else session.num(quota))
            if want is not None and verdict is not want:
                raise Violation("wrong-verdict", f"{where}: {session.describe_check(p, op)}: {axiom} verdict {verdict!r}, correct: {want}")
        if not swallowed:
            if judge_verdict(op, verdicts, printed or "", where):
                ctx.count("printed_verdicts_compared")
            if op["prop"] != "full" and judge_verdict(op, verdicts, "\n".join(m for _, m in logged), where):
                ctx.count("logged_verdicts_compared")
        ctx.log("check", op["prop"], sorted(verdicts.items()), bool(printed))
    if setting.verbosity >= 30 and printed:
        raise Violation("noise", f"{where}: {printed[:200]!r} was printed")
    ctx.state(setting.verbosity, setting.logkind, getattr(setting.stream, "kind", None),
              op.get("rule") or op["prop"], op.get("alg"))  # fmt: skip
    return 1
