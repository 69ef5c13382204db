"""Interrupted or failed calls leave no residue."""

import sys

from sim import env, gen, scoreops, session
from sim.core import Discard, SimBudget, SimUnsupported, Violation
from sim.oracle import axioms
from sim.props import P01, common
from sim.props.H04 import Stream
from sim.solver import lin

CASES = {"quick": 1600, "thorough": 90000}
LEVEL = "exploration"
CASE_LIMIT = 120.0
RULES = tuple(r for r in session.RULES if r not in ("rsd", "leximaxphragmen"))
RULE = (
    "a case is a seeded history of 2-7 calls (rules, axiom checks, scores, full analyses, conversions, copies, "
    "textual forms, rejected calls with illegal arguments) on one or two profiles; chosen calls are cut "
    "off by KeyboardInterrupt, SystemExit, MemoryError or OSError at a chosen line of library (or "
    "networkx) code (or at several lines in turn, drawn from those an undisturbed call executed) or by a failing standard output, or fail inside a solver; after every call all "
    "profiles and the output settings are compared with what they were, the call is repeated, and every "
    "later result is compared with the reference model; non-trivial: a call was cut off or failed"
)
STATES = "distinct (call, where it was cut off) and (call, exception) of failures"
REAL = common.LIB + ["abcvoting.properties"]
STUB = common.SOLVER_STUBS + ["sys.stdout (in-memory, failing on demand)"]
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS + [
    "clean-up code (finally/except bodies, with-block entry and exit) is not itself cut off",
    "a conversion that is cut off may have taken effect completely or not at all",
]
LEVELS = (30, 30, 20, 15, 10, 5, 50)
KINDS = ("kbd", "kbd", "mem", "sys", "err")
BAD = ("size", "zero", "rule", "alg", "axiom", "committee", "committee-range", "resolute-max", "unit", "prop-alg",
       "empty", "negative-max", "not-profile")  # fmt: skip


def setup():
    env.install_fakes()


def cut(rng, op):
    if op["op"] in ("compute", "check", "text", "score") and rng.random() < 0.5:
        costly = op["op"] == "check" or op.get("alg") in ("gurobi", "mip-gurobi", "mip-cbc", "ortools-cp")
        points = rng.choice((1, 2, 3) if costly else (3, 6, 12))
        op["sweep"] = [[rng.choice(KINDS), round(rng.random(), 4), round(rng.random(), 4)] for _ in range(points)]
    elif rng.random() < 0.7:
        op["int"] = session.random_cut(rng, KINDS, 4.0)
        op["int"]["wide"] = rng.random() < 0.15
    elif rng.random() < 0.5:
        op["stream"] = {"kind": rng.choice(("pipe", "full", "kbd", "closed")), "at": int(10 ** rng.uniform(0, 1.5))}
    return op


def generate(rng, tier, index):
    rules = RULES if rng.random() < 0.7 else tuple(rng.sample(RULES, 2))
    weights = common.weights_for(rules, rng)
    if any(session.RULES[r][2] for r in rules) and rng.random() < 0.5:
        weights = ("unit",)
    specs = [gen.election(rng, max_m=rng.choice((5, 6, 7)), max_n=6, weights=weights) for _ in range(rng.choice((1, 1, 2)))]
    edit_weights = [w for w in weights if w != "unit"] or ["unit"]
    ops = []
    for _ in range(rng.randint(2, 7)):
        what = rng.random()
        p = rng.randrange(len(specs))
        if what < 0.40:
            op = session.random_compute(rng, specs, rules)
        elif what < 0.46:
            op = scoreops.random_score(rng, specs)
        elif what < 0.66:
            op = session.random_check(rng, specs, full=0.3)
        elif what < 0.78:
            op = {"op": rng.choice(("unit", "merge", "copy", "unit", "merge")), "p": p, "form": "method"}
            if op["op"] == "copy":
                specs = specs + [specs[p]]
        elif what < 0.84:
            op = {"op": "text", "p": p}
        elif what < 0.90:
            op = {"op": "bad", "p": p, "kind": rng.choice(BAD), "k": rng.randint(1, specs[p]["m"]),
                  "rule": rng.choice(rules)}  # fmt: skip
        else:
            op = session.random_edit(rng, specs, edit_weights)
            if op["op"] == "copy":
                specs = specs + [specs[op["p"]]]
            ops.append(op)
            continue
        ops.append(cut(rng, op) if op["op"] != "bad" else op)
    ops.append(session.random_compute(rng, specs, rules) if rng.random() < 0.7 else session.random_check(rng, specs))
    faults = []
    if rng.random() < 0.25:
        at = 0
        for _ in range(rng.randint(1, 2)):
            at += rng.choice((0, 1, 2, 3, 6))
            faults.append({"at": at, "kind": rng.choice(("incumbent", "empty", "error", "model_error"))})
    used = [op["rule"] for op in ops if op["op"] == "compute"]
    return {"profiles": specs[: 1 if len(specs) < 2 else 2], "ops": ops, "faults": faults,
            "verbosity": rng.choice(LEVELS), "logger": rng.random() < 0.2,
            "probe": common.probe(rng, used) if used and rng.random() < 0.6 else None}  # fmt: skip


class Log:
    def __init__(self):
        self.count = 0

    def log(self, level, msg, *args):
        self.count += 1


class Cut(Exception):
    """the call was ended by an injected exception"""


class World2:
    """everything one history works with"""

    def __init__(self, workload, ctx):
        from abcvoting import output as module

        self.ctx = ctx
        self.profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
        if not self.profiles:
            raise Discard("no profile")
        self.solver = lin.World(ctx, faults=workload.get("faults", ()))
        self.out = module.output
        self.verbosity = workload["verbosity"]
        self.logger = Log() if workload["logger"] else None
        self.out.set_verbosity(self.verbosity)
        self.out.logger = self.logger
        self.failures = self.judged = 0

    def settings(self, where):
        if self.out.verbosity != self.verbosity or self.out.logger is not self.logger:
            raise Violation("settings-changed", f"{where}: verbosity is {self.out.verbosity} (was {self.verbosity}), "
                            f"logger is {self.out.logger!r} (was {self.logger!r})")  # fmt: skip
        for i, p in enumerate(self.profiles):
            P01.verify(p, f"{where}, profile {i}")


def execute(workload, ctx):
    w = World2(workload, ctx)
    lin.set_world(w.solver)
    stdout = sys.stdout
    sys.stdout = Stream("record", 1, ctx)
    try:
        for number, op in enumerate(workload["ops"]):
            where = f"after step {number} ({op['op']})"
            try:
                step(w, op, number)
            except Discard as d:
                ctx.count("skipped_ops")
                ctx.log("skipped", str(d))
            w.settings(where)
        common.run_probe(workload, ctx, w.solver)
        w.settings("after the probe")
    finally:
        sys.stdout = stdout
        lin.set_world(None)
    if w.failures and w.judged:
        ctx.nontrivial = True


def step(w, op, number):
    p = w.profiles[op["p"] % len(w.profiles)]
    kind = op["op"]
    if kind == "bad":
        rejected(w, p, op, number)
    elif kind in ("compute", "check", "text", "score"):
        if op.get("sweep"):
            sweep(w, p, op, number)
            return
        try:
            query(w, p, op, number, "")
        except Cut as c:
            w.failures += 1
            w.settings(f"after {c} in step {number}")
            saved, w.solver.faults = w.solver.faults, {}
            plain = {k: v for k, v in op.items() if k not in ("int", "stream")}
            try:
                query(w, p, plain, number, f" [repeated after {c}]")
            except Cut as again:
                raise Violation("retry-failed", f"step {number} {op}: {again}") from again
            except Violation as v:
                raise v.within("after-failure") from v
            finally:
                w.solver.faults = saved
            w.ctx.count("retries_after_failure")
    elif "int" in op or "stream" in op:
        convert(w, op, number)
    else:
        session.edit_op(w.profiles, op, w.ctx)


def sweep(w, p, op, number):
    """one undisturbed call, then the same call cut off at chosen lines of that execution, then again"""
    from sim.core import REPO

    saved, w.solver.faults = w.solver.faults, {}
    plain = {k: v for k, v in op.items() if k not in ("int", "stream", "sweep")}
    prefix = REPO + "/abcvoting"

    def state():  # plain data, read without running library code
        seen = [[(set(v.approved), v.weight) for v in voters] for voters in held]
        return seen, [list(q.real.cand_names) for q in w.profiles], w.out.verbosity, w.out.logger

    held = [list(q.real) for q in w.profiles]
    recorder = session.LineRecorder(prefix, state)
    try:
        query(w, p, {**plain, "record": recorder}, number, "")
        cuts = 0
        cuts_at = [(kind, recorder.pick(u, v)) for kind, u, v in op["sweep"]]
        if recorder.suspects:
            w.ctx.count("calls_that_touch_shared_state")
            cuts_at += [(kind, recorder.suspects[min(int(u * len(recorder.suspects)), len(recorder.suspects) - 1)])
                        for kind, u, _ in op["sweep"]]
        for kind, at in cuts_at:
            try:
                query(w, p, {**plain, "int": {"kind": kind, "at": at}}, number, " [sweep]")
            except Cut as c:
                cuts += 1
                w.failures += 1
                w.settings(f"after {c} in step {number}")
        if cuts:
            try:
                query(w, p, plain, number, f" [repeated after {cuts} interrupted calls]")
            except Violation as v:
                raise v.within("after-failure") from v
            w.ctx.count("retries_after_failure")
    finally:
        w.solver.faults = saved


def injected(w, op, call):
    """call() under the faults of op; Cut if one of them ended it"""
    ctx, cut_at = w.ctx, op.get("int")
    stream = None
    saved = sys.stdout
    if op.get("stream"):
        stream = sys.stdout = Stream(op["stream"]["kind"], op["stream"]["at"], ctx)
    fired_before = len(w.solver.fired)
    bomb = None
    try:
        if cut_at:
            import networkx

            from sim.core import REPO

            prefix = REPO + "/abcvoting"
            if cut_at.get("wide"):
                prefix = (prefix, networkx.__path__[0])
            with session.bomb_for(cut_at, prefix) as bomb:
                result = call()
        elif op.get("record"):
            with op["record"]:
                result = call()
        else:
            result = call()
    except (SimUnsupported, SimBudget, Violation, Discard):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        sys.settrace(None)
        if bomb is not None and bomb.fired is not None:
            ctx.count(f"fault_interrupt_{cut_at['kind']}")
            ctx.log("interrupted", op["op"], bomb.fired)
            ctx.state("cut", op.get("rule") or op.get("prop") or op["op"], bomb.fired)
            raise Cut(f"{type(e).__name__} in {bomb.fired}") from e
        if stream is not None and stream.fired:
            ctx.log("stream", op["op"], type(e).__name__)
            ctx.state("stream", op.get("rule") or op.get("prop") or op["op"], op["stream"]["kind"])
            raise Cut(f"{type(e).__name__} from standard output") from e
        if len(w.solver.fired) > fired_before and isinstance(e, Exception):
            ctx.log("solver", op["op"], type(e).__name__)
            ctx.state("solver", op.get("rule") or op.get("prop"), type(e).__name__, w.solver.fired[-1][1])
            raise Cut(f"{type(e).__name__} from a failed solve") from e
        from sim.engine import blame

        if blame(e) == "unsupported":
            raise SimUnsupported(f"{type(e).__name__} in simulator: {e}") from e
        if blame(e) == "error":
            raise
        op = {k: v for k, v in op.items() if k != "record"}
        raise Violation("crash", f"{op} raised {type(e).__name__}: {str(e)[:300]}") from e
    finally:
        if stream is not None and sys.stdout is not stream:
            raise Violation("settings-changed", f"{op}: sys.stdout was replaced")
        sys.stdout = saved
        if op.get("stream") is None and isinstance(saved, Stream):
            saved.take()
    if bomb is not None:
        ctx.count("interrupt_swallowed" if bomb.fired is not None else "interrupt_after_completion")
    return result


def query(w, p, op, number, tag):
    ctx = w.ctx
    tag = f" [step {number}]{tag}"
    if op["op"] == "text":
        injected(w, op, lambda: (str(p.real), p.real.str_compact(), p.real.total_weight()))
        return
    if op["op"] == "score":
        scoreops.legal(p, op)
        w.solver.begin_op(40)
        result = injected(w, op, lambda: scoreops.call(p.real, p, op))
        scoreops.judge(p, op, result, tag)
        ctx.log("score", op["kind"], repr(result)[:300])
        ctx.count("score_calls")
        w.judged += 1
        return
    if op["op"] == "compute":
        session.legal_compute(p, op)
        expected = session.oracle.winners(op["rule"], p.model(), op["k"])
        w.solver.begin_op(100000 if op["rule"] == "maximin-support" else
                          40 + 75 * (p.m + len(p.voters)) + 3 * len(expected) * (op["k"] + 1))  # fmt: skip
        result = injected(w, op, lambda: session.call_rule(p.real, op))
        session.judge(p, op, result, ctx, tag)
        ctx.log("compute", op["rule"], op["alg"], sorted(sorted(int(c) for c in com) for com in result))
        ctx.count("rule_calls")
    else:
        session.legal_check(p, op)
        w.solver.begin_op(60)
        result = injected(w, op, lambda: session.call_check(p.real, op))
        verdicts = dict(result) if op["prop"] == "full" else {op["prop"]: result}
        for axiom, verdict in sorted(verdicts.items()):
            quota = op.get("quota")
            want = axioms.holds(axiom, p.model(), op["com"], None if quota is None else session.num(quota))
            if want is not None and verdict is not want:
                raise Violation("wrong-verdict", f"{session.describe_check(p, op, tag)}: {axiom} verdict {verdict!r}, correct: {want}")
        ctx.log("check", op["prop"], sorted(verdicts.items()))
        ctx.count("axiom_checks")
    w.judged += 1


def convert(w, op, number):
    """a conversion or copy that may be cut off"""
    profiles, ctx = w.profiles, w.ctx
    p = profiles[op["p"] % len(profiles)]
    kind = op["op"]
    if kind == "unit" and (any(not isinstance(x, int) for _, x in p.voters) or sum(x for _, x in p.voters) > 60):
        raise Discard("cannot be converted")
    models = [[[[set(a), x] for a, x in q.voters], list(q.names)] for q in profiles]
    holder = []
    call = {"unit": p.real.convert_to_unit_weights, "merge": p.real.convert_to_weighted,
            "copy": lambda: holder.append(p.real.copy())}[kind]  # fmt: skip
    try:
        injected(w, op, call)
    except Cut as c:
        w.failures += 1
        P01.settle(profiles, models, op, f"step {number} ({c})")
        w.settings(f"after {c} in step {number}")
        if kind != "copy":
            session.edit_op(profiles, {"op": kind, "p": op["p"]}, ctx)
            ctx.count("retries_after_failure")
        return
    if kind == "copy":
        q = session.SimProfile.__new__(session.SimProfile)
        q.real, q.m, q.names = holder[0], p.m, list(p.names)
        q.voters = [[set(a), x] for a, x in p.voters]
        profiles.append(q)
    elif kind == "unit":
        p.voters = [[set(a), 1] for a, x in p.voters for _ in range(x)]
    else:
        got = [[set(v.approved), v.weight] for v in p.real]
        want = {}
        for a, x in p.voters:
            want[frozenset(a)] = want.get(frozenset(a), 0) + x
        if {frozenset(a): x for a, x in got} != want or len(got) != len(want):
            raise Violation("merge", f"step {number}: convert_to_weighted gave {got}, expected {want}")
        p.voters = got
    w.judged += 1


def rejected(w, p, op, number):
    """a call that has to be refused must not change anything either"""
    import abcvoting.abcrules as abcrules
    import abcvoting.properties as properties
    from abcvoting.preferences import Profile

    kind, rule, k, m = op["kind"], op["rule"], op["k"], p.m
    if not p.voters or not 1 <= k <= m:
        raise Discard("empty profile")
    w.solver.begin_op(2000)
    calls = {
        "size": lambda: abcrules.compute(rule, p.real, m + 1),
        "zero": lambda: abcrules.compute(rule, p.real, 0),
        "rule": lambda: abcrules.compute("no-such-rule", p.real, k),
        "alg": lambda: abcrules.compute(rule, p.real, k, algorithm="no-such-algorithm"),
        "axiom": lambda: properties.check("no-such-axiom", p.real, list(range(k))),
        "committee": lambda: properties.check("jr", p.real, [0] * (k + 1)),
        "committee-range": lambda: properties.full_analysis(p.real, [m + 3]),
        "resolute-max": lambda: abcrules.compute("pav", p.real, k, resolute=True, max_num_of_committees=2),
        "unit": lambda: abcrules.compute("monroe", p.real, k),
        "prop-alg": lambda: properties.check("ejr", p.real, list(range(k)), algorithm="no-such-algorithm"),
        "empty": lambda: abcrules.compute(rule, Profile(m), k),
        "negative-max": lambda: abcrules.compute("pav", p.real, k, resolute=False, max_num_of_committees=-1),
        "not-profile": lambda: abcrules.compute(rule, [[0]], k),
    }
    if kind not in calls or (kind == "unit" and p.unit()):
        raise Discard("not illegal")
    try:
        calls[kind]()
    except Exception as e:  # pylint: disable=broad-except
        w.ctx.log("rejected", kind, type(e).__name__)
        w.ctx.count("rejected_calls")
        w.ctx.state("rejected", kind, type(e).__name__)
        w.failures += 1
        return
    w.ctx.count(f"illegal_call_answered_{kind}")
