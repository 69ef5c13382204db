"""Concurrent callers get the same answers as callers that run alone."""

import sys

from sim import env, gen, sched, scoreops, session
from sim.core import Discard, SimUnsupported, Violation, num
from sim.oracle import axioms
from sim.oracle import rules as oracle
from sim.props import P01, common
from sim.solver import lin

CASES = {"quick": 2400, "thorough": 60000}
LEVEL = "exploration"
CASE_LIMIT = 120.0
RULES = tuple(r for r in session.RULES if r not in ("rsd", "leximaxphragmen"))
CHEAP = ("av", "sav", "seqpav", "seqcc", "revseqpav", "seqphragmen", "equal-shares", "greedy-monroe",
         "phragmen-enestroem", "consensus-rule", "eph", "trivial", "equal-shares-with-av-completion",
         "equal-shares-with-increment-completion", "equal-shares-without-completion")  # fmt: skip
RULE = (
    "a case runs 2-4 caller threads, each with 1-3 calls (rules, axiom checks, scores, full analyses, textual "
    "forms, copies that are edited and used) on one shared profile or on several; real threads, of "
    "which exactly one runs at a time; a seeded scheduler hands control over at chosen lines (sometimes "
    "bytecodes) of library code and may cut single calls off with an exception; every result is "
    "compared with the reference model, what a further thread would see of the shared profiles in between is "
    "compared with their ballots, and, for deterministic algorithms, with the same call made "
    "alone before or afterwards; non-trivial: at least one hand-over inside library code took place"
)
STATES = "distinct (function left, function entered) of hand-overs, and distinct whole interleavings"
REAL = common.LIB + ["abcvoting.properties", "Python threads"]
STUB = common.SOLVER_STUBS + ["thread scheduler", "threading.Lock/RLock created by library code"]
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS + [
    "control changes hands at lines or bytecodes of library code only; solver packages, networkx and "
    "the standard library are themselves thread-safe",
    "callers do not edit a profile that others are using",
]
LEVELS = (30, 30, 20, 15, 10, 5, 50)


def setup():
    sched.install_locks()
    env.install_fakes()
    sched.hot_lines()


def generate(rng, tier, index):
    same = rng.random() < 0.25  # everybody calls the same rule
    rules = (rng.choice(RULES),) if same else (RULES if rng.random() < 0.5 else CHEAP)
    weights = common.weights_for(rules, rng)
    if any(session.RULES[r][2] for r in rules) and rng.random() < 0.5:
        weights = ("unit",)
    specs = [gen.election(rng, max_m=5, max_n=5, min_m=2, weights=weights) for _ in range(rng.choice((1, 1, 2)))]
    threads = []
    for _ in range(rng.choice((2, 2, 2, 3, 4))):
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            what = rng.random()
            if what < 0.64 or same:
                op = session.random_compute(rng, specs, rules)
            elif what < 0.72:
                op = scoreops.random_score(rng, specs)
            elif what < 0.88:
                op = session.random_check(rng, specs, full=0.3)
            elif what < 0.92:
                op = {"op": "text", "p": rng.randrange(len(specs))}
            else:
                p = rng.randrange(len(specs))
                edits = []
                for _ in range(rng.randint(1, 3)):
                    edit = session.random_edit(rng, [specs[p]], [w for w in weights if w != "unit"] or ["unit"])
                    if edit["op"] != "copy":
                        edits.append(edit)
                op = {"op": "copy", "p": p, "edits": edits,
                      "then": session.random_compute(rng, [specs[p]], rules)}  # fmt: skip
            if rng.random() < 0.06:
                op["int"] = session.random_cut(rng, ("mem", "err"), 3.5)
            ops.append(op)
        threads.append(ops)
    workload = {"profiles": specs, "threads": threads, "mean": int(10 ** rng.uniform(0, 2.8)),
                "opcodes": rng.random() < 0.2, "watch": rng.choice((0, 1, 2, 5, 20)), "first": rng.random() < 0.4, "verbosity": rng.choice(LEVELS)}  # fmt: skip
    start = False
    if rng.random() < 0.35:  # two identical callers
        threads[1] = [dict(op) for op in threads[0]]
        if rng.random() < 0.7:  # that start at the same moment in a fresh process
            del threads[2:]
            workload["first"], start = False, True
    used = [op["rule"] for ops in threads for op in ops if op["op"] == "compute"]
    if used and rng.random() < 0.6:
        workload["probe"] = common.probe(rng, used)
    aim = rng.random()
    if aim < (0.6 if start else 0.05):  # what happens once in each thread and touches lasting state
        workload.update(fresh=True, hot=True, mean=int(10 ** rng.uniform(0, 1.3)), opcodes=rng.random() < 0.7)
    elif aim < (0.75 if start else 0.35):
        workload.update(fresh=True, mean=int(10 ** rng.uniform(0, 2.0)), opcodes=rng.random() < 0.4)
    elif aim < (0.9 if start else 0.65):
        workload.update(hot=True, mean=int(10 ** rng.uniform(0, 1.5)), opcodes=rng.random() < 0.6)
    return workload


class Quiet:
    """standard output of the simulated process"""

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def perform(profiles, op, local):
    """one call of one thread; returns plain data"""
    p = profiles[op["p"] % len(profiles)]
    if op["op"] == "compute":
        return session.call_rule(p.real, op)
    if op["op"] == "check":
        return session.call_check(p.real, op)
    if op["op"] == "score":
        return scoreops.call(p.real, p, op)
    if op["op"] == "text":
        return (str(p.real), p.real.str_compact(), p.real.total_weight(), p.real.is_party_list())
    q = session.SimProfile.__new__(session.SimProfile)
    q.real, q.m, q.names = p.real.copy(), p.m, list(p.names)
    q.voters = [[set(a), w] for a, w in p.voters]
    for edit in op["edits"]:
        try:
            session.edit_op([q], edit, local)
        except Discard:
            pass
    q.verify("edited copy of a shared profile")
    try:
        session.legal_compute(q, op["then"])
    except Discard:
        return q, None
    return q, session.call_rule(q.real, op["then"])


class NoCtx:
    """counters of edits made inside threads are not recorded"""

    def log(self, *a):
        pass

    def count(self, *a):
        pass


def legal(profiles, op):
    p = profiles[op["p"] % len(profiles)]
    if op["op"] == "compute":
        session.legal_compute(p, op)
        return len(oracle.winners(op["rule"], p.model(), op["k"])) * (op["k"] + 1)
    if op["op"] == "check":
        session.legal_check(p, op)
    if op["op"] == "score":
        scoreops.legal(p, op)
    return 10


def judge(profiles, op, result, ctx, tag):
    p = profiles[op["p"] % len(profiles)]
    if op["op"] == "compute":
        session.judge(p, op, result, ctx, tag)
        ctx.count("rule_calls")
    elif op["op"] == "check":
        verdicts = dict(result) if op["prop"] == "full" else {op["prop"]: result}
        for axiom, verdict in sorted(verdicts.items()):
            quota = op.get("quota")
            want = axioms.holds(axiom, p.model(), op["com"], None if quota is None else num(quota))
            if want is not None and verdict is not want:
                raise Violation("wrong-verdict", f"{session.describe_check(p, op, tag)}: {axiom} verdict {verdict!r}, correct: {want}")
        ctx.count("axiom_checks")
    elif op["op"] == "score":
        scoreops.judge(p, op, result, tag)
        ctx.count("score_calls")
    elif op["op"] == "copy":
        q, committees = result
        if committees is not None:
            try:
                session.judge(q, op["then"], committees, ctx, tag + " (edited copy)")
            except Discard:
                pass
        ctx.count("edited_copies")
    else:
        ctx.count("texts")


DETERMINISTIC = ("standard", "brute-force", "branch-and-bound") + session.FRACTION_ALGS


def plain(op, result):
    """comparable form of a result that has to be the same for a call made alone; None: not comparable"""
    if op["op"] == "compute" and op["alg"] in DETERMINISTIC:
        return [sorted(int(c) for c in com) for com in result]
    if op["op"] == "text":
        return result
    return None


def execute(workload, ctx):
    if not workload["profiles"] or len(workload["threads"]) < 1:
        raise Discard("nothing to do")
    profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
    programs, limit = [], 0
    for ops in workload["threads"]:
        program = []
        for op in ops:
            try:
                limit += legal(profiles, op) * 3 + 200
                program.append(op)
            except Discard:
                ctx.count("skipped_ops")
        if program:
            programs.append(program)
    if len(programs) < 2:
        raise Discard("fewer than two threads")
    if any(op.get("rule") == "maximin-support" or op.get("then", {}).get("rule") == "maximin-support"
           for prog in programs for op in prog):  # fmt: skip
        limit = 100000
    from abcvoting import output as module

    world = lin.World(ctx)
    lin.set_world(world)
    stdout, sys.stdout = sys.stdout, Quiet()
    out = module.output
    out.set_verbosity(workload["verbosity"])
    try:
        alone = run_alone(profiles, programs, world, limit) if workload["first"] else None
        world.begin_op(limit)
        tasks = together(profiles, programs, workload, ctx)
        for i, p in enumerate(profiles):
            P01.verify(p, f"after the concurrent calls, profile {i}")
        common.run_probe(workload, ctx, world)
        if out.verbosity != workload["verbosity"] or out.logger is not None:
            raise Violation("settings-changed", f"verbosity {out.verbosity} after {describe(programs)}, "
                            f"was {workload['verbosity']}; logger {out.logger}")  # fmt: skip
        if alone is None:
            alone = run_alone(profiles, programs, world, limit)
        for t, (task, program) in enumerate(zip(tasks, programs)):
            for n, op in enumerate(program):
                tag = f" [thread {t}, call {n}, concurrently with {describe(programs, t)}]"
                status, result = task.result[n]
                if status == "failed":
                    continue
                judge(profiles, op, result, ctx, tag)
                mine, other = plain(op, result), plain(op, alone[t][n])
                if mine != other:
                    raise Violation("differs-from-alone", f"{op}{tag}: {mine}, alone: {other}")
                judge(profiles, op, alone[t][n], ctx, " [alone]")
    finally:
        sys.stdout = stdout
        lin.set_world(None)
        out.set_verbosity()


def describe(programs, but=None):
    return "; ".join(
        ", ".join(op.get("rule") or op.get("prop") or op["op"] for op in prog)
        for t, prog in enumerate(programs) if t != but
    )  # fmt: skip


def run_alone(profiles, programs, world, limit):
    results = []
    world.begin_op(limit)
    for program in programs:
        row = []
        for op in program:
            try:
                row.append(perform(profiles, op, NoCtx()))
            except (Violation, SimUnsupported):
                raise
            except Exception as e:  # pylint: disable=broad-except
                reraise(e, f"{op} made alone")
        results.append(row)
    return results


def reraise(e, where):
    from sim.engine import blame

    if getattr(e, "simulated_api", False) is False and blame(e) == "unsupported":
        raise SimUnsupported(f"{type(e).__name__} in simulator: {e}") from e
    if blame(e) == "error":
        raise e
    raise Violation("crash", f"{where} raised {type(e).__name__}: {str(e)[:300]}") from e


def together(profiles, programs, workload, ctx):
    from abcvoting import output as module

    tasks, out = [], module.output

    def thread(program, slot):
        def run():
            results = []
            for n, op in enumerate(program):
                slot["call"] = n
                try:
                    results.append(("ok", perform(profiles, op, NoCtx())))
                except Exception as e:  # pylint: disable=broad-except
                    task = scheduler.tasks[slot["task"]]
                    if task.fired is not None and not slot.get("used"):
                        slot["used"] = True
                        results.append(("failed", None))
                        continue
                    if isinstance(e, Violation):
                        raise
                    reraise(e, f"thread {slot['task']}, call {n}: {op}, concurrently with {describe(programs, slot['task'])},")
            return results

        return run

    scheduler = sched.Scheduler(ctx, workload["mean"], workload["opcodes"], fresh=workload.get("fresh"),
                                hot=workload.get("hot"))  # fmt: skip

    def observer():
        """a caller that prints the ballots of the shared profiles at this moment"""
        for i, p in enumerate(profiles):
            seen = [(v.approved, v.weight) for v in p.real]
            if len(seen) != len(p.voters) or any(a != b or x != y for (a, x), (b, y) in zip(seen, p.voters)):
                return f"profile {i} as {seen} instead of {p.voters}"
        if out.verbosity != workload["verbosity"] or out.logger is not None:
            return f"verbosity {out.verbosity} and logger {out.logger} instead of {workload['verbosity']} and None"
        return None

    scheduler.observe(observer, int(workload.get("watch") or 0))
    calls = []
    for t, program in enumerate(programs):
        bomb = next((op["int"] for op in program if op.get("int")), None)
        calls.append((thread(program, {"task": t}), bomb))
    tasks = scheduler.run(calls)
    for task in tasks:
        if task.error is not None:
            raise task.error
        if task.fired is not None:
            ctx.count("fault_exception_in_thread")
            ctx.log("cut", task.number, task.fired)
    ctx.count("handovers", scheduler.switches)
    ctx.count("looks_at_shared_profiles", scheduler.looks)
    ctx.count("threads", len(tasks))
    if workload["opcodes"]:
        ctx.count("runs_with_bytecode_handovers")
    ctx.state("interleaving", describe(programs), tuple(scheduler.path))
    if scheduler.switches > len(tasks) - 1:
        ctx.nontrivial = True
    return tasks
