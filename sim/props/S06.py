"""A failed or inconclusive solve never turns into an answer."""

from sim import env, gen, history, session
from sim.props import common

CASES = {"quick": 2200, "thorough": 30000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
FAULTS = ("incumbent", "incumbent", "incumbent", "empty", "empty", "error", "model_error")
SOLVER_RULES = ("pav", "slav", "cc", "geom2", "lexcc", "monroe", "minimaxav", "lexminimaxav",
                "minimaxphragmen", "leximaxphragmen", "maximin-support", "maximin-support")  # fmt: skip
ALGS = ("gurobi", "mip-cbc", "ortools-cp", "mip-gurobi")
RULE = (
    "a case is a seeded history of 1-4 solver-backed rule computations and axiom checks in which "
    "chosen solver calls fail: they stop early with an incumbent (time limit, interrupted, "
    "suboptimal, ...), stop without a solution (numeric, inconclusive, unbounded-or-infeasible, ...), "
    "raise, or the model cannot be created (license); every call must raise or be exactly right, and "
    "is then repeated without faults; non-trivial: at least one call was performed"
)
STATES = common.STATES + "; plus (call, exception, fault kind) of failed calls"
REAL = common.LIB + ["abcvoting.properties"]
STUB, ASSUMPTIONS = common.SOLVER_STUBS, common.SOLVER_ASSUMPTIONS + [
    "a solver that reports OPTIMAL or INFEASIBLE is right (lying solvers are out of scope)",
    "reference model of the axioms in sim/oracle/axioms.py",
]


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" and rng.random() < 0.5
    ops = []
    rules = [r for r in SOLVER_RULES]
    unit = rng.random() < 0.6
    if not unit:
        rules = [r for r in rules if not session.RULES[r][2] and r != "leximaxphragmen"]
    weights = ("unit",) if unit else ("int", "frac", "unit")
    spec = gen.election(rng, max_m=6 if big else 5, max_n=6 if big else 5, weights=weights)
    if rng.random() < 0.04:
        spec = gen.wide(rng, weights, max_m=10, max_n=9)
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        if rng.random() < 0.65:
            op = session.random_compute(rng, [spec], rules, ALGS)
            if op["rule"] == "leximaxphragmen" and (spec["m"] > 5 or len(spec["voters"]) > 5):
                op["rule"], op["alg"] = "pav", "gurobi"
            ops.append(op)
        else:
            op = session.random_check(
                rng, [spec], ("pareto", "pjr", "ejr", "fjr", "core", "priceability", "stable-priceability"),
                ("gurobi",))  # fmt: skip
            ops.append(op)
            if rng.random() < 0.15:
                op["prop"], op["quota"] = "full", None
    faults, at = [], 0
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        at += rng.choice((0, 0, 1, 1, 2, 3, 5, 9))
        faults.append({"at": at, "kind": rng.choice(FAULTS)})
    return {"profiles": [spec], "ops": ops, "faults": faults}


def execute(workload, ctx):
    history.run(workload, ctx)
