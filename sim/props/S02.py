"""Monroe, minimax AV and lexicographic minimax AV: exact winners for every reported optimum."""

from sim import env, gen, history, session
from sim.props import common

CASES = {"quick": 1600, "thorough": 14000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULES = ("monroe", "minimaxav", "lexminimaxav")
ALGS = ("gurobi", "mip-cbc", "ortools-cp", "mip-gurobi", "brute-force")
RULE = (
    "a case is a seeded history of 1-4 calls of monroe/minimaxav/lexminimaxav (any algorithm) with "
    "profile edits in between, in which the simulator decides which optimal solution every solve "
    "reports and perturbs it within tolerances; non-trivial: at least one call was judged"
)
STATES = common.STATES
REAL, STUB, ASSUMPTIONS = common.LIB, common.SOLVER_STUBS, common.SOLVER_ASSUMPTIONS


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    rules = (rng.choice(RULES),)
    big = tier == "thorough" or rng.random() < 0.3
    algs = ALGS[:4] if rng.random() < 0.75 else ALGS
    weights = ("unit",) if rules[0] != "minimaxav" else ("unit", "unit", "int", "frac")
    return common.history(rng, rules, algs, max_m=6 if big else 5, max_n=9 if big else 6,
                          weights=weights, wide=0.07)  # fmt: skip


def execute(workload, ctx):
    history.run(workload, ctx)
