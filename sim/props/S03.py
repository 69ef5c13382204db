"""Minimax-/leximax-Phragmen and maximin support: exact outcome for every reported optimum."""

from sim import env, history
from sim.props import common

CASES = {"quick": 1200, "thorough": 12000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULES = ("minimaxphragmen", "minimaxphragmen", "maximin-support", "leximaxphragmen")
ALGS = ("gurobi", "mip-cbc", "mip-gurobi")
RULE = (
    "a case is a seeded history of 1-4 calls of minimaxphragmen/leximaxphragmen/maximin-support "
    "with profile edits in between, in which the simulator decides which optimal load distribution "
    "every solve reports and perturbs it within tolerances; non-trivial: at least one call judged"
)
STATES = common.STATES
REAL, STUB, ASSUMPTIONS = common.LIB, common.SOLVER_STUBS, common.SOLVER_ASSUMPTIONS


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    rule = rng.choice(RULES)
    big = tier == "thorough" or rng.random() < 0.3
    if rule == "leximaxphragmen":
        return common.history(rng, (rule,), ALGS, max_m=5 if big else 4, max_n=5 if big else 4,
                              steps=(1, 1, 2), weights=("unit",))  # fmt: skip
    return common.history(rng, (rule,), ALGS, max_m=6 if big else 5, max_n=6 if big else 5,
                          steps=(1, 1, 2), wide=0.05)  # fmt: skip


def execute(workload, ctx):
    history.run(workload, ctx)
