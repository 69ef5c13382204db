"""Phragmen, equal shares and budget rules at every point of a history."""

from sim import env, history
from sim.props import common

CASES = {"quick": 8000, "thorough": 120000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULES = (
    "seqphragmen", "equal-shares", "equal-shares-with-av-completion",
    "equal-shares-with-increment-completion", "equal-shares-without-completion",
    "phragmen-enestroem", "consensus-rule",
)
RULE = (
    "a case is a seeded history of 1-6 computations of Phragmen/equal-shares/budget rules with ballot/weight edits, copies, "
    "conversions and calls cut off by an exception at a chosen line of library code (the cut-off "
    "call is repeated at once); after every step profile and results are compared with the model; "
    "non-trivial: at least one result was judged"
)
STATES = common.STATES + "; plus distinct (source line function, rule) at which a call was cut off"
REAL = common.LIB
STUB = []
ASSUMPTIONS = ["reference model of the rules in sim/oracle/rules.py",
    "float algorithms are judged only where no two compared values are within 1e-9 of each other",
]
ALGS = ("standard-fractions", "gmpy2-fractions", "float-fractions")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" or rng.random() < 0.3
    rules = RULES if rng.random() < 0.5 else (rng.choice(RULES),)
    weights = common.EXACT_WEIGHTS
    wl = common.history(rng, rules, ALGS, max_m=6 if big else 5, max_n=7 if big else 5,
                        steps=(1, 2, 2, 3), weights=weights, wide=0.06)  # fmt: skip
    if rng.random() < 0.5:
        history.interrupts(rng, wl["ops"], 0.6)
    return wl


def execute(workload, ctx):
    history.run(workload, ctx)
