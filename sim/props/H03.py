"""Brute-force, branch-and-bound, greedy-monroe, EPH and trivial rules at every point of a history."""

from sim import env, history
from sim.props import common

CASES = {"quick": 8000, "thorough": 120000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULES = (
    "pav", "slav", "cc", "geom2", "lexcc", "monroe", "minimaxav", "lexminimaxav", "greedy-monroe",
    "greedy-monroe", "eph", "eph", "trivial", "geom1.5", "geom10",
)
UNIT = ("monroe", "lexminimaxav", "greedy-monroe")
RULE = (
    "a case is a seeded history of 1-6 computations of brute-force/branch-and-bound/greedy rules, EPH and the trivial rule with ballot/weight edits, copies, "
    "conversions and calls cut off by an exception at a chosen line of library code (the cut-off "
    "call is repeated at once); after every step profile and results are compared with the model; "
    "non-trivial: at least one result was judged"
)
STATES = common.STATES + "; plus distinct (source line function, rule) at which a call was cut off"
REAL = common.LIB
STUB = []
ASSUMPTIONS = ["reference model of the rules in sim/oracle/rules.py"]
ALGS = ("brute-force", "branch-and-bound", "standard", "standard-fractions", "gmpy2-fractions")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" or rng.random() < 0.3
    rules = RULES if rng.random() < 0.5 else (rng.choice(RULES),)
    weights = ("unit",) if any(r in UNIT for r in rules) and rng.random() < 0.7 else common.EXACT_WEIGHTS
    wl = common.history(rng, rules, ALGS, max_m=7 if big else 5, max_n=9 if big else 6,
                        steps=(1, 2, 2, 3), weights=weights, wide=0.1)  # fmt: skip
    if rng.random() < 0.5:
        history.interrupts(rng, wl["ops"], 0.6)
    if wl["profiles"][0].get("wide") and weights == ("unit",):
        for op in wl["ops"]:
            if op["op"] == "compute" and rng.random() < 0.3:
                op.update(rule="monroe", alg="brute-force", k=2)
    return wl


def execute(workload, ctx):
    history.run(workload, ctx)
