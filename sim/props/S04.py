"""Axiom verdicts are exact for every algorithm, quota, weight and reported solution."""

from sim import env, gen, history, session
from sim.props import common

CASES = {"quick": 4600, "thorough": 16000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is a seeded history of 2-5 axiom checks (single axioms with any algorithm and quota, or "
    "full analyses) on a profile (<= 6 candidates and 7 voters, sometimes <= 11 and 26; any weights) and any committee, with "
    "profile edits in between; the simulator decides which feasible solution every solve reports; "
    "non-trivial: at least one verdict was judged"
)
STATES = "distinct (axiom, algorithm, quota given, verdict, sizes, unit weights) judged"
REAL = ["abcvoting.properties", "abcvoting.preferences", "abcvoting.misc", "abcvoting.output"]
STUB = common.SOLVER_STUBS[:1]
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS[:2] + ["reference model of the axioms in sim/oracle/axioms.py"]


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" or rng.random() < 0.3
    weights = ("unit", "unit", "int", "frac", "tiny")
    if rng.random() < 0.1:
        spec = gen.wide(rng, weights, max_m=11, max_n=14)
    else:
        spec = gen.election(rng, max_m=6 if big else 5, max_n=7 if big else 5, weights=weights)
    ops = []
    com = None
    for _ in range(rng.randint(2, 5)):
        op = session.random_check(rng, [spec])
        if com is not None and rng.random() < 0.5:
            op["com"] = com
        com = op["com"]
        ops.append(op)
        if rng.random() < 0.3:
            ops.append(session.random_edit(rng, [spec], ("int", "frac")))
    return {"profiles": [spec], "ops": ops}


def execute(workload, ctx):
    history.run(workload, ctx)
