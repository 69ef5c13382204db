"""Solver-backed Thiele rules and lexcc return exactly the winning committees, whatever optimum and
whatever rounding the solver reports."""

from sim import env, gen, history, session

CASES = {"quick": 1800, "thorough": 12000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULES = ("pav", "slav", "cc", "geom2", "geom3", "lexcc", "pav", "slav", "geom1.5", "geom10", "lexcc")
ALGS = ("gurobi", "mip-cbc", "ortools-cp", "mip-gurobi")
RULE = (
    "a case is a seeded history of 1-4 solver-backed calls of pav/slav/cc/geom/lexcc on a profile "
    "(<= 7 candidates, <= 7 voters, unit/integer/fractional/tiny/large weights) in which the "
    "simulator decides which optimal solution every solve reports and perturbs it within the "
    "solver's tolerances; non-trivial: at least one rule computation was judged against the model"
)
STATES = "distinct (rule, algorithm, resolute, max, committee size, profile size, #winners) judged"
REAL = ["abcvoting.abcrules", "abcvoting.abcrules_gurobi", "abcvoting.abcrules_mip",
        "abcvoting.abcrules_ortools", "abcvoting.scores", "abcvoting.preferences", "networkx"]  # fmt: skip
STUB = ["gurobipy (simulated interface on HiGHS)", "mip (simulated interface on HiGHS)",
        "ortools CP-SAT (simulated interface on HiGHS)"]  # fmt: skip
ASSUMPTIONS = [
    "a solver reporting OPTIMAL returns a solution optimal within the gap the caller requested, "
    "integral within 1e-5 or its documented tolerance; any such solution may be returned",
    "HiGHS (scipy) solves the small models of the simulation correctly",
    "reference model of the rules in sim/oracle/rules.py",
]
WEIGHTS = ("unit", "unit", "int", "frac", "tiny", "large", "big")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" or rng.random() < 0.3
    if rng.random() < 0.05:
        spec = gen.wide(rng, WEIGHTS[:4], max_m=11, max_n=12)
    else:
        spec = gen.election(rng, max_m=7 if big else 5, max_n=8 if big else 6,
                            weights=WEIGHTS[:-1] if big else WEIGHTS)  # fmt: skip
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        op = session.random_compute(rng, [spec], RULES, ALGS)
        op["max"] = None if op["resolute"] else rng.choice((None, None, None, 1, 2, 3))
        ops.append(op)
        if rng.random() < 0.25:
            ops.append(session.random_edit(rng, [spec], WEIGHTS[1:4]))
    return {"profiles": [spec], "ops": ops}


def execute(workload, ctx):
    history.run(workload, ctx)
