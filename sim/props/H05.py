"""Scores, comparisons of committees and their textual listings at every point of a history."""

from sim import env, gen, history, scoreops, session
from sim.props import common

CASES = {"quick": 12000, "thorough": 200000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULES = ("pav", "cc", "seqpav", "revseqpav", "seqslav", "revseqcc", "av", "seqcc", "slav", "geom2", "seqgeom2",
         "monroe", "greedy-monroe", "minimaxav", "lexminimaxav", "lexcc")  # fmt: skip
RULE = (
    "a case is a seeded history of 2-12 calls of score functions, domination, distance, listing and "
    "formatting helpers, mixed with rule computations, ballot/weight edits, copies, conversions and "
    "calls cut off by an exception at a chosen line of library code (the cut-off call is repeated at "
    "once); returned lists are overwritten by the caller; every value is compared with its definition "
    "on the ballots the history has led to; non-trivial: at least one value was judged"
)
STATES = "distinct (helper, score function, form of the committee, sizes, unit weights) judged"
REAL = common.LIB
STUB = []
ASSUMPTIONS = ["definitions of the scores in sim/oracle/rules.py and sim/scoreops.py"]
ALGS = ("standard", "brute-force", "branch-and-bound")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    weights = ("unit",) if rng.random() < 0.45 else common.EXACT_WEIGHTS
    big = rng.random() < 0.4
    specs = [gen.wide(rng, weights) if rng.random() < 0.25 else
             gen.election(rng, max_m=8 if big else 5, max_n=10 if big else 6, weights=weights)]  # fmt: skip
    kinds = scoreops.KINDS if rng.random() < 0.7 else (rng.choice(scoreops.KINDS),)
    if rng.random() < 0.08:  # large districts
        weights, specs = ("unit",), [gen.wide(rng, min_m=12)]
        kinds = tuple(kind for kind in scoreops.KINDS if kind.startswith("monroe"))
    if rng.random() < 0.2:
        specs.append(gen.election(rng, max_m=5, max_n=5, weights=weights))
    initial, ops = list(specs), []
    edit_weights = [w for w in weights if w != "unit"] or ["unit"]
    rules = [r for r in RULES if weights == ("unit",) or not session.RULES[r][2]]
    for _ in range(rng.randint(2, 9)):
        what = rng.random()
        if what < 0.7:
            ops.append(scoreops.random_score(rng, specs, kinds))
        elif what < 0.78:
            ops.append(session.random_compute(rng, specs, rules, ALGS))
        else:
            edit = session.random_edit(rng, specs, edit_weights)
            ops.append(edit)
            if edit["op"] == "copy":
                specs.append(dict(specs[edit["p"]]))
    for _ in range(rng.randint(1, 3)):
        ops.append(scoreops.random_score(rng, specs, kinds))
    if rng.random() < 0.5:
        history.interrupts(rng, ops, 0.5)
    return {"profiles": initial, "ops": ops}


def execute(workload, ctx):
    history.run(workload, ctx)
