"""Texts and generators shared by property modules."""

from sim import gen, session
from sim.core import Discard, Violation

LIB = ["abcvoting.abcrules", "abcvoting.abcrules_gurobi", "abcvoting.abcrules_mip",
       "abcvoting.abcrules_ortools", "abcvoting.scores", "abcvoting.preferences",
       "abcvoting.misc", "abcvoting.output", "networkx"]  # fmt: skip
SOLVER_STUBS = ["gurobipy (simulated interface on HiGHS)", "mip (simulated interface on HiGHS)",
                "ortools CP-SAT (simulated interface on HiGHS)"]  # fmt: skip
SOLVER_ASSUMPTIONS = [
    "a solver reporting OPTIMAL returns a solution optimal within the gap the caller requested, "
    "integral within 1e-5 or its documented tolerance; any such solution may be returned",
    "HiGHS (scipy) solves the small models of the simulation correctly",
    "reference model of the rules in sim/oracle/rules.py",
]
STATES = "distinct (rule, algorithm, resolute, max, committee size, profile size, #winners) judged"
ALL_WEIGHTS = ("unit", "unit", "int", "frac", "tiny", "large")
EXACT_WEIGHTS = ALL_WEIGHTS + ("huge",)  # not for rules that depend on solver tolerances
EXTRA_NAMES = ("rename",)


def weights_for(rules, rng):
    """weight modes usable for the rule drawn"""
    return ("unit",) if all(session.RULES[r][2] for r in rules) else ALL_WEIGHTS


def history(rng, rules, algs=None, max_m=6, max_n=6, min_m=1, steps=(1, 1, 2, 3), weights=None,
            edits=0.3, lex=True, wide=0.0):  # fmt: skip
    """one or two profiles and a history of computations and edits"""
    weights = weights or weights_for(rules, rng)
    if rng.random() < wide:
        specs = [gen.wide(rng, weights)]
    else:
        specs = [gen.election(rng, max_m=max_m, max_n=max_n, min_m=min_m, weights=weights)]
    if rng.random() < 0.15:
        specs.append(gen.election(rng, max_m=max_m, max_n=max_n, min_m=min_m, weights=weights))
    ops, initial = [], list(specs)
    edit_weights = [w for w in weights if w != "unit"] or ["unit"]
    for _ in range(rng.choice(steps)):
        ops.append(compute(rng, specs, rules, algs, lex))
        if rng.random() < edits:
            edit = session.random_edit(rng, specs, edit_weights)
            ops.append(edit)
            if edit["op"] == "copy":
                specs.append(dict(specs[edit["p"]]))
            if rng.random() < 0.7:
                ops.append(compute(rng, specs, rules, algs, lex))
    return {"profiles": initial, "ops": ops}


def compute(rng, specs, rules, algs=None, lex=True):
    return session.random_compute(rng, specs, rules, algs)


def probe(rng, rules):
    """calls on a larger profile that show a latent corruption of what the rules compute with"""
    rules = [r for r in sorted(set(rules)) if r not in ("maximin-support", "leximaxphragmen", "rsd")]
    rules = rng.sample(rules, min(2, len(rules)))
    m, n = rng.randint(5, 7), rng.randint(5, 9)
    weights = "unit" if any(session.RULES[r][2] for r in rules) else rng.choice(("unit", "int", "int"))
    voters = [{"a": sorted(rng.sample(range(m), rng.randint(1, m - 1))), "w": gen.weight(rng, weights)}
              for _ in range(n)]  # fmt: skip
    ops = []
    for rule in rules:
        algs, resolutes, _ = session.RULES[rule]
        plain = [a for a in algs if a in session.PLAIN_ALGS] or list(algs)
        ops.append({"op": "compute", "p": 0, "rule": rule, "alg": rng.choice(plain), "max": None,
                    "k": 3 if rule == "geom10" else rng.randint(3, 4), "via": "compute",
                    "resolute": False if False in resolutes else resolutes[0]})  # fmt: skip
    return {"profile": {"m": m, "voters": voters, "names": None}, "ops": ops}


def run_probe(workload, ctx, world):
    """perform and judge the probe calls"""
    if not workload.get("probe"):
        return
    p = session.SimProfile(workload["probe"]["profile"])
    saved, world.faults = world.faults, {}
    try:
        for op in workload["probe"]["ops"]:
            try:
                session.compute_op(p, op, ctx, world, tag=" [afterwards, on another profile]")
                ctx.count("probe_calls")
            except Discard:
                ctx.count("skipped_ops")
            except Violation as v:
                raise v.within("afterwards") from v
    finally:
        world.faults = saved
