"""A reported axiom violation comes with a genuine counterexample."""

import io
import sys

from sim import env, gen, history, session, witness
from sim.core import Discard, Violation, num
from sim.oracle import axioms
from sim.props import common

CASES = {"quick": 8000, "thorough": 60000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
AXIOMS = ("pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "core")
RULE = (
    "a case is a seeded history of 2-5 axiom checks at verbosity DETAILS with profile edits in "
    "between; the simulator decides which feasible solution (= which deviating group) every solve "
    "reports; each printed counterexample is parsed and verified against the definition; "
    "non-trivial: at least one check was performed"
)
STATES = "distinct (axiom, algorithm, group size, candidate set size, ell, sizes) of verified witnesses"
REAL = ["abcvoting.properties", "abcvoting.output", "abcvoting.misc", "abcvoting.preferences"]
STUB = common.SOLVER_STUBS[:1] + ["sys.stdout (in-memory)"]
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS[:2] + [
    "reference model of the axioms in sim/oracle/axioms.py",
    "the printed sentence keeps its wording; unrecognised sentences are counted, not judged",
]


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    big = tier == "thorough" or rng.random() < 0.3
    weights = ("unit", "unit", "int", "frac")
    if rng.random() < 0.1:
        spec = gen.wide(rng, weights, max_m=11, max_n=14)
    else:
        spec = gen.election(rng, max_m=6 if big else 5, max_n=7 if big else 5, min_n=2, weights=weights)
    if spec["names"] and len(set(spec["names"])) < spec["m"]:
        spec["names"] = None  # the printed text would be ambiguous
    if spec["names"]:
        spec["names"] = [n if n.strip() and " " not in n else "q" for n in spec["names"]]
    ops = []
    for _ in range(rng.randint(2, 5)):
        op = session.random_check(rng, [spec], AXIOMS)
        if rng.random() < 0.7:  # bad committees: few approvals
            score = [sum(c in v["a"] for v in spec["voters"]) for c in range(spec["m"])]
            order = sorted(range(spec["m"]), key=lambda c: (score[c], rng.random()))
            op["com"] = sorted(order[: len(op["com"])])
        ops.append(op)
        if rng.random() < 0.2:
            ops.append(session.random_edit(rng, [spec], ("int", "frac")))
    return {"profiles": [spec], "ops": ops}


def execute(workload, ctx):
    from abcvoting import output as out

    out.output.set_verbosity(out.DETAILS)
    buffer = io.StringIO()
    real_stdout, sys.stdout = sys.stdout, buffer

    def after(number, op, profiles):
        text = buffer.getvalue()
        buffer.seek(0)
        buffer.truncate()
        if op["op"] != "check" or op["prop"] not in witness.PATTERNS:
            return
        p = profiles[op["p"] % len(profiles)]
        try:
            session.legal_check(p, op)
        except Discard:
            return
        model = p.model()
        quota = op.get("quota")
        if axioms.holds(op["prop"], model, op["com"], None if quota is None else num(quota)):
            return
        w = witness.parse(op["prop"], text, p.names)
        if w is None:
            ctx.count("witness_not_understood")
            return
        wrong = witness.verify(op["prop"], model, op["com"], quota, w)
        if wrong:
            raise Violation("bad-witness", f"{session.describe_check(p, op)}: {wrong}: {w}; printed: {' '.join(text.split())}")
        ctx.count(f"witness_{op['prop']}")
        ctx.log("witness", sorted((k, str(v)) for k, v in w.items()))
        ctx.state(op["prop"], op["alg"], len(w.get("group", ())), len(w.get("cands", ())),
                  w.get("ell"), p.m, len(p.voters), quota is None)  # fmt: skip

    try:
        history.run(workload, ctx, after=after)
    finally:
        sys.stdout = real_stdout
        out.output.set_verbosity()
