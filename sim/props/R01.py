"""Random serial dictator under a controlled random source, compared with all voter orders."""

import math
import random
from fractions import Fraction

from sim import env, gen, session
from sim.core import Discard, Violation
from sim.oracle import rules as oracle
from sim.props import common

CASES = {"quick": 8000, "thorough": 90000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULE = (
    "a case is a seeded history of random-serial-dictator calls, each under its own seed of the random "
    "module, with ballot edits, conversions, other rules, foreign random draws and calls cut off at a "
    "chosen library line in between; every outcome must arise from some voter order, is repeated under "
    "the same seed, and for small profiles all outcomes must be reached (number of draws chosen so that "
    "a fair implementation misses one with probability < 1e-12); non-trivial: a result was judged"
)
STATES = "distinct (committee size, profile size, #possible outcomes, entry point, kind of judgement)"
REAL = common.LIB
STUB = ["solver packages (not used by this rule)"]
ASSUMPTIONS = ["reference model in sim/oracle/rules.py (all voter orders)",
               "Python's random module is the rule's documented random source"]  # fmt: skip
OTHERS = ("av", "seqpav", "greedy-monroe", "equal-shares", "trivial", "seqphragmen")
MAX_DRAWS = 6000


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    small = rng.random() < 0.6
    max_m, max_n = (5, 4) if small else (7, 6)
    specs = [gen.election(rng, max_m=max_m, max_n=max_n, min_m=1, weights=("unit",))]
    if rng.random() < 0.2:
        specs.append(gen.election(rng, max_m=max_m, max_n=max_n, min_m=1, weights=("unit",)))
    if rng.random() < 0.12:  # two-digit indices
        specs = [gen.wide(rng, max_n=5) for _ in range(rng.choice((1, 2)))]
        for spec in specs:
            for v in spec["voters"][5:]:
                spec["voters"].remove(v)
            for v in spec["voters"]:
                v["a"] = sorted(rng.sample(range(spec["m"]), rng.randint(1, 6)))
                rng.shuffle(v["a"])
    ops, start = [], list(specs)
    for _ in range(rng.choice((2, 3, 4, 6))):
        kind = rng.choice(("rsd", "rsd", "rsd", "reach", "edit", "other", "foreign"))
        i = rng.randrange(len(specs))
        k = rng.randint(1, 6 if specs[i].get("wide") else specs[i]["m"])
        if kind in ("rsd", "reach"):
            ops.append({"op": kind, "p": i, "k": k, "seed": rng.randrange(1 << 30),
                        "alg": rng.choice(("standard", "standard", "fastest")),
                        "via": rng.choice(("compute", "rule", "direct"))})  # fmt: skip
            if rng.random() < 0.2 and kind == "rsd":
                ops[-1]["int"] = session.random_cut(rng, ("kbd", "mem", "sys"), 2.2)
        elif kind == "edit":
            edit = session.random_edit(rng, specs, ("unit",))
            ops.append(edit)
            if edit["op"] == "copy":
                specs.append(dict(specs[edit["p"]]))
        elif kind == "other":
            op = session.random_compute(rng, specs, OTHERS)
            ops.append(op)
        else:
            ops.append({"op": "foreign", "p": i, "n": rng.randint(1, 9)})
    ops.append({"op": rng.choice(("rsd", "reach")), "p": 0, "k": rng.randint(1, specs[0]["m"]),
                "seed": rng.randrange(1 << 30), "alg": "standard", "via": "compute"})  # fmt: skip
    return {"profiles": start, "ops": ops}


def chances(model, k):
    """probability of every outcome under a uniformly random order and uniformly random filling"""
    ballots = {}
    for a, _ in model.voters:
        ballots[frozenset(a)] = ballots.get(frozenset(a), 0) + 1
    kinds = sorted(ballots, key=sorted)
    state = {(frozenset(), tuple(ballots[b] for b in kinds)): Fraction(1)}
    out = {}
    while state:
        nxt = {}
        for (com, left), prob in state.items():
            total = sum(left)
            if len(com) == k:
                out[com] = out.get(com, 0) + prob
                continue
            if total == 0:
                rest = [c for c in range(model.m) if c not in com]
                share = prob / math.comb(len(rest), k - len(com))
                for extra in oracle.itertools.combinations(rest, k - len(com)):
                    full = com | frozenset(extra)
                    out[full] = out.get(full, 0) + share
                continue
            for i, number in enumerate(left):
                if number:
                    new = set(com)
                    for c in sorted(kinds[i]):
                        if len(new) < k:
                            new.add(c)
                    key = (frozenset(new), left[:i] + (number - 1,) + left[i + 1 :])
                    nxt[key] = nxt.get(key, 0) + prob * number / total
        state = nxt
        if len(state) > 3000:
            raise Discard("too many orders")
    return out


def call(p, op, seed):
    random.seed(seed)
    op = {**op, "rule": "rsd", "resolute": True}
    result = session.call_rule(p.real, op)
    if not isinstance(result, list) or len(result) != 1 or not isinstance(result[0], (set, frozenset)):
        raise Violation("shape", f"rsd returned {result!r}")
    return frozenset(int(c) for c in result[0])


def execute(workload, ctx):
    profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
    if not profiles:
        raise Discard("no profile")
    judged = 0
    for number, op in enumerate(workload["ops"]):
        p = profiles[op["p"] % len(profiles)]
        try:
            if op["op"] in ("rsd", "reach"):
                judged += rsd_op(p, op, number, ctx)
            elif op["op"] == "compute":
                state = random.getstate()
                session.compute_op(p, op, ctx, tag=f" [step {number}]")
                random.setstate(state)
            elif op["op"] == "foreign":
                for _ in range(op["n"]):
                    random.random()
            else:
                session.edit_op(profiles, op, ctx)
        except Discard:
            ctx.count("skipped_ops")
            continue
        for i, q in enumerate(profiles):
            q.verify(f"after step {number} ({op['op']}), profile {i}")
    if not judged:
        raise Discard("nothing judged")
    ctx.nontrivial = True


def rsd_op(p, op, number, ctx):
    if not p.voters or not p.unit() or not 1 <= op["k"] <= p.m:
        raise Discard("illegal")
    where = f"step {number}: rsd k={op['k']} on {session.voters_str(p)} with {p.m} candidates"
    model = p.model()
    seed, k = op["seed"], op["k"]
    if op["op"] == "reach":
        chance = chances(model, k)
        low = min(chance.values())
        draws = 1
        if low < 1:
            draws = math.ceil(math.log(1e-12 / len(chance)) / math.log(1 - float(low)))
        if draws > MAX_DRAWS:
            raise Discard("too many draws needed")
        missing = set(chance)
        for i in range(draws):
            com = call(p, op, seed + i)
            if com not in chance:
                raise Violation("not-an-outcome", f"{where}: {sorted(com)} under seed {seed + i} arises from no order of the voters")
            missing.discard(com)
            if not missing:
                break
        if missing:
            raise Violation("unreached", f"{where}: outcomes {sorted(map(sorted, missing))[:5]} were never returned in {draws} "
                            f"draws (least probability {float(low):.3g})")  # fmt: skip
        ctx.count("outcomes_reached", len(chance))
        ctx.count("draws", i + 1)
        ctx.log("reach", k, p.m, len(p.voters), len(chance), i)
        ctx.state("reach", k, p.m, len(p.voters), len(chance), op["via"])
        return 1
    expected = oracle.winners("rsd", model, k)

    def describe():
        return where

    status, com = session.guarded("rsd", describe, lambda: call(p, op, seed), ctx, None, op.get("int"))
    p.verify(f"after {status} call in step {number}")
    if status != "ok":
        com = call(p, op, seed)
        ctx.count("retries_after_failure")
    if com not in expected:
        raise Violation("not-an-outcome", f"{where}: {sorted(com)} under seed {seed} arises from no order of the voters")
    again = call(p, {**op, "via": "compute", "alg": "standard"}, seed)
    if again != com:
        raise Violation("not-reproducible", f"{where}: {sorted(com)} and then {sorted(again)} under seed {seed}")
    copied = call_copy(p, k, seed)
    if copied != com:
        raise Violation("not-reproducible", f"{where}: {sorted(com)}, but {sorted(copied)} for an equal profile under seed {seed}")
    ctx.count("rule_calls", 3)
    ctx.log("rsd", k, sorted(com), status)
    ctx.state("rsd", k, p.m, len(p.voters), len(expected), op["via"], op["alg"])
    return 1


def call_copy(p, k, seed):
    """the same profile built afresh"""
    from abcvoting.preferences import Profile

    fresh = Profile(p.m)
    for a, _ in p.voters:
        fresh.add_voter(sorted(a, reverse=True))
    random.seed(seed)
    import abcvoting.abcrules as abcrules

    return frozenset(int(c) for c in abcrules.compute("rsd", fresh, k)[0])
