"""Requests outside the documented domain are refused, never answered, and leave nothing behind."""

from fractions import Fraction

from sim import env, gen, history, session
from sim.core import Discard, Violation, num
from sim.oracle import axioms
from sim.props import common
from sim.session import voters_str

CASES = {"quick": 9000, "thorough": 120000}
LEVEL = "exploration"
CASE_LIMIT = 60.0
RULE = (
    "a case is a seeded history of 2-9 requests outside the documented domain (committee sizes, empty "
    "profiles, algorithms, resolute values, bounds on the number of committees, ballots weighted where "
    "unit weights are required, unknown rules, score functions, completions and properties, "
    "committees that do not exist, quotas where there is none), mixed with legal calls, ballot and "
    "weight edits, conversions and calls cut off by an exception, so that what is illegal depends on "
    "what happened before; every request has to be refused with an error and leave the profile as it "
    "was; legal calls have to be answered correctly; non-trivial: at least one request was refused"
)
STATES = "distinct (kind of request, rule or property, algorithm, way of calling) refused"
REAL = common.LIB + ["abcvoting.properties"]
STUB = common.SOLVER_STUBS
ASSUMPTIONS = common.SOLVER_ASSUMPTIONS + ["what is outside the domain is what the documentation excludes"]
RULES = tuple(r for r in session.RULES if r not in ("leximaxphragmen", "maximin-support", "rsd"))
UNIT = tuple(r for r in session.RULES if session.RULES[r][2])
SINGLE = tuple(r for r in session.RULES if len(session.RULES[r][1]) == 1)
ALGS = tuple(sorted({a for algs, _, _ in session.RULES.values() for a in algs})) + ("", "foo", "mip-foo", "Standard")
NAMES = ("", "foo", "PAV", "seqsav", "revseqmonroe", "pav ", "geom", "geomx", "seqgeomx", "monroe2", "rule_x")
SCOREFCTS = ("", "foo", "PAV", "geom", "geomx", "monroe", "revpav", "sav")
KINDS = ("size", "size", "empty", "alg", "resolute", "max", "max-resolute", "weights", "weights", "weights", "lex",
         "name", "scorefct", "completion", "cp-weights", "check-name", "check-alg", "check-quota", "check-com",
         "check-com", "unknown-separable")  # fmt: skip
REFUSALS = (ValueError, TypeError, NotImplementedError, ImportError)
WITH_ALGS = tuple(a for a in axioms.AXIOMS if axioms.ALGS[a] != (None,))


def setup():
    env.install_fakes()


def request(rng, specs):
    """one request outside the domain"""
    kind = rng.choice(KINDS)
    p = rng.randrange(len(specs))
    m = specs[p]["m"]
    if not specs[p]["voters"] and (kind.startswith("check") or rng.random() < 0.7):
        kind = "empty"
    op = {"op": "refuse", "p": p, "kind": kind, "via": rng.choice(("compute", "rule", "direct", "thiele"))}
    if kind.startswith("check"):
        op["call"] = session.random_check(rng, [specs[p]], full=0.0)
        if kind == "check-name":
            op["call"]["prop"] = rng.choice(("", "foo", "JR", "ejr ", "Core"))
        elif kind == "check-alg":
            op["call"].update(prop=rng.choice(WITH_ALGS), quota=None, alg=rng.choice(ALGS), fastest=False)
        elif kind == "check-quota":
            op["call"].update(prop=rng.choice(("pareto", "priceability", "stable-priceability")), alg=None,
                              quota=rng.choice((1, 2, "1/2")))  # fmt: skip
        else:
            com = op["call"]["com"]
            what = rng.random()
            if what < 0.4:
                com = com + [m + rng.choice((0, 0, 1, 5))]
            elif what < 0.6:
                com = com[1:] + [rng.choice((-1, -1, -m))]
            elif what < 0.8:
                com = com + [rng.choice(com)]
            else:
                com = com[1:] + [rng.choice(("a", "0", 0.5, None))]
            op["call"]["com"] = com
            if len(set(map(str, com))) != len(com):
                op["call"]["form"] = rng.choice(("list", "tuple"))
        return op
    rules = UNIT if kind == "weights" else SINGLE if kind == "resolute" else RULES
    op["call"] = call = session.random_compute(rng, [specs[p]], rules)
    call["via"] = op["via"]
    call.pop("bare", None)
    call.pop("expect", None)
    if kind == "size":
        call["k"] = rng.choice((0, -1, -m, m + 1, m + 1, m + 4, 10 * m + 7))
    elif kind == "alg":
        call["alg"] = rng.choice(ALGS)
    elif kind == "resolute":
        call.update(resolute=not call["resolute"], max=None)
    elif kind == "max":
        call.update(resolute=False, max=rng.choice((0, -1, -5, 1.5, "2")))
    elif kind == "max-resolute":
        call.update(resolute=True, max=rng.randint(1, 4))
    elif kind == "lex":
        call.update(rule="leximaxphragmen", alg="gurobi", resolute=False, lex=True)
    elif kind == "name":
        op["name"] = rng.choice(NAMES)
    elif kind == "scorefct":
        op["name"] = rng.choice(SCOREFCTS)
    elif kind == "completion":
        call.update(rule="equal-shares", alg=rng.choice(session.FRACTION_ALGS), resolute=True, max=None)
        op["name"] = rng.choice(("foo", "AV", "seqPhragmen", "phragmen"))
    elif kind == "cp-weights":
        call.update(rule="cc", alg="ortools-cp")
    return op


def generate(rng, tier, index):
    weights = rng.choice((("unit",), ("unit", "int", "frac"), common.ALL_WEIGHTS))
    specs = [gen.election(rng, max_m=5, max_n=5, weights=weights) for _ in range(rng.choice((1, 1, 1, 2)))]
    if rng.random() < 0.12:
        specs[0] = {"m": rng.randint(1, 5), "voters": [], "names": None}
    initial, ops = list(specs), []
    for _ in range(rng.randint(2, 9)):
        what = rng.random()
        if what < 0.65:
            ops.append(request(rng, specs))
        elif what < 0.8:
            if rng.random() < 0.7 or not specs[0]["voters"]:
                ops.append(session.random_compute(rng, specs, RULES))
            else:
                ops.append(session.random_check(rng, specs))
        else:
            edit = session.random_edit(rng, specs, ("int", "frac") if rng.random() < 0.6 else ("unit",))
            ops.append(edit)
            if edit["op"] == "copy":
                specs.append(dict(specs[edit["p"]]))
    ops.append(request(rng, specs))
    if rng.random() < 0.2:
        history.interrupts(rng, [op for op in ops if op["op"] != "refuse"], 0.5)
    return {"profiles": initial, "ops": ops}


def illegal(p, op):
    """Is the request really outside the domain (on the ballots the history has led to)? The other
    parameters have to be inside it."""
    kind, call = op["kind"], dict(op["call"])
    if kind.startswith("check"):
        if kind == "check-alg":
            return bool(p.voters) and call["alg"] not in axioms.ALGS[call["prop"]] and legal_committee(p, call["com"])
        if kind == "check-com":
            return bool(p.voters) and call["prop"] in axioms.AXIOMS and not legal_committee(p, call["com"])
        if kind == "check-quota":
            return call["prop"] in ("pareto", "priceability", "stable-priceability") and call["quota"] is not None \
                and call.get("via") != "direct"  # fmt: skip
        return call["prop"] not in axioms.AXIOMS + ("full",) and call.get("via") != "direct"
    algs, resolutes, unit_only = session.RULES[call["rule"]]
    k = call["k"]
    if kind == "empty":
        return not p.voters
    if not p.voters:
        return False
    if kind == "size":
        return not (isinstance(k, int) and 1 <= k <= p.m)
    if not 1 <= k <= p.m:
        return False
    if kind == "alg":
        return call["alg"] not in algs
    if kind == "resolute":
        return call["resolute"] not in resolutes
    if kind == "max":
        bound = call["max"]
        return bound is not None and not (isinstance(bound, int) and bound >= 1)
    if kind == "max-resolute":
        return call["resolute"] is True and call["max"] is not None
    if kind == "weights":
        return unit_only and not p.unit()
    if kind == "lex":
        return call["rule"] == "leximaxphragmen" and call.get("lex") and not call["resolute"]
    if kind == "name":
        return op["name"] in NAMES
    if kind in ("scorefct", "unknown-separable"):
        return kind == "unknown-separable" or op["name"] in SCOREFCTS
    if kind == "completion":
        return call["rule"] == "equal-shares" and op["name"] and op["name"] not in ("av", "increment", "seqphragmen")
    if kind == "cp-weights":
        return call["rule"] == "cc" and call["alg"] == "ortools-cp" and any(Fraction(w).denominator != 1 for _, w in p.voters)
    return False


def legal_committee(p, com):
    return bool(com) and all(isinstance(c, int) and 0 <= c < p.m for c in com) and len(set(com)) == len(com)


def submit(p, op):
    """make the request; returns the answer, if there is one"""
    from abcvoting import abcrules

    kind, call = op["kind"], op["call"]
    if kind.startswith("check"):
        return session.call_check(p.real, call)
    kwargs = {"algorithm": call["alg"], "resolute": call["resolute"]}
    if kind == "name":
        if op["via"] == "rule":
            return abcrules.Rule(op["name"]).compute(p.real, call["k"])
        return abcrules.compute(op["name"], p.real, call["k"], **({} if op["via"] == "direct" else kwargs))
    if kind == "scorefct":
        use = {"rule": abcrules.compute_seq_thiele_method, "direct": abcrules.compute_revseq_thiele_method}
        return use.get(op["via"], abcrules.compute_thiele_method)(op["name"], p.real, call["k"])
    if kind == "unknown-separable":
        return abcrules.compute_separable_rule("pav" if op["via"] == "rule" else "foo", p.real, call["k"])
    if kind == "completion":
        return abcrules.compute_equal_shares(p.real, call["k"], completion=op["name"], **kwargs)
    return session.call_rule(p.real, call)


def refuse_op(p, op, ctx, world=None, interrupt=None, tag=""):
    if not illegal(p, op):
        raise Discard("inside the domain")
    world.begin_op(5000)
    call = op["call"]
    what = f"{op['kind']} {op.get('name', '')} {call} on {voters_str(p)} with {p.m} candidates{tag}"
    try:
        answer = submit(p, op)
    except REFUSALS as e:
        ctx.log("refused", op["kind"], type(e).__name__)
        ctx.count("refused")
        ctx.count("refused_" + op["kind"])
        ctx.state(op["kind"], call.get("rule") or call.get("prop"), call.get("alg"), call.get("via"))
        return "ok"
    except MemoryError:
        raise
    except Exception as e:
        from sim.engine import blame

        if blame(e) != "library":
            raise
        raise Violation("crash-on-illegal-request", f"{what}: {type(e).__name__}: {str(e)[:200]}") from e
    raise Violation("answered", f"{what}: answered {str(answer)[:300]}")


def execute(workload, ctx):
    ctx.nontrivial = False
    history.CALLS["refuse"] = refuse_op
    history.run(workload, ctx)
    ctx.nontrivial = ctx.counters.get("refused", 0) > 0
