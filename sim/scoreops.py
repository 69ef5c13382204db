"""Calls of score functions and election helpers, and their definitions."""

import itertools
from collections import Counter
from fractions import Fraction
from math import comb

from sim import session
from sim.core import Discard, Violation
from sim.oracle import rules as oracle

FCTS = ("pav", "slav", "cc", "av", "geom2", "geom3", "geom1.5", "geom10", "geom5/2", "atleast1",
        "atleast2", "atleast3", "atleast4")  # fmt: skip
KINDS = ("thiele", "thiele", "thiele", "add", "add", "remove", "remove", "cumulative", "monroe", "monroe",
         "monroe-matching", "monroe-flow", "minimaxav", "within", "dominate", "dominate", "hamming",
         "powerset", "binom", "sort", "compare", "verify", "text", "text")  # fmt: skip
FORMS = ("list", "set", "tuple", "frozenset", "reversed", "CandidateSet")


def random_score(rng, specs, kinds=KINDS):
    p = rng.randrange(len(specs))
    spec = specs[p]
    m, n = spec["m"], len(spec["voters"])
    kind = rng.choice(kinds)

    def subset(low=0, high=m):
        return rng.sample(range(m), rng.randint(min(low, m), min(high, m)))

    op = {"op": "score", "p": p, "kind": kind, "fct": rng.choice(FCTS), "com": subset(1), "form": rng.choice(FORMS)}
    if kind in ("add", "remove"):
        op["com"] = subset(0 if kind == "add" else 1)
    elif kind.startswith("monroe"):
        sizes = [k for k in range(1, m + 1) if n % k == 0 or kind != "monroe-matching"]
        popular = sorted({c for v in spec["voters"] for c in v["a"]})
        k = rng.choice(sizes[:2] if rng.random() < 0.4 else sizes)
        pool = popular if len(popular) >= k and rng.random() < 0.6 else range(m)
        op["com"] = rng.sample(pool, k)
    elif kind == "cumulative":
        op["x"] = rng.randint(0, 12)
    elif kind == "within":
        op["x"] = rng.randint(0, m + 1)
    elif kind in ("dominate", "hamming"):
        other = subset()
        if rng.random() < 0.5:  # similar committees
            other = list(op["com"])
            gone = [c for c in range(m) if c not in other]
            if other and rng.random() < 0.7:
                other.remove(rng.choice(other))
            if gone and rng.random() < 0.7:
                other.append(rng.choice(gone))
        op["other"] = other
        if rng.random() < 0.5:
            op["com"], op["other"] = op["other"], op["com"]
    elif kind == "powerset":
        op["com"] = subset(0, 6)
        op["x"] = rng.choice((None, None, 0, 1, 2, 3, 9))
    elif kind == "binom":
        op["x"], op["y"] = rng.randint(0, 60), rng.randint(0, 60)
    elif kind in ("sort", "compare", "verify", "text"):
        size = rng.randint(0, min(m, 4))
        pool = [subset() if rng.random() < 0.2 else rng.sample(range(m), size) for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.04:  # long lists
            pool = [rng.sample(range(m), size) for _ in range(int(10 ** rng.uniform(0.8, 2.2)))]
        op["list"] = pool
        if kind in ("compare", "verify"):
            other = [list(c) for c in pool]
            rng.shuffle(other)
            if other and rng.random() < 0.3:
                other.append(list(reversed(other[0])))
            if other and rng.random() < 0.4:
                other[0] = subset() if rng.random() < 0.5 else other[0][1:]
            op["list2"] = other
            op["resolute"] = rng.random() < 0.4
        op["names"] = rng.choice((None, None, "profile", "str", "same"))
        op["winning"] = rng.random() < 0.5
    return op


def shaped(form, cands):
    from abcvoting.misc import CandidateSet

    return {"list": list, "set": set, "tuple": tuple, "frozenset": frozenset, "CandidateSet": CandidateSet,
            "reversed": lambda x: list(reversed(x))}[form](cands)  # fmt: skip


def legal(p, op):
    m, kind = p.m, op["kind"]
    lists = [op["com"], op.get("other", [])] + op.get("list", []) + op.get("list2", [])
    for com in lists:
        if len(set(com)) != len(com) or any(not 0 <= c < m for c in com):
            raise Discard("illegal committee")
    if kind in ("thiele", "monroe", "monroe-matching", "monroe-flow", "minimaxav", "within", "remove") and not op["com"]:
        raise Discard("empty committee")
    if kind.startswith("monroe") and (not p.unit() or not p.voters):
        raise Discard("Monroe scores are for unit weights")
    if kind == "monroe-matching" and len(p.voters) % len(op["com"]):
        raise Discard("does not divide")
    if op["fct"] not in FCTS:
        raise Discard("unknown score function")
    for key in ("x", "y"):
        if op.get(key) is not None and op[key] < 0:
            raise Discard("negative")


def names_of(p, op):
    how = op.get("names")
    if how is None:
        return None
    if how == "str":
        return "abcdefghijklmnopqrstuvwxyz"[: p.m]
    if how == "same":
        return ["x"] * p.m
    return list(p.names)


def call(real, p, op):
    from abcvoting import misc, scores
    from abcvoting.misc import CandidateSet

    kind, com = op["kind"], shaped(op["form"], op["com"])
    if kind == "thiele":
        return scores.thiele_score(op["fct"], real, com)
    if kind in ("add", "remove", "cumulative"):
        fct = scores.get_marginal_scorefct(op["fct"], max(1, len(op["com"])))
        if kind == "cumulative":
            return scores.cumulative_score(fct, op["x"])
        use = scores.marginal_thiele_scores_add if kind == "add" else scores.marginal_thiele_scores_remove
        result = use(fct, real, com)
        values = list(result)
        if isinstance(result, list):  # what the caller does with the list is his business
            for i in range(len(result)):
                result[i] = None
        return values
    if kind == "monroe":
        return scores.monroescore(real, com)
    if kind == "monroe-matching":
        return scores.monroescore_matching(real, com)
    if kind == "monroe-flow":
        return scores.monroescore_flowbased(real, com)
    if kind == "minimaxav":
        return scores.minimaxav_score(real, com)
    if kind == "within":
        return scores.num_voters_with_upper_bounded_hamming_distance(op["x"], real, com)
    if kind == "dominate":
        return misc.dominate(real, com, shaped(op["form"], op["other"]))
    if kind == "hamming":
        return misc.hamming(com, shaped(op["form"], op["other"]))
    if kind == "powerset":
        return [tuple(s) for s in misc.powerset(com, op["x"])]
    if kind == "binom":
        return misc.binom(op["x"], op["y"])
    if kind == "sort":
        first = misc.sorted_committees([shaped(op["form"], c) for c in op["list"]])
        second = misc.sorted_committees([list(reversed(c)) for c in reversed(op["list"])])
        return [(sorted(c), isinstance(c, CandidateSet)) for c in first], [sorted(c) for c in second]
    if kind == "compare":
        return misc.compare_list_of_committees([CandidateSet(c) for c in op["list"]], [CandidateSet(c) for c in op["list2"]])
    if kind == "verify":
        try:
            misc.verify_expected_committees_equals_actual_committees(
                [CandidateSet(c) for c in op["list"]], [CandidateSet(c) for c in op["list2"]], op["resolute"]
            )
        except (ValueError, RuntimeError) as e:
            if "simulated" in str(e):
                raise
            return False
        return True
    names = names_of(p, op)
    coms = [shaped(op["form"], c) for c in op["list"]]
    return (
        misc.str_set_of_candidates(com, names),
        misc.str_sets_of_candidates(coms, names),
        misc.str_committees_with_header(coms, names, winning=op["winning"]),
    )


def exact(x):
    return Fraction(str(x)) if not isinstance(x, (int, Fraction)) else Fraction(x)


def judge(p, op, result, tag=""):
    model, kind, com = p.model(), op["kind"], frozenset(op["com"])
    k = len(com)

    def wrong(got, want):
        args = {key: op[key] for key in op if key not in ("op", "p", "int", "via")}
        raise Violation("wrong-value", f"{args} on {session.voters_str(p)} with {p.m} candidates{tag}: {got!r}, correct: {want!r}")

    def same(got, want):
        if exact(got) != want:
            wrong(got, want)

    if kind == "thiele":
        same(result, oracle.thiele_score(op["fct"], model, com))
    elif kind == "cumulative":
        f = oracle.thiele_weight(op["fct"])
        same(result, sum(f(i) for i in range(1, op["x"] + 1)))
    elif kind in ("add", "remove"):
        f = oracle.thiele_weight(op["fct"])
        if len(result) != p.m:
            wrong(result, f"{p.m} values")
        for c in range(p.m):
            if kind == "add" and c not in com:
                want = sum((w * f(len(a & com) + 1) for a, w in model.voters if c in a), Fraction(0))
                if exact(result[c]) != want:
                    wrong((c, result[c]), want)
            if kind == "remove" and c in com:
                want = sum((w * f(len(a & com)) for a, w in model.voters if c in a), Fraction(0))
                if exact(result[c]) != want:
                    wrong((c, result[c]), want)
        inside = [exact(result[c]) for c in com]
        outside = [exact(result[c]) for c in range(p.m) if c not in com]
        if kind == "remove" and inside and outside and min(outside) <= max(inside):
            wrong(result, "larger values for candidates outside the committee")
        if kind == "add" and inside and max(inside) >= 0:
            wrong(result, "negative values for members of the committee")
    elif kind.startswith("monroe"):
        same(result, oracle.monroe_score(model, com))
    elif kind == "minimaxav":
        same(result, max([len(a ^ com) for a, _ in model.voters], default=0))
    elif kind == "within":
        same(result, sum(1 for a, _ in model.voters if len(a ^ com) <= op["x"]))
    elif kind == "dominate":
        pairs = [(len(a & com), len(a & frozenset(op["other"]))) for a, _ in model.voters]
        want = all(x >= y for x, y in pairs) and any(x > y for x, y in pairs)
        if result is not want:
            wrong(result, want)
    elif kind == "hamming":
        same(result, len(com ^ frozenset(op["other"])))
    elif kind == "powerset":
        top = k if op["x"] is None else min(k, op["x"])
        want = [frozenset(s) for r in range(top + 1) for s in itertools.combinations(sorted(com), r)]
        if Counter(frozenset(s) for s in result) != Counter(want) or any(len(set(s)) != len(s) for s in result):
            wrong(result, want)
    elif kind == "binom":
        same(result, comb(op["x"], op["y"]))
    elif kind == "sort":
        first, second = result
        if Counter(map(tuple, second)) != Counter(tuple(sorted(c)) for c in op["list"]):
            wrong(second, "the same committees")
        if [c for c, _ in first] != second or not all(ok for _, ok in first):
            wrong(first, f"the order of {second}, as candidate sets")
    elif kind in ("compare", "verify"):
        a, b = ({frozenset(c) for c in op[key]} for key in ("list", "list2"))
        want = a == b
        if kind == "verify" and op["resolute"]:
            want = len(op["list"]) == 1 and a <= b
        if result is not want:
            wrong(result, want)
    elif kind == "text":
        text(p, op, result, wrong)


def text(p, op, result, wrong):
    names = names_of(p, op) or [str(c) for c in range(p.m)]

    def parse(line):
        line = line.strip()
        if line[:1] != "{" or line[-1:] != "}":
            wrong(line, "a set in braces")
        return Counter(line[1:-1].split(", ") if line != "{}" else [])

    one, many, headed = result
    if parse(one) != Counter(names[c] for c in op["com"]):
        wrong(one, sorted(names[c] for c in op["com"]))
    want = [Counter(names[c] for c in com) for com in op["list"]]
    if op["list"]:
        got = [parse(line) for line in many.rstrip("\n").split("\n")]
        if got != want:
            wrong(many, want)
        first, *rest = headed.rstrip("\n").split("\n")
        number = len(op["list"])
        if first != f"{number} {'winning ' if op['winning'] else ''}committee{'s' if number > 1 else ''}:":
            wrong(first, f"a header for {number} committees")
        if [parse(line) for line in rest] != want:
            wrong(headed, want)
    elif any(ch.isdigit() or ch == "{" for ch in headed):
        wrong(headed, "no committees")


def score_op(p, op, ctx, world=None, interrupt=None, tag=""):
    """One call, judged. Returns 'ok' or 'interrupted'."""
    legal(p, op)
    if world is not None:
        world.begin_op(40)
    status, result = session.guarded(
        "score-" + op["kind"], lambda: f"{op}{tag}", lambda: call(p.real, p, op), ctx, world, interrupt
    )
    if status != "ok":
        return status
    judge(p, op, result, tag)
    ctx.log("score", op["kind"], op["fct"], sorted(op["com"]), repr(result)[:300])
    ctx.count("score_calls")
    ctx.count(f"score_{op['kind']}")
    ctx.state(op["kind"], op["fct"] if op["kind"] in ("thiele", "add", "remove") else None, op["form"],
              p.m, len(p.voters), len(op["com"]), p.unit())  # fmt: skip
    return "ok"
