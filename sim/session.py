"""Histories of library calls run against the real code and a plain-data model at the same time."""

import sys
from fractions import Fraction
from itertools import combinations

from sim.core import Discard, SimBudget, SimUnsupported, Violation, num
from sim.oracle import axioms
from sim.oracle import rules as oracle
from sim.shield import shielded
from sim.solver import lin

FRACTION_ALGS = ("float-fractions", "gmpy2-fractions", "standard-fractions")
PLAIN_ALGS = ("standard", "brute-force", "branch-and-bound") + FRACTION_ALGS  # no solver
REPORT_SAV = [False]  # H01 alone reports the known finding about SAV, see known_findings.json
THIELE_ALGS = ("gurobi", "mip-gurobi", "mip-cbc", "branch-and-bound", "brute-force")

# rule -> (algorithms, resolute values, needs unit weights)
RULES = {
    "av": (("standard",), (False, True), False),
    "sav": (("standard",), (False, True), False),
    "pav": (THIELE_ALGS, (False, True), False),
    "slav": (THIELE_ALGS, (False, True), False),
    "cc": (THIELE_ALGS + ("ortools-cp",), (False, True), False),
    "lexcc": (("gurobi", "brute-force"), (False, True), False),
    "geom2": (THIELE_ALGS, (False, True), False),
    "geom3": (THIELE_ALGS, (False, True), False),
    "geom1.5": (THIELE_ALGS, (False, True), False),
    "geom10": (THIELE_ALGS, (False, True), False),
    "seqpav": (("standard",), (True, False), False),
    "seqslav": (("standard",), (True, False), False),
    "seqcc": (("standard",), (True, False), False),
    "seqgeom2": (("standard",), (True, False), False),
    "seqgeom1.5": (("standard",), (True, False), False),
    "revseqpav": (("standard",), (True, False), False),
    "revseqslav": (("standard",), (True, False), False),
    "revseqcc": (("standard",), (True, False), False),
    "revseqgeom3": (("standard",), (True, False), False),
    "seqphragmen": (FRACTION_ALGS, (True, False), False),
    "minimaxphragmen": (("gurobi", "mip-gurobi", "mip-cbc"), (False, True), False),
    "leximaxphragmen": (("gurobi",), (False, True), False),
    "maximin-support": (("gurobi", "mip-gurobi", "mip-cbc"), (True, False), False),
    "monroe": (("gurobi", "mip-gurobi", "mip-cbc", "ortools-cp", "brute-force"), (False, True), True),
    "greedy-monroe": (("standard",), (True,), True),
    "minimaxav": (("gurobi", "mip-gurobi", "ortools-cp", "mip-cbc", "brute-force"), (False, True), False),
    "lexminimaxav": (("gurobi", "brute-force"), (False, True), True),
    "equal-shares": (FRACTION_ALGS, (True, False), False),
    "equal-shares-with-av-completion": (FRACTION_ALGS, (True, False), False),
    "equal-shares-with-increment-completion": (FRACTION_ALGS, (True,), False),
    "equal-shares-without-completion": (FRACTION_ALGS, (True, False), False),
    "phragmen-enestroem": (FRACTION_ALGS, (True, False), False),
    "consensus-rule": (FRACTION_ALGS, (True, False), False),
    "trivial": (("standard",), (False, True), False),
    "rsd": (("standard",), (True,), True),
    "eph": (FRACTION_ALGS, (False, True), False),
}

SIZE_MAY_BE_SMALLER = ("equal-shares-without-completion",)

ALIASES = {
    "equal-shares": ("rule-x", "equal-shares-with-seqphragmen-completion"),
    "equal-shares-without-completion": (
        "rule-x-without-phragmen-phase", "equal-shares-without-phragmen-phase"),
}  # fmt: skip
COMPLETIONS = {
    "equal-shares-with-av-completion": "av", "equal-shares-with-increment-completion": "increment",
}  # fmt: skip

# every way to call a rule that should mean the same
DIRECT = {
    "av": "compute_av", "sav": "compute_sav", "pav": "compute_pav", "slav": "compute_slav",
    "cc": "compute_cc", "lexcc": "compute_lexcc", "seqpav": "compute_seqpav",
    "seqslav": "compute_seqslav", "seqcc": "compute_seqcc", "revseqpav": "compute_revseqpav",
    "seqphragmen": "compute_seqphragmen", "minimaxphragmen": "compute_minimaxphragmen",
    "leximaxphragmen": "compute_leximaxphragmen", "maximin-support": "compute_maximin_support",
    "monroe": "compute_monroe", "greedy-monroe": "compute_greedy_monroe",
    "minimaxav": "compute_minimaxav", "lexminimaxav": "compute_lexminimaxav",
    "equal-shares": "compute_equal_shares", "phragmen-enestroem": "compute_phragmen_enestroem",
    "consensus-rule": "compute_consensus_rule", "trivial": "compute_trivial_rule",
    "rsd": "compute_rsd", "eph": "compute_eph",
}  # fmt: skip


class Interrupt(KeyboardInterrupt):
    """The injected interrupt (a Ctrl-C at an arbitrary line of library code)."""


class LineBomb:
    """Raises at the n-th line event executed in library code (later if that is clean-up code).

    With fresh=True only the first execution of each line counts, so that lines that run once are as
    likely to be hit as lines of hot loops."""

    def __init__(self, at, exc, prefix, fresh=False):
        self.at, self.exc, self.prefix = at, exc, prefix
        self.seen = set() if fresh else None
        self.count = 0
        self.fired = None

    def _local(self, frame, event, arg):
        if event == "line":
            if self.seen is not None:
                line = (frame.f_code, frame.f_lineno)
                if line in self.seen and self.count < self.at:
                    return self._local
                self.seen.add(line)
            self.count += 1
            if self.count >= self.at and not shielded(frame, self.prefix):
                self.fired = (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_code.co_name)
                sys.settrace(None)
                raise self.exc
        return self._local

    def _global(self, frame, event, arg):
        if self.fired is None and frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


class LineRecorder:
    """Records the lines at which LineBomb could end a call, in the order of their execution, and
    those at which lasting state differs from what it was before the call (suspects)."""

    def __init__(self, prefix, state):
        self.prefix, self.lines, self.count = prefix, {}, 0
        self.state, self.before, self.suspects = state, state(), []

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.state() != self.before:
                self.suspects.append(self.count)
            self.lines.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.count)
        return self._local

    def _global(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(self.prefix) else None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False

    def pick(self, u, v):
        """an execution of a line: every line that was executed is as likely as any other"""
        if not self.lines:
            return 1
        at = self.lines[sorted(self.lines)[min(int(u * len(self.lines)), len(self.lines) - 1)]]
        return at[min(int(v * len(at)), len(at) - 1)]


class SimProfile:
    """A live Profile plus the plain-data model of what it must contain."""

    def __init__(self, spec):
        from abcvoting.preferences import Profile, Voter

        self.m = int(spec["m"])
        if self.m < 1:
            raise Discard("no candidates")
        names = spec.get("names")
        if names is not None and len(names) < self.m:
            raise Discard("too few names")
        self.names = [str(x) for x in names[: self.m]] if names else [str(c) for c in range(self.m)]
        self.real = Profile(self.m, cand_names=names) if names else Profile(self.m)
        self.voters = []
        for v in spec["voters"]:
            self.check_ballot(v)
            self.real.add_voter(Voter(list(v["a"]), weight=num(v["w"])))
            self.voters.append([set(v["a"]), num(v["w"])])

    def check_ballot(self, v):
        if len(set(v["a"])) != len(v["a"]) or any(not 0 <= c < self.m for c in v["a"]):
            raise Discard("illegal ballot")
        if not num(v["w"]) > 0:
            raise Discard("illegal weight")

    def model(self):
        return oracle.Model(self.m, [(frozenset(a), w) for a, w in self.voters])

    def unit(self):
        return all(w == 1 for _, w in self.voters)

    def verify(self, where):
        """the observable state of the Profile equals the model"""
        real = self.real
        seen = [(set(v.approved), v.weight) for v in real]
        want = [(a, w) for a, w in self.voters]
        if seen != want:
            raise Violation("profile-changed", f"{where}: profile is {seen}, should be {want}")
        if len(real) != len(want) or real.num_cand != self.m:
            raise Violation("profile-changed", f"{where}: size is ({len(real)}, {real.num_cand})")
        if list(real.candidates) != list(range(self.m)) or list(real.cand_names) != self.names:
            raise Violation(
                "profile-changed",
                f"{where}: candidates {real.candidates} names {real.cand_names}, "
                f"should be {self.names}",
            )
        for i, (a, w) in enumerate(self.voters):
            if set(real[i].approved) != a or real[i].weight != w:
                raise Violation("profile-changed", f"{where}: voter {i}")


def voters_str(p):
    return "[" + ", ".join(
        f"{sorted(a)}" + (f"*{w}" if w != 1 else "") for a, w in p.voters
    ) + "]"  # fmt: skip


def legal_compute(p, op):
    """Discard calls outside the documented domain of the rule."""
    k, m = op["k"], p.m
    if not 1 <= k <= m or not p.voters:
        raise Discard("illegal committee size or empty profile")
    algs, resolutes, unit_only = RULES[op["rule"]]
    if unit_only and not p.unit():
        raise Discard("rule needs unit weights")
    if op["alg"] == "ortools-cp" and any(not isinstance(w, int) for _, w in p.voters):
        raise Discard("CP-SAT needs integer weights")
    if op["resolute"] and op.get("max") is not None:
        raise Discard("max_num_of_committees with resolute")
    if op.get("max") is not None and op["max"] < 1:
        raise Discard("max_num_of_committees < 1")
    if op["resolute"] not in resolutes:
        raise Discard("resolute value")
    if op.get("lex") and (op["rule"] != "leximaxphragmen" or not op["resolute"]):
        raise Discard("lexicographic_tiebreaking")


def call_rule(real, op):
    """Perform the call described by op on the real library."""
    import abcvoting.abcrules as abcrules
    from abcvoting.misc import CandidateSet

    kwargs = {"algorithm": op["alg"], "resolute": op["resolute"]}
    if op.get("max") is not None:
        kwargs["max_num_of_committees"] = op["max"]
    if op.get("lex"):
        kwargs["lexicographic_tiebreaking"] = True
    if op.get("result") is not None:
        kwargs["result"] = [CandidateSet(com) for com in op["result"]]
    rule, k = op["rule"], op["k"]
    via = op.get("via", "compute")
    if op.get("bare") and op["resolute"] == RULES[rule][1][0]:  # rely on the default value
        del kwargs["resolute"]
    if via == "rule":
        return abcrules.Rule(rule).compute(real, k, **kwargs)
    if via == "thiele" and rule in ("av", "sav"):
        kwargs["resolute"] = op["resolute"]
        return abcrules.compute_separable_rule(rule, real, k, **kwargs)
    if via == "thiele" and rule in ALIASES:
        return abcrules.compute(ALIASES[rule][k % 2], real, k, **kwargs)
    if via == "direct" and rule in COMPLETIONS:
        return abcrules.compute_equal_shares(real, k, completion=COMPLETIONS[rule], **kwargs)
    if via == "direct" and rule in ALIASES and k % 3 == 0:
        skip = rule == "equal-shares-without-completion"
        return abcrules.compute_rule_x(real, k, skip_phragmen_phase=skip, **kwargs)
    if via == "direct" and rule in DIRECT:
        return getattr(abcrules, DIRECT[rule])(real, k, **kwargs)
    if via == "thiele" and (rule in ("pav", "slav", "cc") or rule.startswith("geom")):
        return abcrules.compute_thiele_method(rule, real, k, **kwargs)
    if via == "thiele" and rule.startswith("seq") and rule != "seqphragmen":
        return abcrules.compute_seq_thiele_method(rule[3:], real, k, **kwargs)
    if via == "thiele" and rule.startswith("revseq"):
        return abcrules.compute_revseq_thiele_method(rule[6:], real, k, **kwargs)
    return abcrules.compute(rule, real, k, **kwargs)


def judge(p, op, result, ctx, tag=""):
    """Compare the committees returned with the reference model."""
    rule, k, alg = op["rule"], op["k"], op["alg"]
    where = (
        f"{rule}/{alg} k={k} resolute={op['resolute']} max={op.get('max')} "
        f"on {voters_str(p)} with {p.m} candidates{tag}"
    )
    committees = [frozenset(int(c) for c in com) for com in result]
    for com, orig in zip(committees, result):
        if not isinstance(orig, (set, frozenset)):
            raise Violation("not-a-set", f"{where}: {type(orig).__name__} returned")
        if any(not 0 <= c < p.m for c in com):
            raise Violation("bad-committee", f"{where}: {sorted(com)}")
        if len(com) != k and not (rule in SIZE_MAY_BE_SMALLER and len(com) < k):
            raise Violation("wrong-size", f"{where}: returned committee {sorted(com)}")
    model = p.model()
    expected = oracle.winners(rule, model, k)
    if model.near_tie and alg not in ("standard-fractions", "gmpy2-fractions", "brute-force",
                                      "branch-and-bound"):  # fmt: skip
        ctx.count("near_ties_not_judged")
        return expected
    show = lambda s: sorted(sorted(c) for c in s)[:12]  # noqa: E731
    for com in committees:
        if com not in expected:
            raise Violation(
                "not-a-winner",
                f"{where}: {sorted(com)} is not a winning committee; winning: {show(expected)}",
            )
    if len(set(committees)) != len(committees):
        raise Violation("duplicate", f"{where}: duplicate committees in {show(committees)}")
    if rule == "sav" and not op["resolute"]:
        sav_float_ties(p, op, committees, expected, where)
    if op["resolute"]:
        if len(committees) != 1:
            raise Violation("resolute-count", f"{where}: {len(committees)} committees")
        if op.get("lex") and p.m <= 10 and sorted(committees[0]) != min(map(sorted, expected)):
            raise Violation("lex-tiebreak", f"{where}: {show(committees)} of {show(expected)}")
    else:
        want = len(expected)
        if op.get("max") is not None:
            want = min(want, op["max"])
        if len(committees) != want:
            raise Violation(
                "incomplete" if len(committees) < want else "too-many",
                f"{where}: {len(committees)} committees returned, {want} expected; "
                f"missing {show(expected - set(committees))}",
            )
    return expected


def sav_float_ties(p, op, committees, expected, where):
    """Known finding: SAV sums floats, so exact ties between scores that are not dyadic are missed.

    Such an outcome gets its own class; every other deviation is judged as usual."""
    want = len(expected) if op.get("max") is None else min(len(expected), op["max"])
    if len(committees) == want or not committees or len(set(committees)) != len(committees):
        return
    tied = frozenset().union(*expected) - frozenset.intersection(*expected)
    inexact = False
    for a, w in p.voters:
        if a & tied:
            share = Fraction(w) / len(a)
            inexact = inexact or share.denominator & (share.denominator - 1) != 0
    if not inexact:
        return
    # explained by a strict order among tied candidates: again certain + choices from a subset
    union = frozenset().union(*committees)
    certain = frozenset.intersection(*committees)
    possible = union - certain
    missing = op["k"] - len(certain)
    if len(committees) in (binom(len(possible), missing), op.get("max")):
        if not REPORT_SAV[0]:
            raise Discard("known finding about SAV")
        raise Violation("sav-float-tie", f"{where}: {len(committees)} of {want} committees returned; "
                        "scores are summed as floats and an exact tie is missed")  # fmt: skip


def binom(n, k):
    from math import comb

    return comb(n, k) if 0 <= k <= n else 0


def interrupt_exception(kind):
    return {"kbd": KeyboardInterrupt("simulated"), "mem": MemoryError("simulated"),
            "sys": SystemExit("simulated"), "err": OSError("simulated")}[kind]  # fmt: skip


def random_cut(rng, kinds, decades=4.2):
    """where and how a call is cut off: at a line of its execution, or at a line executed for the
    first time (most calls execute between tens and tens of thousands of lines, of which some
    hundred are different)"""
    if rng.random() < 0.45:
        return {"kind": rng.choice(kinds), "at": int(10 ** rng.uniform(0, min(2.4, decades))), "fresh": True}
    return {"kind": rng.choice(kinds), "at": int(10 ** rng.uniform(0, decades))}


def bomb_for(cut, prefix):
    return LineBomb(max(1, cut["at"]), interrupt_exception(cut["kind"]), prefix, cut.get("fresh"))


def guarded(what, describe, call, ctx, world, interrupt=None):
    """Run call() under faults. Returns (status, result); status 'ok', 'failed', 'interrupted'.

    An exception is acceptable only if the simulator injected a fault; otherwise it is a crash."""
    fired_before = len(world.fired) if world is not None else 0
    bomb = None
    try:
        if interrupt is not None:
            from sim.core import REPO

            with bomb_for(interrupt, REPO + "/abcvoting") as bomb:
                result = call()
        else:
            result = call()
    except (SimUnsupported, SimBudget, Violation, Discard):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        sys.settrace(None)
        if bomb is not None and bomb.fired is not None:
            ctx.count(f"fault_interrupt_{interrupt['kind']}")
            ctx.log("interrupted", what, bomb.fired, type(e).__name__)
            ctx.state("interrupt", bomb.fired, what)
            return "interrupted", None
        if world is not None and len(world.fired) > fired_before:
            ctx.log("failed", what, type(e).__name__)
            ctx.state("failed", what, type(e).__name__, world.fired[-1][1])
            if not isinstance(e, Exception):
                raise
            return "failed", None
        from sim.engine import blame

        if blame(e) == "unsupported":
            raise SimUnsupported(f"{type(e).__name__} in simulator: {e}") from e
        raise Violation("crash", f"{describe()} raised {type(e).__name__}: {str(e)[:300]}") from e
    if bomb is not None and bomb.fired is not None:
        ctx.count("interrupt_swallowed")
    elif bomb is not None:
        ctx.count("interrupt_after_completion")
    return "ok", result


def compute_op(p, op, ctx, world=None, interrupt=None, tag=""):
    """One rule computation with optional faults. Returns 'ok', 'failed' or 'interrupted'."""
    legal_compute(p, op)
    model = p.model()
    expected = oracle.winners(op["rule"], model, op["k"])  # may Discard
    limit = 40 + 12 * (p.m + len(p.voters)) + 3 * len(expected) * (op["k"] + 1) + 60 * p.m
    if world is not None:
        world.begin_op(limit if op["rule"] != "maximin-support" else 100000)

    def describe():
        return (
            f"{op['rule']}/{op['alg']} k={op['k']} resolute={op['resolute']} "
            f"max={op.get('max')} on {voters_str(p)} with {p.m} candidates{tag}"
        )

    call = lambda: call_rule(p.real, op)  # noqa: E731
    wrong = None
    if op.get("expect") and op.get("via") == "compute" and op.get("max") is None and op["rule"] != "sav":
        if not model.near_tie:
            wrong = op["expect"] == "wrong"
            call = lambda: with_expectation(p, op, expected, wrong)  # noqa: E731
    status, result = guarded(op["rule"], describe, call, ctx, world, interrupt)
    if status != "ok":
        return status
    if wrong is not None:
        ctx.count("computations_with_expected_result")
        if wrong:
            if result != "rejected":
                raise Violation("wrong-expectation-accepted", f"{describe()}: result={result}")
            return "ok"
    judge(p, op, result, ctx, tag)
    ctx.log("compute", op["rule"], op["alg"], op["k"], op["resolute"], op.get("max"),
            sorted(sorted(int(c) for c in com) for com in result))  # fmt: skip
    ctx.count("rule_calls")
    ctx.count(f"alg_{op['alg']}")
    ctx.state(op["rule"], op["alg"], op["resolute"], op.get("max"), op["k"], p.m, len(p.voters),
              min(len(expected), 50))  # fmt: skip
    return "ok"


def with_expectation(p, op, expected, wrong):
    """compute(..., result=...): right expectations pass, wrong ones raise ValueError"""
    listed = sorted(sorted(com) for com in expected)
    if wrong:
        if op["resolute"]:
            listed = [com for com in combinations(range(p.m), op["k"]) if frozenset(com) not in expected][:20]
        elif len(listed) % 2:
            listed = listed[1:]
        else:
            listed.append(list(range(p.m + 1)))
    elif op["k"] % 2:
        listed.reverse()
    try:
        return call_rule(p.real, dict(op, result=listed))
    except ValueError:
        if wrong:
            return "rejected"
        raise


# ---------------------------------------------------------------- axiom checks

CHECKERS = {
    "pareto": "check_pareto_optimality", "jr": "check_JR", "pjr": "check_PJR", "ejr": "check_EJR",
    "ejr+": "check_EJR_plus", "fjr": "check_FJR", "priceability": "check_priceability",
    "stable-priceability": "check_stable_priceability", "core": "check_core",
}  # fmt: skip


def legal_check(p, op):
    if not p.voters or not op["com"] or len(set(op["com"])) != len(op["com"]):
        raise Discard("illegal committee or empty profile")
    if any(not 0 <= c < p.m for c in op["com"]):
        raise Discard("illegal committee")
    if op.get("quota") is not None:
        if op["prop"] not in axioms.QUOTA_AXIOMS or not num(op["quota"]) > 0:
            raise Discard("illegal quota")
        if p.model().total() / num(op["quota"]) > 40:
            raise Discard("quota too small")
    if op["prop"] != "full" and op["alg"] not in axioms.ALGS[op["prop"]]:
        raise Discard("algorithm")
    n = len(p.voters)
    if p.m > 12 or n > 26 or (n > 9 and op["alg"] == "brute-force" and op["prop"] in ("pjr", "ejr")):
        raise Discard("too large")


def call_check(real, op):
    import abcvoting.properties as properties

    form = op.get("form", "list")
    com = {"list": list, "set": set, "tuple": tuple}[form](op["com"])
    if op["prop"] == "full":
        return properties.full_analysis(real, com)
    kwargs = {}
    if op.get("quota") is not None:
        kwargs["quota"] = num(op["quota"])
    if op["alg"] is not None and not (op.get("fastest") and op["alg"] == "gurobi"):
        kwargs["algorithm"] = op["alg"]
    if op.get("via") == "direct":
        return getattr(properties, CHECKERS[op["prop"]])(real, com, **kwargs)
    return properties.check(op["prop"], real, com, **kwargs)


def describe_check(p, op, tag=""):
    return (
        f"check {op['prop']}/{op['alg']} quota={op.get('quota')} committee {sorted(op['com'])} "
        f"on {voters_str(p)} with {p.m} candidates{tag}"
    )


def check_op(p, op, ctx, world=None, interrupt=None, tag="", capture=None):
    """One axiom check (or full analysis), judged against the reference model."""
    legal_check(p, op)
    model = p.model()
    if world is not None:
        world.begin_op(60)
    if capture is not None:
        capture.clear()
    status, result = guarded(
        "check-" + op["prop"], lambda: describe_check(p, op, tag), lambda: call_check(p.real, op),
        ctx, world, interrupt,
    )  # fmt: skip
    if status != "ok":
        return status
    if op["prop"] == "full":
        verdicts = dict(result)
        if set(verdicts) != set(axioms.AXIOMS):
            raise Violation("analysis-keys", f"full_analysis returned {sorted(verdicts)}{tag}")
    else:
        verdicts = {op["prop"]: result}
    for axiom, verdict in sorted(verdicts.items()):
        want = axioms.holds(axiom, model, op["com"], num(op["quota"]) if op.get("quota") is not None else None)
        if want is None:
            ctx.count("numerically_undecided")
            continue
        if not isinstance(verdict, bool) or verdict != want:
            raise Violation(
                "wrong-verdict",
                f"{describe_check(p, op, tag)}: {axiom} verdict {verdict!r}, correct: {want}",
            )
        ctx.state(axiom, op["alg"], op["prop"] == "full", op.get("quota") is not None, want, p.m,
                  len(p.voters), len(op["com"]), p.unit())  # fmt: skip
        ctx.count(f"verdict_{axiom}_{want}")
    ctx.log("check", op["prop"], op["alg"], sorted(op["com"]), str(op.get("quota")), sorted(verdicts.items()))
    ctx.count("axiom_checks")
    return "ok"


def random_committee(rng, spec, k):
    """k candidates: any, unpopular ones, or ones that represent many voters"""
    m, kind = spec["m"], rng.random()
    if kind < 0.5:
        return sorted(rng.sample(range(m), k))
    if kind < 0.75:
        approvals = [sum(c in v["a"] for v in spec["voters"]) for c in range(m)]
        return sorted(sorted(range(m), key=lambda c: (approvals[c], rng.random()))[:k])
    com = []
    while len(com) < k:  # sequential proportional approval voting, up to its last choices
        gain = {c: sum(num(v["w"]) / Fraction(1 + sum(x in v["a"] for x in com)) for v in spec["voters"] if c in v["a"])
                for c in range(m) if c not in com}  # fmt: skip
        com.append(max(gain, key=lambda c: (gain[c], rng.random())))
    if k < m and rng.random() < 0.3:
        com[-1] = rng.choice([c for c in range(m) if c not in com])
    return sorted(com)


def random_check(rng, specs, props=None, algs=None, full=0.1):
    i = rng.randrange(len(specs))
    m = specs[i]["m"]
    total = sum(num(v["w"]) for v in specs[i]["voters"])
    axiom = rng.choice(props or axioms.AXIOMS)
    k = rng.randint(1, m)
    if specs[i].get("wide") and rng.random() < 0.8:
        k = rng.randint(1, 4)
    op = {"op": "check", "p": i, "prop": axiom, "com": random_committee(rng, specs[i], k),
          "quota": None, "alg": None, "via": rng.choice(("check", "direct")),
          "form": rng.choice(("list", "set", "tuple")), "fastest": rng.random() < 0.4}  # fmt: skip
    if rng.random() < full and props is None:
        op["prop"] = "full"
        return op
    allowed = axioms.ALGS[axiom]
    if algs is not None:
        allowed = [a for a in allowed if a in algs] or list(allowed)
    op["alg"] = rng.choice(allowed)
    if axiom in axioms.QUOTA_AXIOMS and rng.random() < 0.4:
        base = Fraction(total) / k
        q = rng.choice((Fraction(total) / (k + 1), base * Fraction(3, 2), Fraction(1), Fraction(total),
                        base / 2, Fraction(total) / (k + 1) + Fraction(1, 7), Fraction(total) + 1,
                        Fraction(rng.randint(1, 12), rng.randint(1, 5)), base))  # fmt: skip
        if rng.random() < 0.4:  # some group deserves exactly ell candidates, or just misses it
            ballot = rng.choice(specs[i]["voters"])["a"] or [0]
            joint = set(rng.sample(ballot, rng.randint(1, min(3, len(ballot)))))
            group = sum(Fraction(num(v["w"])) for v in specs[i]["voters"] if joint <= set(v["a"]))
            if group:
                q = group / rng.choice((len(joint), len(joint), 1, 2))
                q += rng.choice((0, 0, 0, Fraction(1, 100)))
        op["quota"] = int(q) if q.denominator == 1 else f"{q.numerator}/{q.denominator}"
    return op


# ---------------------------------------------------------------- profile edits


def edit_op(profiles, op, ctx):
    """Edit a live profile and its model alike."""
    from abcvoting.preferences import Voter

    p = profiles[op["p"] % len(profiles)]
    kind = op["op"]
    if kind == "add":
        v = {"a": op["a"], "w": op["w"]}
        p.check_ballot(v)
        form, w = op.get("form", "voter"), num(op["w"])
        if form == "voter" or w != 1:
            p.real.add_voter(Voter(list(op["a"]), weight=w))
        elif form == "voters":
            p.real.add_voters([list(op["a"])])
        elif form == "tuple":
            p.real.add_voter(tuple(op["a"]))
        elif form == "set":
            p.real.add_voter(set(op["a"]))
        else:
            p.real.add_voter(list(op["a"]))
        p.voters.append([set(op["a"]), w])
    elif kind == "set":
        if not p.voters:
            raise Discard("empty")
        p.check_ballot(op)
        i = op["i"] % len(p.voters)
        p.real[i] = Voter(list(op["a"]), weight=num(op["w"]))
        p.voters[i] = [set(op["a"]), num(op["w"])]
    elif kind == "weight":
        if not p.voters or not num(op["w"]) > 0:
            raise Discard("empty")
        i = op["i"] % len(p.voters)
        p.real[i].weight = num(op["w"])
        p.voters[i][1] = num(op["w"])
    elif kind == "toggle":
        if not p.voters:
            raise Discard("empty")
        i, c = op["i"] % len(p.voters), op["c"] % p.m
        if c in p.voters[i][0]:
            p.real[i].approved.discard(c)
            p.voters[i][0].discard(c)
        else:
            p.real[i].approved.add(c)
            p.voters[i][0].add(c)
    elif kind == "unit":
        if any(not isinstance(w, int) for _, w in p.voters):
            raise Discard("fractional weights")
        if sum(w for _, w in p.voters) > 60:
            raise Discard("too many voters")
        p.real.convert_to_unit_weights()
        p.voters = [[set(a), 1] for a, w in p.voters for _ in range(w)]
    elif kind == "merge":
        p.real.convert_to_weighted()
        want = {}
        for a, w in p.voters:
            want[frozenset(a)] = want.get(frozenset(a), 0) + w
        got = [(frozenset(v.approved), v.weight) for v in p.real]
        if dict(got) != want or len(got) != len(want):
            raise Violation("merge", f"convert_to_weighted gave {got}, expected {want}")
        p.voters = [[set(a), w] for a, w in got]
    elif kind == "copy":
        q = SimProfile.__new__(SimProfile)
        q.real = p.real.copy()
        q.m, q.names = p.m, list(p.names)
        q.voters = [[set(a), w] for a, w in p.voters]
        profiles.append(q)
    elif kind == "rename":
        p.real.cand_names = [str(x) for x in op["names"][: p.m]]
        if len(p.real.cand_names) != p.m:
            raise Discard("names")
        p.names = list(p.real.cand_names)
    else:
        raise ValueError(kind)
    ctx.log("edit", kind, op["p"])
    ctx.count(f"edit_{kind}")


def random_edit(rng, profiles, weights=("unit",)):
    """A random edit op; `profiles` are the specs generated so far (only m is used)."""
    from sim import gen

    i = rng.randrange(len(profiles))
    m = profiles[i]["m"]
    mode = rng.choice(weights)
    ballot = sorted(rng.sample(range(m), rng.randint(0, m)))
    kind = rng.choice(("add", "set", "weight", "toggle", "toggle", "unit", "merge", "copy"))
    op = {"op": kind, "p": i}
    if kind in ("add", "set"):
        op.update(a=ballot, w=gen.weight(rng, mode), i=rng.randrange(8))
        op["form"] = rng.choice(("voter", "voters", "tuple", "set", "list"))
    elif kind == "weight":
        op.update(i=rng.randrange(8), w=gen.weight(rng, mode))
    elif kind == "toggle":
        op.update(i=rng.randrange(8), c=rng.randrange(m))
    return op


def random_compute(rng, specs, rules, algs=None):
    i = rng.randrange(len(specs))
    rule = rng.choice(rules)
    allowed, resolutes, _ = RULES[rule]
    if algs is not None:
        allowed = [a for a in allowed if a in algs] or list(allowed)
    resolute = rng.choice(resolutes)
    m = specs[i]["m"]
    op = {
        "op": "compute", "p": i, "rule": rule, "alg": rng.choice(allowed),
        "k": rng.randint(1, m), "resolute": resolute, "max": None,
        "via": rng.choice(("compute", "compute", "rule", "direct", "thiele")),
    }  # fmt: skip
    if rng.random() < 0.15:
        op["bare"] = True
    if not resolute and rng.random() < 0.3:
        op["max"] = rng.randint(1, 4)
    if rule == "leximaxphragmen" and resolute and rng.random() < 0.4:
        op["lex"] = True
    if rng.random() < 0.04:
        op["expect"] = rng.choice(("right", "wrong"))
    if rule == "geom10":  # keep score differences above the accuracy of the solvers
        op["k"] = min(op["k"], 3)
    if specs[i].get("wide"):  # keep the number of committees and of tie-breaking universes small
        op["k"] = m - rng.randint(1, 3) if rule.startswith("revseq") else rng.randint(1, 4)
        if rule in ("monroe", "greedy-monroe") and rng.random() < 0.5:  # large districts
            op["k"] = 2
        if not resolute and rule == "trivial":
            op["max"] = rng.randint(1, 4)
    return op
