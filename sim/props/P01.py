"""Profiles behave like plain lists of weighted ballots under every edit history."""

import copy
import re
import sys

from sim import env, gen, session
from sim.core import REPO, Discard, Violation, num

CASES = {"quick": 16000, "thorough": 150000}
LEVEL = "exploration"
CASE_LIMIT = 30.0
RULE = (
    "a case is a seeded history of 3-14 profile operations (legal and illegal additions, batch "
    "additions, replacements, weight and ballot edits, copies, conversions, adding one profile to "
    "another, renaming), some cut off by an exception at a chosen library line; after every step all "
    "public attributes of all live profiles are compared with lists of weighted ballots; "
    "non-trivial: at least one operation took effect"
)
STATES = "distinct (operation, outcome, profile size, number of live profiles, unit weights) reached"
REAL = ["abcvoting.preferences", "abcvoting.misc"]
STUB = []
ASSUMPTIONS = ["a step cut off by an exception may have taken effect completely or not at all"]
KINDS = ("add", "add", "batch", "set", "weight", "toggle", "unit", "merge", "copy", "copy", "bad",
         "bad", "extend", "rename", "voterobj")  # fmt: skip
BAD = ("dup", "high", "negative", "type", "zero", "minus", "batch", "index", "setdup", "names")


def setup():
    env.install_fakes()


def generate(rng, tier, index):
    weights = ("unit", "int", "frac")
    profiles = [
        gen.election(rng, max_m=rng.choice((3, 5, 10, 17)), max_n=5, weights=weights)
        for _ in range(rng.choice((1, 1, 2)))
    ]
    if rng.random() < 0.06:
        profiles[0] = gen.wide(rng, weights)
    for spec in profiles:
        if rng.random() < 0.1:
            spec["voters"] = []
    count = len(profiles)
    ms = [p["m"] for p in profiles]
    ops = []
    for _ in range(rng.randint(3, 14)):
        i = rng.randrange(count)
        kind = rng.choice(KINDS)
        op = {"op": kind, "p": i, "a": rng.sample(range(ms[i]), rng.randint(0, ms[i])),
              "w": gen.weight(rng, rng.choice(weights)), "i": rng.randrange(7),
              "c": rng.randrange(ms[i])}  # fmt: skip
        if kind == "add":
            op["form"] = rng.choice(("voter", "voters", "tuple", "set", "list", "np"))
        elif kind == "batch":
            op["b"] = [rng.sample(range(ms[i]), rng.randint(0, ms[i])) for _ in range(rng.randint(0, 3))]
            op["form"] = rng.choice(("list", "generator", "voters"))
        elif kind == "bad":
            op["kind"] = rng.choice(BAD)
        elif kind == "extend":
            op["q"] = rng.randrange(count)
        elif kind == "copy":
            op["form"] = rng.choice(("method", "copy", "deepcopy"))
            ms.append(ms[i])
            count += 1
        elif kind == "rename":
            op["names"] = rng.sample(["p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "ä b"] + [str(x) for x in range(9)], 20)
            if rng.random() < 0.25:  # names need not be different
                op["names"] = [rng.choice(op["names"][:4]) for _ in op["names"]]
        if rng.random() < 0.15:
            op["int"] = {"kind": rng.choice(("kbd", "mem")), "at": rng.randint(1, 60)}
        ops.append(op)
    return {"profiles": profiles, "ops": ops}


def verify(p, where):
    p.verify(where)
    real = p.real
    total = sum((w for _, w in p.voters), 0)
    unit = all(w == 1 for _, w in p.voters)
    if real.total_weight() != total or real.has_unit_weights() != unit:
        raise Violation("derived", f"{where}: total {real.total_weight()} (should be {total}), unit {real.has_unit_weights()}")
    if set(real.approved_candidates()) != set().union(*(a for a, _ in p.voters)):
        raise Violation("derived", f"{where}: approved_candidates {real.approved_candidates()}")
    party = all(not (a & b) or a == b for a, _ in p.voters for b, _ in p.voters)
    if bool(real.is_party_list()) != party:
        raise Violation("derived", f"{where}: is_party_list {real.is_party_list()} for {session.voters_str(p)}")
    if real.approved_candidates() is not None and p.voters:
        if set(real[-1].approved) != p.voters[-1][0]:
            raise Violation("derived", f"{where}: last voter")
    show = lambda a: "{" + ", ".join(sorted(p.names[c] for c in a)) + "}"  # noqa: E731
    if p.voters:
        lines = str(real).split("\n")[1:]
        want = [re.sub(r"\s+", " ", f" voter {i}: " + ("" if unit else f"{w} * ") + show(a)).strip()
                for i, (a, w) in enumerate(p.voters)]  # fmt: skip
        got = [re.sub(r"\s+", " ", x).strip().rstrip(",") for x in lines]
        if got != want:
            raise Violation("text", f"{where}: str(profile) lists {got}, should be {want}")
        merged = {}
        for a, w in p.voters:
            merged[frozenset(a)] = merged.get(frozenset(a), 0) + w
        text = real.str_compact()
        got = re.findall(r"^ (\S+) x (\{.*\}),?$", text, re.M)
        want = [(str(w), show(a)) for a, w in merged.items()]
        if sorted(got) != sorted(want):
            raise Violation("text", f"{where}: str_compact() lists {got}, should be {want}")


def illegal(p, op):
    """Perform an edit that has to be rejected."""
    from abcvoting.preferences import Profile, Voter

    kind, real, a = op["kind"], p.real, list(op["a"])
    if kind == "dup":
        real.add_voter(a + [op["c"], op["c"]])
    elif kind == "high":
        real.add_voter([p.m + op["i"]])
    elif kind == "negative":
        real.add_voter(Voter([-1 - op["i"]]))
    elif kind == "type":
        real.add_voter(["x"])
    elif kind == "zero":
        real.add_voter(Voter(a, weight=0))
    elif kind == "minus":
        real.add_voters([Voter(a, weight=-1)])
    elif kind == "batch":
        real.add_voters([a, [op["c"]], [p.m + 3]])
    elif kind == "index":
        real[len(p.voters) + op["i"]] = a
    elif kind == "setdup":
        if not p.voters:
            raise Discard("empty")
        real[op["i"] % len(p.voters)] = [op["c"], op["c"]]
    elif kind == "names":
        Profile(p.m + 1, cand_names=["a"] * p.m)
    else:
        raise Discard("unknown")


def perform(profiles, op, ctx):
    from abcvoting.preferences import Voter

    p = profiles[op["p"] % len(profiles)]
    kind = op["op"]
    if kind in ("add", "set", "voterobj", "batch", "toggle", "bad"):
        p.check_ballot(op)
    if kind == "add" and op["form"] == "np":
        import numpy as np

        p.real.add_voter([np.int64(c) for c in op["a"]])
        return lambda: p.voters.append([set(op["a"]), 1])
    if kind == "batch":
        for b in op["b"]:
            p.check_ballot({"a": b, "w": 1})
        w = num(op["w"])
        if op["form"] == "voters":
            p.real.add_voters([Voter(b, weight=w) for b in op["b"]])
        else:
            w = 1
            p.real.add_voters(list(op["b"]) if op["form"] == "list" else (b for b in op["b"]))
        return lambda: p.voters.extend([set(b), w] for b in op["b"])
    if kind == "extend":
        q = profiles[op["q"] % len(profiles)]
        if len(p.voters) + len(q.voters) > 60:
            raise Discard("too many voters")
        bad = any(c >= p.m for a, _ in q.voters for c in a)
        new = [[set(a), w] for a, w in q.voters]
        try:
            p.real.add_voters(q.real)
        except ValueError:
            if not bad:
                raise
            return lambda: None
        if bad:
            raise Violation("accepted-illegal", "candidates out of range were accepted")
        return lambda: p.voters.extend(new)
    if kind == "voterobj":
        # the caller keeps and changes her own Voter object
        v = Voter(list(op["a"]), weight=num(op["w"]))
        p.real.add_voter(v)
        v.weight = 77
        v.approved.clear()
        return lambda: p.voters.append([set(op["a"]), num(op["w"])])
    if kind == "copy":
        q = session.SimProfile.__new__(session.SimProfile)
        q.real = {"method": p.real.copy, "copy": lambda: copy.copy(p.real),
                  "deepcopy": lambda: copy.deepcopy(p.real)}[op["form"]]()  # fmt: skip
        q.m, q.names = p.m, list(p.names)
        q.voters = [[set(a), w] for a, w in p.voters]
        return lambda: profiles.append(q)
    if kind == "unit" and any(not isinstance(w, int) for _, w in p.voters):
        if all(num(w) == int(num(w)) for _, w in p.voters):
            raise Discard("integral fractions")
        try:
            p.real.convert_to_unit_weights()
        except TypeError:
            return lambda: None
        raise Violation("accepted-illegal", f"fractional weights converted: {session.voters_str(p)}")
    if kind == "bad":
        try:
            illegal(p, op)
        except (ValueError, TypeError, IndexError):
            return lambda: ctx.count(f"rejected_{op['kind']}")
        raise Violation("accepted-illegal", f"illegal edit {op['kind']} was accepted: {session.voters_str(p)}")
    return None


def execute(workload, ctx):
    profiles = [session.SimProfile(spec) for spec in workload["profiles"]]
    if not profiles:
        raise Discard("no profile")
    effects = 0
    for number, op in enumerate(workload["ops"]):
        where = f"step {number} ({op['op']})"
        cut = op.get("int")
        fired = None
        models = [[list(map(lambda v: [set(v[0]), v[1]], p.voters)), list(p.names)] for p in profiles]
        try:
            if cut is None:
                commit = perform(profiles, op, ctx)
                if commit is None:
                    session.edit_op(profiles, op, ctx)
                else:
                    commit()
            else:
                if op["op"] in ("rename", "toggle", "weight", "copy"):
                    raise Discard("single statement")
                with session.bomb_for(cut, REPO + "/abcvoting") as bomb:
                    try:
                        commit = perform(profiles, op, ctx)
                        if commit is None:
                            session.edit_op(profiles, op, ctx)
                        else:
                            commit()
                    finally:
                        fired = bomb.fired
        except Discard:
            ctx.count("skipped_ops")
            continue
        except (KeyboardInterrupt, MemoryError):
            sys.settrace(None)
            if fired is None:
                raise
            ctx.count(f"fault_interrupt_{cut['kind']}")
            ctx.state("cut", op["op"], fired)
            settle(profiles, models, op, where)
        effects += 1
        for i, q in enumerate(profiles):
            verify(q, f"after {where}, profile {i}")
        p = profiles[op["p"] % len(profiles)]
        ctx.log(op["op"], op["p"], len(p.voters), fired)
        ctx.state(op["op"], op.get("kind"), op.get("form"), len(p.voters), len(profiles), p.unit())
    if effects:
        ctx.nontrivial = True


def settle(profiles, models, op, where):
    """After a cut-off edit: the profile has its old content or that of the completed edit."""
    p = profiles[op["p"] % len(profiles)]
    before = models[op["p"] % len(profiles)][0]
    got = [[set(v.approved), v.weight] for v in p.real]
    if got == before:
        p.voters = got
        return
    kind = op["op"]
    done = [[set(a), w] for a, w in before]
    if kind == "add":
        w = num(op["w"]) if op["form"] == "voter" or (num(op["w"]) != 1 and op["form"] != "np") else 1
        done.append([set(op["a"]), w])
    elif kind == "voterobj":
        done.append([set(op["a"]), num(op["w"])])
    elif kind == "batch":
        w = num(op["w"]) if op["form"] == "voters" else 1
        done += [[set(b), w] for b in op["b"]]
    elif kind == "set":
        done[op["i"] % len(done)] = [set(op["a"]), num(op["w"])]
    elif kind == "extend":
        q = models[op["q"] % len(profiles)][0]
        done += [[set(a), w] for a, w in q]
    elif kind == "unit":
        done = [[set(a), 1] for a, w in done for _ in range(w)]
    elif kind == "merge":
        merged = {}
        for a, w in done:
            merged[frozenset(a)] = merged.get(frozenset(a), 0) + w
        if {frozenset(a): w for a, w in got} == merged and len(got) == len(merged):
            p.voters = got
            return
    if got != done:
        raise Violation("half-done", f"{where} was cut off: profile is {got}, was {before}")
    p.voters = got
