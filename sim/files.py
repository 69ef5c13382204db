"""Instances and PrefLib files as plain data, shared by the file properties."""

import json
import os
import pathlib

from sim import gen, session
from sim.core import Discard, Violation, num
from sim.simfs import ROOT

YAML_FILES = ("a.abc.yaml", "b.abc.yaml", "a.abc.yaml.old", "sub/c.abc.yaml", "ü d.yaml")
CAT_FILES = ("a.cat", "b.cat", "plain", "sub/c.cat", "v1.2", "ü d.cat")
RULE_IDS = ("av", "pav", "seqphragmen", "equal-shares", "lexminimaxav", "revseqpav", "my rule")
TEXT = ["a", "B", " ", "\n", ":", "# ", "- ", "'", '"', "{", "]", "é", "漢", "😀", "%", "&", "*", "yes", "null",
        "1", "0.5", "\\", "profile:", "---", "x y", "\n\n", "ß"]  # fmt: skip
NAMES = ["a", "b", "c", "d", "e", "x y", "é", "10", "Z", "漢字", "a:b", "# n", "{1}", "1, 2", "o'k", "\"q\"", "-", "ALTERNATIVE", "none", "ß"]


def text(rng):
    s = "".join(rng.choice(TEXT) for _ in range(rng.randint(0, 8)))
    return " ".join(x for x in s.split(" ") if x) if "  " in s else s


def value(rng, depth=0):
    kind = rng.randrange(8 if depth < 2 else 6)
    if kind == 0:
        return rng.random() < 0.5
    if kind == 1:
        return rng.randint(-5, 10**6)
    if kind == 2:
        return rng.choice((0.1, 1e-7, 2.5, 1e22, 0.3333333333333333))
    if kind == 3:
        return None
    if kind in (4, 5):
        return text(rng)
    if kind == 6:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice("pqrst"): value(rng, depth + 1) for _ in range(rng.randint(0, 2))}


def ballots(rng, weights, max_m=7, max_n=6, names=True, min_n=0):
    spec = gen.election(rng, max_m=max_m, max_n=max_n, min_n=1, weights=("unit",), names=False)
    if rng.random() < 0.08 and min_n == 0:
        spec["voters"] = []
    if rng.random() < 0.05:  # more candidates, long lines
        spec["m"] = 40
        spec["voters"] = [{"a": rng.sample(range(40), rng.randint(0, 40)), "w": 1} for _ in range(rng.randint(1, 12))]
    elif rng.random() < 0.05:  # many voters
        m = spec["m"]
        spec["voters"] = [{"a": rng.sample(range(m), rng.randint(0, min(m, 4))), "w": 1} for _ in range(rng.randint(20, 120))]
    mode = rng.choice(weights)
    for v in spec["voters"]:
        v["w"] = {
            "unit": 1,
            "int": rng.choice((1, 2, 3, 7, 10**12)),
            "float": rng.choice((1, 0.5, 0.1, 2.5, 1e-7, 1e22, 1 / 3, 3.0)),
            "intfloat": rng.choice((1, 2.0, 3.0, 1.0)),
            "small": rng.choice((1, 2, 3, 5, 5, 12, 101)),
        }[mode]
    if names and rng.random() < 0.6 and spec["m"] <= 20:
        spec["names"] = rng.sample(NAMES, spec["m"])
    else:
        spec["names"] = None
    return spec


def instance(rng):
    spec = ballots(rng, ("unit", "unit", "int", "float"))
    m = spec["m"]
    spec["k"] = rng.choice((None, rng.randint(1, m), rng.randint(1, m)))
    spec["desc"] = rng.choice((None, text(rng), text(rng), "two\n  lines\n", "a description"))
    spec["compute"] = None
    if rng.random() < 0.7:
        spec["compute"] = [compute(rng, m) for _ in range(rng.randint(0, 3))]
    return spec


def compute(rng, m):
    res = rng.choice(("absent", None, "list", "list", "list"))
    if res == "list":
        res = [sorted(rng.sample(range(m), rng.randint(0, m))) for _ in range(rng.randint(0, 4))]
    params = {}
    for key in ("resolute", "algorithm", "max_num_of_committees", "note", "ünïcode", "lexicographic_tiebreaking"):
        if rng.random() < 0.35:
            params[key] = value(rng)
    return {"rule": rng.choice(RULE_IDS), "result": res, "params": params,
            "extra": [x for x in ("profile", "committeesize") if rng.random() < 0.3]}  # fmt: skip


class Instance:
    """A live instance and the plain data it must contain."""

    def __init__(self, spec):
        self.p = session.SimProfile(spec)
        self.k = spec.get("k")
        self.desc = spec.get("desc")
        self.compute = spec.get("compute")
        if self.k is not None and not 1 <= self.k <= self.p.m:
            raise Discard("committee size")

    def live_compute(self, rng_form=0):
        from abcvoting.misc import CandidateSet

        if self.compute is None:
            return None
        out = []
        for c in self.compute:
            d = dict(c["params"])
            if c["result"] != "absent":
                res = c["result"]
                if res is not None:
                    res = [[list, set, CandidateSet, tuple][rng_form % 4](com) for com in res]
                d["result"] = res
            if "profile" in c["extra"]:
                d["profile"] = self.p.real
            if "committeesize" in c["extra"]:
                d["committeesize"] = self.k
            d["rule_id"] = c["rule"]
            out.append(d)
        return out

    def canonical(self):
        return {
            "m": self.p.m,
            "voters": [(sorted(a), w) for a, w in self.p.voters],
            "k": self.k,
            "desc": self.desc,
            "compute": [
                (c["rule"], c["params"], c["result"] if c["result"] in ("absent", None) else [sorted(x) for x in c["result"]])
                for c in self.compute or []
            ],
        }


def plain(x):
    """ruamel's container types as plain data"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def observed_yaml(read):
    """canonical form of what read_abcvoting_yaml_file returned"""
    profile, k, compute_instances, data = read
    computes = []
    for c in compute_instances:
        if c.get("profile") is not profile or c.get("committeesize") != k:
            raise Violation("instance-keys", f"compute instance lacks profile or committee size: {sorted(c)}")
        params = {key: plain(v) for key, v in c.items() if key not in ("rule_id", "result", "profile", "committeesize")}
        res = "absent" if "result" not in c else c["result"]
        if res not in ("absent", None):
            res = [sorted(int(x) for x in com) for com in res]
        computes.append((c["rule_id"], params, res))
    return {"m": profile.num_cand, "voters": observed_profile(profile), "k": k, "compute": computes,
            "desc": plain(data.get("description"))}


def observed_profile(profile):
    out = []
    for v in profile:
        a = sorted(int(c) for c in v.approved)
        if len(set(a)) != len(a) or any(not 0 <= c < profile.num_cand for c in a) or not v.weight > 0:
            raise Violation("illegal-profile", f"ballot {a} weight {v.weight} of {profile.num_cand} candidates")
        out.append((a, v.weight))
    return out


def same_numbers(a, b):
    """equality that also tells 1 from True and keeps float/int values exact"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_numbers(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same_numbers, a, b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def address(name, form):
    """the path argument the caller uses"""
    if form == "abs":
        return f"{ROOT}/work/{name}"
    if form == "path":
        return pathlib.PurePosixPath(f"{ROOT}/work/{name}")
    if form == "dot":
        return f"./sub/../{name}"
    return name


def yaml_text(inst, style):
    """A hand-written file with the content of inst."""
    c = inst.canonical()
    data = {"profile": [list(reversed(a)) if style % 2 else a for a, _ in c["voters"]]}
    if any(w != 1 for _, w in c["voters"]):
        data["voter_weights"] = [w for _, w in c["voters"]]
    used = max((x for a, _ in c["voters"] for x in a), default=None)
    if style % 3 or used is None or used + 1 != c["m"]:
        data["num_cand"] = c["m"]
    if c["k"] is not None:
        data["committeesize"] = c["k"]
    if c["desc"] is not None:
        data["description"] = c["desc"]
    if c["compute"]:
        data["compute"] = []
        for rule, params, res in c["compute"]:
            d = {"rule_id": rule, **params}
            if res != "absent":
                d["result"] = res
            data["compute"].append(d)
    keys = sorted(data) if style % 2 else list(data)
    lines = []
    for key in keys:
        if key == "profile" and style % 5 == 1 and data[key]:
            lines.append("profile:")
            for a in data[key]:
                lines.append(f"- {json.dumps(a)}  # voter")
        else:
            lines.append(f"{key}: {json.dumps(data[key], ensure_ascii=False)}")
    if style % 4 == 1:
        lines.insert(0, "# a comment: ä")
    nl = "\r\n" if style % 6 == 5 else "\n"
    body = "{" + ", ".join(f'"{k}": {json.dumps(data[k], ensure_ascii=False)}' for k in keys) + "}" if style % 11 == 7 else nl.join(lines)
    return (body + (nl if style % 3 else "")).encode("utf-8")


# ------------------------------------------------------------------------------------------
# PrefLib


def cat_name(name):
    return name if os.path.splitext(name)[1] else name + ".cat"


def tally(voters):
    """approval set -> total multiplicity"""
    res = {}
    for a, w in voters:
        key = tuple(sorted(a))
        res[key] = res.get(key, 0) + w
    return res


def preflib(rng, kinds=("soc", "soi", "toc", "toi", "cat")):
    """A PrefLib file as plain data: distinct votes with multiplicities."""
    kind = rng.choice(kinds)
    large = rng.random() < 0.15
    m = rng.randint(9, 16) if large else rng.randint(1, 6)
    votes, seen = [], set()
    for _ in range(rng.randint(1, 25 if large else 5)):
        order = rng.sample(range(m), m if kind in ("soc", "toc") else rng.randint(1, m))
        if kind in ("soc", "soi"):
            groups = [[c] for c in order]
        elif kind in ("toc", "toi"):
            groups = []
            while order:
                n = rng.choice((1, 1, 2, 3))
                groups.append(order[:n])
                order = order[n:]
        else:
            cats = rng.choice((2, 2, 3))
            order = rng.sample(range(m), m)
            cuts = sorted(rng.randint(0, m) for _ in range(cats - 1))
            groups = [order[a:b] for a, b in zip([0] + cuts, cuts + [m])]
        key = repr(groups)
        if key not in seen:
            seen.add(key)
            votes.append({"n": rng.choice((1, 1, 2, 3, 7, 12, 100)) if large else rng.choice((1, 1, 2, 3, 7)), "g": groups})
    ids = list(range(1, m + 1))
    return {"kind": kind, "m": m, "votes": votes, "names": rng.sample(NAMES, m), "style": rng.randrange(64), "ids": ids}


def preflib_text(spec):
    kind, m, style = spec["kind"], spec["m"], spec["style"]
    total = sum(v["n"] for v in spec["votes"])
    uniq = "NUMBER UNIQUE PREFERENCES" if kind == "cat" else "NUMBER UNIQUE ORDERS"
    lines = [f"# FILE NAME: x.{kind}", "# TITLE: a title: with colon", "# DESCRIPTION: ", f"# DATA TYPE: {kind}",
             "# MODIFICATION TYPE: original", f"# NUMBER ALTERNATIVES: {m}", f"# NUMBER VOTERS: {total}",
             f"# {uniq}: {len(spec['votes'])}"]  # fmt: skip
    if kind == "cat":
        n = max(len(v["g"]) for v in spec["votes"])
        lines.append(f"# NUMBER CATEGORIES: {n}")
        lines += [f"# CATEGORY NAME {i + 1}: cat {i}" for i in range(n)]
    lines += [f"# ALTERNATIVE NAME {i + 1}: {spec['names'][i]}" for i in range(m)]
    sep = ", " if style % 2 else ","
    for v in spec["votes"]:
        groups = []
        for g in v["g"]:
            g = [c + 1 for c in g]
            groups.append(str(g[0]) if len(g) == 1 and not (style // 2) % 5 == 4 else "{" + sep.join(map(str, g)) + "}")
        lines.append(f"{v['n']}: {sep.join(groups)}")
    nl = "\r\n" if style // 10 % 4 == 3 else "\n"
    return (nl.join(lines) + (nl if style // 3 % 4 else "")).encode("utf-8")


def top_or_size(rng):
    """the parameters of a PrefLib reading call"""
    par = rng.choice((None, "top", "set"))
    top, size = rng.choice(((4, 7), (4, 7), (4, 7), (13, 17)))
    return {"top": rng.randint(1, top) if par == "top" else None, "set": rng.randint(1, size) if par == "set" else None}


def approvals(groups, m, top_ranks=None, setsize=None):
    """The approval set the parameters define for one vote."""
    if setsize:
        out = []
        for g in groups:
            if len(out) >= setsize:
                break
            out += g
        if 0 < len(out) < setsize:
            return tuple(range(m))
        return tuple(sorted(out))
    return tuple(sorted(c for g in groups[: top_ranks or 1] for c in g))


def preflib_expected(spec, top_ranks=None, setsize=None):
    res = {}
    for v in spec["votes"]:
        key = approvals(v["g"], spec["m"], top_ranks, setsize)
        res[key] = res.get(key, 0) + v["n"]
    return res
