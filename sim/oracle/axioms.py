"""Executable reference model of the proportionality axioms (weighted voters, rational quota).

Straight from the definitions; exponential enumeration over candidate sets, exact arithmetic except
for priceability (a linear program whose minimal relaxation is compared with zero)."""

import itertools
from fractions import Fraction

import numpy as np
from scipy.optimize import linprog

AXIOMS = ("pareto", "jr", "pjr", "ejr", "ejr+", "fjr", "priceability", "stable-priceability", "core")
QUOTA_AXIOMS = ("jr", "pjr", "ejr", "ejr+", "fjr", "core")
ALGS = {
    "pareto": ("brute-force", "gurobi"), "jr": (None,), "pjr": ("brute-force", "gurobi"),
    "ejr": ("brute-force", "gurobi"), "ejr+": (None,), "fjr": ("brute-force", "gurobi"),
    "priceability": ("gurobi",), "stable-priceability": ("gurobi",),
    "core": ("brute-force", "gurobi"),
}  # fmt: skip


def default_quota(model, committee):
    return Fraction(model.total()) / len(committee)


def _subsets(m, low=1, high=None):
    for size in range(low, (m if high is None else min(m, high)) + 1):
        yield from (frozenset(t) for t in itertools.combinations(range(m), size))


def _weight(model, group):
    return sum(model.voters[i][1] for i in group)


def holds(axiom, model, committee, quota=None):
    """True / False / None (numerically undecidable)."""
    W = frozenset(committee)
    q = default_quota(model, W) if quota is None else Fraction(quota)
    V = model.voters
    util = [len(a & W) for a, _ in V]
    top = min(model.m, int(Fraction(model.total()) / q))  # no group deserves more candidates
    if axiom == "pareto":
        for other in itertools.combinations(range(model.m), len(W)):
            o = frozenset(other)
            diffs = [len(a & o) - u for (a, _), u in zip(V, util)]
            if all(d >= 0 for d in diffs) and any(d > 0 for d in diffs):
                return False
        return True
    if axiom == "jr":
        return not any(
            valid_witness("jr", model, W, q, {"group": [i for i, (a, _) in enumerate(V)
                                                       if c in a and util[i] == 0], "cand": c})
            for c in range(model.m)
        )  # fmt: skip
    if axiom == "ejr":
        for T in _subsets(model.m, 1, top):
            ell = len(T)
            group = [i for i, (a, _) in enumerate(V) if T <= a and util[i] < ell]
            if group and _weight(model, group) >= ell * q:
                return False
        return True
    if axiom == "pjr":
        for T in _subsets(model.m, 1, top):
            ell = len(T)
            base = [i for i, (a, _) in enumerate(V) if T <= a]
            if not base or _weight(model, base) < ell * q:
                continue
            for U in itertools.combinations(sorted(W), min(ell - 1, len(W))):
                group = [i for i in base if V[i][0] & W <= set(U)]
                if group and _weight(model, group) >= ell * q:
                    return False
        return True
    if axiom == "ejr+":
        top = int(Fraction(model.total()) / q)  # may exceed the number of candidates
        for c in range(model.m):
            if c in W:
                continue
            for ell in range(1, top + 1):
                group = [i for i, (a, _) in enumerate(V) if c in a and util[i] < ell]
                if group and _weight(model, group) >= ell * q:
                    return False
        return True
    if axiom == "fjr":
        for T in _subsets(model.m, 1, top):
            for beta in range(1, len(T) + 1):
                group = [i for i, (a, _) in enumerate(V)
                         if len(a & T) >= beta and util[i] <= beta - 1]  # fmt: skip
                if group and _weight(model, group) >= len(T) * q:
                    return False
        return True
    if axiom == "core":
        for T in _subsets(model.m, 1, top):
            group = [i for i, (a, _) in enumerate(V) if len(a & T) > util[i]]
            if group and _weight(model, group) >= len(T) * q:
                return False
        return True
    if axiom in ("priceability", "stable-priceability"):
        return priceable(model, W, axiom.startswith("stable"))
    raise ValueError(axiom)


def priceable(model, W, stable):
    approved = model.approved()
    if len(approved) < len(W):
        return approved <= W
    if not W <= approved:
        return False
    V, coms = model.voters, sorted(W)
    n = len(V)
    # variables: budget, t, p[i, c], and for stable price systems z[c, i]
    index = {}
    for i, (a, _) in enumerate(V):
        for c in coms:
            if c in a:
                index[i, c] = 2 + len(index)
    nv = 2 + len(index)
    z = {}
    outside = [c for c in range(model.m) if c not in W]
    if stable:
        for c in outside:
            for i, (a, _) in enumerate(V):
                if c in a:
                    z[c, i] = nv
                    nv += 1
    rows, rhs = [], []

    def row(entries, bound, relax=1.0):
        r = np.zeros(nv)
        for j, x in entries:
            r[j] += x
        r[1] -= relax
        rows.append(r)
        rhs.append(bound)

    pays = [[(index[i, c], 1.0) for c in coms if (i, c) in index] for i in range(n)]
    for i in range(n):
        row(pays[i] + [(0, -float(V[i][1]))], 0.0)
    for c in coms:
        col = [(index[i, c], 1.0) for i in range(n) if (i, c) in index]
        row(col, 1.0)
        row([(j, -x) for j, x in col], -1.0)
    for c in outside:
        supporters = [i for i, (a, _) in enumerate(V) if c in a]
        if not supporters:
            continue
        if stable:
            for i in supporters:
                for j, _ in pays[i]:
                    row([(j, 1.0), (z[c, i], -1.0)], 0.0)
                row([(0, float(V[i][1]))] + [(j, -1.0) for j, _ in pays[i]] + [(z[c, i], -1.0)], 0.0)
            row([(z[c, i], 1.0) for i in supporters], 1.0)
        else:
            entries = []
            for i in supporters:
                entries.append((0, float(V[i][1])))
                entries += [(j, -1.0) for j, _ in pays[i]]
            row(entries, 1.0)
    cost = np.zeros(nv)
    cost[1] = 1.0
    res = linprog(cost, A_ub=np.array(rows), b_ub=np.array(rhs), bounds=[(0, None)] * nv,
                  method="highs")  # fmt: skip
    if res.status != 0:
        return None
    if res.fun <= 1e-7:
        return True
    if res.fun >= 1e-5:
        return False
    return None


def valid_witness(axiom, model, W, quota, w):
    """Is w a genuine counterexample to the axiom?"""
    W = frozenset(W)
    V = model.voters
    group = w.get("group")
    if group is not None:
        if not group or any(not 0 <= i < len(V) for i in group) or len(set(group)) != len(group):
            return False
        weight = _weight(model, group)
        sets = [V[i][0] for i in group]
        util = [len(a & W) for a in sets]
    T = frozenset(w.get("cands", ()))
    if any(not 0 <= c < model.m for c in T):
        return False
    if axiom == "pareto":
        diffs = [len(a & T) - len(a & W) for a, _ in V]
        return len(T) == len(W) and all(d >= 0 for d in diffs) and any(d > 0 for d in diffs)
    if axiom == "jr":
        return weight >= quota and all(w["cand"] in a for a in sets) and all(u == 0 for u in util)
    if axiom in ("ejr", "pjr"):
        ell = w["ell"]
        if ell < 1 or weight < ell * quota or len(T) < ell or not all(T <= a for a in sets):
            return False
        if axiom == "ejr":
            return all(u < ell for u in util)
        return len(frozenset().union(*sets) & W) < ell
    if axiom == "ejr+":
        ell = w["ell"]
        return (
            ell >= 1 and weight >= ell * quota and w["cand"] not in W
            and all(w["cand"] in a for a in sets) and all(u < ell for u in util)
        )  # fmt: skip
    if axiom == "fjr":
        beta, ell = w["beta"], w["ell"]
        return (
            beta >= 1 and len(T) == ell and weight >= ell * quota
            and all(len(a & T) >= beta for a in sets) and all(u <= beta - 1 for u in util)
        )  # fmt: skip
    if axiom == "core":
        return weight >= len(T) * quota and all(len(a & T) > u for a, u in zip(sets, util))
    raise ValueError(axiom)
