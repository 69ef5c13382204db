"""Executable reference model of the ABC rules, in exact rational arithmetic.

Written from the definitions (docs, the survey by Lackner & Skowron), independent of the code under
test; slow and simple. `winners(rule, model, k)` returns the set of all winning committees
(frozensets), i.e. the meaning of `resolute=False`.

A model is `Model(num_cand, [(approved, weight)])`."""

import itertools
from fractions import Fraction
from math import comb

from sim.core import Discard

UNIVERSE_LIMIT = 4000
COMMITTEE_LIMIT = 6000
FLOAT_GAP = Fraction(1, 10**9)


class Model:
    """Plain-data snapshot of a profile."""

    def __init__(self, num_cand, voters):
        self.m = num_cand
        self.voters = [(frozenset(a), w if isinstance(w, int) else Fraction(w)) for a, w in voters]
        self.near_tie = False  # a float algorithm may legitimately see a tie that is none

    def approved(self):
        return frozenset().union(*(a for a, _ in self.voters)) if self.voters else frozenset()

    def total(self):
        return sum(w for _, w in self.voters)

    def unit(self):
        return all(w == 1 for _, w in self.voters)

    def key(self):
        return (self.m, tuple((tuple(sorted(a)), str(w)) for a, w in self.voters))

    def supporters(self, c):
        return [i for i, (a, _) in enumerate(self.voters) if c in a]

    def note_gap(self, x, y):
        """x, y compared by the rule; equal or clearly different?"""
        if x != y and abs(x - y) <= FLOAT_GAP * max(1, abs(x), abs(y)):
            self.near_tie = True


def combos(model, k):
    if comb(model.m, k) > COMMITTEE_LIMIT:
        raise Discard("too many committees")
    return [frozenset(c) for c in itertools.combinations(range(model.m), k)]


# ---------------------------------------------------------------- Thiele


def thiele_weight(fid):
    """marginal value of the i-th approved committee member (i >= 1)"""
    if fid == "pav":
        return lambda i: Fraction(1, i)
    if fid == "slav":
        return lambda i: Fraction(1, 2 * i - 1)
    if fid == "cc":
        return lambda i: 1 if i == 1 else 0
    if fid == "av":
        return lambda i: 1
    if fid.startswith("geom"):
        base = Fraction(fid[4:])
        return lambda i: 1 / base ** (i - 1)
    if fid.startswith("atleast"):
        ell = int(fid[7:])
        return lambda i: 1 if i == ell else 0
    raise ValueError(fid)


def thiele_score(fid, model, committee):
    f = thiele_weight(fid)
    table = [0]
    for i in range(1, len(committee) + 1):
        table.append(table[-1] + f(i))
    return sum(w * table[len(a & committee)] for a, w in model.voters)


def best(items, key, maximize=True):
    top, res = None, set()
    for it in items:
        v = key(it)
        if top is None or (v > top if maximize else v < top):
            top, res = v, {it}
        elif v == top:
            res.add(it)
    return res


def thiele(fid):
    return lambda model, k: best(combos(model, k), lambda c: thiele_score(fid, model, c))


def lexcc(model, k):
    def vec(c):
        sizes = [(len(a & c), w) for a, w in model.voters]
        return tuple(sum(w for s, w in sizes if s >= ell) for ell in range(1, k + 1))

    return best(combos(model, k), vec)


def tied_top(model, score, k):
    """all k-subsets of the keys with maximal total score (score: dict cand -> value)"""
    if k == 0:
        return {frozenset()}
    order = sorted(score.values(), reverse=True)
    cut = order[k - 1]
    sure = frozenset(c for c, s in score.items() if s > cut)
    maybe = [c for c, s in score.items() if s == cut]
    if comb(len(maybe), k - len(sure)) > COMMITTEE_LIMIT:
        raise Discard("too many committees")
    return {sure | frozenset(x) for x in itertools.combinations(maybe, k - len(sure))}


def av_scores(model, cands=None):
    cands = range(model.m) if cands is None else cands
    return {c: sum(w for a, w in model.voters if c in a) for c in cands}


def av(model, k):
    return tied_top(model, av_scores(model), k)


def sav(model, k):
    score = {
        c: sum((Fraction(w, 1) / len(a) for a, w in model.voters if c in a), Fraction(0))
        for c in range(model.m)
    }
    for x, y in itertools.combinations(score.values(), 2):
        model.note_gap(x, y)
    return tied_top(model, score, k)


# ---------------------------------------------------------------- sequential rules


def explore(start, expand, limit=UNIVERSE_LIMIT):
    """Parallel-universes search. expand(state) -> (finished committees, successor states)."""
    seen, stack, res = {start}, [start], set()
    while stack:
        state = stack.pop()
        done, succ = expand(state)
        res |= done
        if len(res) > COMMITTEE_LIMIT:
            raise Discard("too many committees")
        for s in succ:
            if s not in seen:
                seen.add(s)
                if len(seen) > limit:
                    raise Discard("too many universes")
                stack.append(s)
    return res


def extremal(model, values, maximize):
    """keys with maximal/minimal value, recording near ties (for float algorithms)"""
    top = max(values.values()) if maximize else min(values.values())
    for v in values.values():
        model.note_gap(v, top)
    return [c for c, v in values.items() if v == top]


def seq_thiele(fid):
    f = thiele_weight(fid)

    def rule(model, k):
        def expand(com):
            if len(com) == k:
                return {com}, []
            gain = {c: 0 for c in range(model.m) if c not in com}
            for a, w in model.voters:
                g = w * f(len(a & com) + 1)
                for c in a:
                    if c in gain:
                        gain[c] += g
            return set(), [com | {c} for c in extremal(model, gain, True)]

        return explore(frozenset(), expand)

    return rule


def revseq_thiele(fid):
    f = thiele_weight(fid)

    def rule(model, k):
        def expand(com):
            if len(com) == k:
                return {com}, []
            loss = {c: 0 for c in com}
            for a, w in model.voters:
                both = a & com
                if both:
                    g = w * f(len(both))
                    for c in both:
                        loss[c] += g
            return set(), [com - {c} for c in extremal(model, loss, False)]

        return explore(frozenset(range(model.m)), expand)

    return rule


def phragmen_from(model, k, com, load):
    """sequential Phragmen starting from a partial committee and start loads"""
    weight = {c: sum(w for a, w in model.voters if c in a) for c in range(model.m)}

    def expand(state):
        com, load = state
        if len(com) == k:
            return {com}, []
        new = {}
        for c in range(model.m):
            if c not in com and weight[c] > 0:
                new[c] = (
                    1 + sum(w * load[i] for i, (a, w) in enumerate(model.voters) if c in a)
                ) / Fraction(weight[c])
        if not new:  # only unapproved candidates are left: all tied
            rest = [c for c in range(model.m) if c not in com]
            miss = k - len(com)
            if comb(len(rest), miss) > COMMITTEE_LIMIT:
                raise Discard("too many committees")
            return {com | frozenset(x) for x in itertools.combinations(rest, miss)}, []
        succ = []
        for c in extremal(model, new, False):
            nl = tuple(
                new[c] if c in a else load[i] for i, (a, _) in enumerate(model.voters)
            )
            succ.append((com | {c}, nl))
        return set(), succ

    return explore((com, load), expand)


def seqphragmen(model, k):
    return phragmen_from(model, k, frozenset(), tuple(Fraction(0) for _ in model.voters))


def mes_price(model, budget, c):
    """minimal rho with sum_v min(budget_v, rho * w_v) = 1 over the supporters of c, or None"""
    sup = [(budget[i], w) for i, (a, w) in enumerate(model.voters) if c in a]
    if sum(b for b, _ in sup) < 1:
        if sup and 1 - sum(b for b, _ in sup) <= FLOAT_GAP:
            model.near_tie = True
        return None
    sup.sort(key=lambda bw: Fraction(bw[0]) / bw[1])
    spent, weight = Fraction(0), sum(w for _, w in sup)
    for b, w in sup:
        rho = (1 - spent) / weight
        model.note_gap(b, rho * w)
        if b >= rho * w:
            return rho
        spent += b
        weight -= w
    return None


def mes(completion, unit_budget=None, record_incomplete=None):
    def rule(model, k):
        total = model.total()
        ub = Fraction(k) / total if unit_budget is None else unit_budget
        start = tuple(Fraction(w) * ub for _, w in model.voters)

        def expand(state):
            com, budget = state
            if len(com) == k:
                return {com}, []
            price = {}
            for c in range(model.m):
                if c not in com:
                    q = mes_price(model, budget, c)
                    if q is not None:
                        price[c] = q
            if price:
                succ = []
                for c in extremal(model, price, False):
                    nb = tuple(
                        b - min(b, price[c] * w) if c in a else b
                        for b, (a, w) in zip(budget, model.voters)
                    )
                    succ.append((com | {c}, nb))
                return set(), succ
            if completion is None:
                return {com}, []
            if completion == "seqphragmen":
                load = tuple(-b / Fraction(w) for b, (_, w) in zip(budget, model.voters))
                return phragmen_from(model, k, com, load), []
            if completion == "av":
                rest = av_scores(model, [c for c in range(model.m) if c not in com])
                return {com | x for x in tied_top(model, rest, k - len(com))}, []
            raise ValueError(completion)

        return explore((frozenset(), start), expand)

    return rule


def mes_increment(model, k):
    appr = model.approved()
    if len(appr) < k:
        rest = [c for c in range(model.m) if c not in appr]
        return {appr | frozenset(x) for x in itertools.combinations(rest, k - len(appr))}
    total = model.total()
    res = set()
    b = k
    while True:
        out = mes(None, unit_budget=Fraction(b) / total)(model, k)
        res |= {c for c in out if len(c) == k}
        if all(len(c) == k for c in out):
            return res
        b += 1
        if b > 400 * k:
            raise Discard("increment too long")


def enestroem(model, k):
    price = Fraction(model.total()) / k

    def expand(state):
        com, budget = state
        if len(com) == k:
            return {com}, []
        sup = {c: Fraction(0) for c in range(model.m) if c not in com}
        for i, (a, _) in enumerate(model.voters):
            for c in a:
                if c in sup:
                    sup[c] += budget[i]
        top = max(sup.values())
        model.note_gap(top, price)
        succ = []
        for c in extremal(model, sup, True):
            factor = (top - price) / top if top > price else 0
            nb = tuple(b * factor if c in a else b for b, (a, _) in zip(budget, model.voters))
            succ.append((com | {c}, nb))
        return set(), succ

    return explore((frozenset(), tuple(Fraction(w) for _, w in model.voters)), expand)


def consensus(model, k):
    total = model.total()

    def expand(state):
        com, budget = state
        if len(com) == k:
            return {com}, []
        budget = tuple(b + w for b, (_, w) in zip(budget, model.voters))
        for b in budget:
            model.note_gap(b, 0)
        sup = {c: Fraction(0) for c in range(model.m) if c not in com}
        payers = {c: [] for c in sup}
        for i, (a, _) in enumerate(model.voters):
            if budget[i] > 0:
                for c in a:
                    if c in sup:
                        sup[c] += budget[i]
                        payers[c].append(i)
        succ = []
        for c in extremal(model, sup, True):
            nb = list(budget)
            wsum = sum(model.voters[i][1] for i in payers[c])
            for i in payers[c]:
                nb[i] -= Fraction(model.voters[i][1] * total) / wsum
            succ.append((com | {c}, tuple(nb)))
        return set(), succ

    return explore((frozenset(), tuple(Fraction(0) for _ in model.voters)), expand)


def eph(model, k):
    rest = frozenset(range(model.m))
    if model.m == 1:
        return {rest}
    while True:
        sdv = {c: Fraction(0) for c in rest}
        avs = {c: 0 for c in rest}
        for a, w in model.voters:
            ra = a & rest
            for c in ra:
                sdv[c] += Fraction(w) / len(ra)
                avs[c] += w
        cut = sorted(sdv.values())[1]
        for v in sdv.values():
            model.note_gap(v, cut)
        elim = [c for c in sorted(rest) if sdv[c] <= cut]
        low = min(avs[c] for c in elim)
        elim = [c for c in elim if avs[c] == low]
        if len(rest) - len(elim) <= k:
            num = len(rest) - k
            if comb(len(elim), num) > COMMITTEE_LIMIT:
                raise Discard("too many committees")
            return {rest - frozenset(s) for s in itertools.combinations(elim, num)}
        rest = rest - frozenset(elim)


# ---------------------------------------------------------------- Monroe


def monroe_score(model, committee):
    """maximum number of voters assigned to an approved member in a balanced assignment"""
    coms = sorted(committee)
    n, k = len(model.voters), len(coms)
    low, over = divmod(n, k)
    adj = [[c for c in coms if c in a] for a, _ in model.voters]
    return _maxflow_monroe(adj, coms, low, over)


def _maxflow_monroe(adj, coms, low, over):
    n, k = len(adj), len(coms)
    idx = {c: 1 + n + j for j, c in enumerate(coms)}
    ov, sink = 1 + n + k, 2 + n + k
    size = sink + 1
    cap = [dict() for _ in range(size)]

    def edge(u, v, c):
        cap[u][v] = cap[u].get(v, 0) + c
        cap[v].setdefault(u, 0)

    for v, cs in enumerate(adj):
        edge(0, 1 + v, 1)
        for c in cs:
            edge(1 + v, idx[c], 1)
    for c in coms:
        edge(idx[c], sink, low)
        edge(idx[c], ov, 1)
    edge(ov, sink, over)
    flow = 0
    while True:
        parent = {0: None}
        queue = [0]
        for u in queue:
            for v, c in cap[u].items():
                if c > 0 and v not in parent:
                    parent[v] = u
                    queue.append(v)
        if sink not in parent:
            return flow
        v = sink
        while parent[v] is not None:
            u = parent[v]
            cap[u][v] -= 1
            cap[v][u] += 1
            v = u
        flow += 1


def monroe(model, k):
    cs = combos(model, k)
    if len(cs) * len(model.voters) > 6000:
        raise Discard("Monroe too large for the reference model")
    return best(cs, lambda c: monroe_score(model, c))


def greedy_monroe(model, k):
    """every outcome of Greedy Monroe over all ties between candidates and choices of voters"""
    n = len(model.voters)
    low, over = divmod(n, k)

    def expand(state):
        com, left = state
        t = len(com)
        if t == k:
            return {com}, []
        quota = low + 1 if t < over else low
        cnt = {
            c: sum(1 for v in left if c in model.voters[v][0])
            for c in range(model.m)
            if c not in com
        }
        top = max(cnt.values())
        succ = []
        for c, x in cnt.items():
            if x != top:
                continue
            sup = [v for v in left if c in model.voters[v][0]]
            if len(sup) > quota:
                if comb(len(sup), quota) > 200:
                    raise Discard("too many voter choices")
                for out in itertools.combinations(sup, quota):
                    succ.append((com | {c}, left - frozenset(out)))
            else:
                succ.append((com | {c}, left - frozenset(sup)))
        return set(), succ

    return explore((frozenset(), frozenset(range(n))), expand, limit=20000)


# ---------------------------------------------------------------- minimax AV


def distances(model, c):
    return [len(a ^ c) for a, _ in model.voters]


def minimaxav(model, k):
    return best(combos(model, k), lambda c: max(distances(model, c)), maximize=False)


def lexminimaxav(model, k):
    return best(
        combos(model, k), lambda c: tuple(sorted(distances(model, c), reverse=True)), False
    )


# ---------------------------------------------------------------- Phragmen optimisation, MMS


def _neigh_weight(model):
    cache = {}

    def weight(mask_voters):
        if mask_voters not in cache:
            cache[mask_voters] = sum(
                w for i, (_, w) in enumerate(model.voters) if mask_voters >> i & 1
            )
        return cache[mask_voters]

    masks = []
    for c in range(model.m):
        m = 0
        for i, (a, _) in enumerate(model.voters):
            if c in a:
                m |= 1 << i
        masks.append(m)
    return masks, weight


def _subset_unions(cands, masks):
    """list of (size, union mask) over all nonempty subsets"""
    res = [(0, 0, ())]
    for c in cands:
        res += [(s + 1, u | masks[c], t + (c,)) for s, u, t in res]
    return res[1:]


def _too_few(model, k):
    appr = model.approved()
    rest = [c for c in range(model.m) if c not in appr]
    return {appr | frozenset(x) for x in itertools.combinations(rest, k - len(appr))}


def minimaxphragmen(model, k):
    if len(model.approved()) < k:
        return _too_few(model, k)
    masks, weight = _neigh_weight(model)

    def load(c):
        if any(masks[x] == 0 for x in c):
            return None
        return max(Fraction(s) / weight(u) for s, u, _ in _subset_unions(c, masks))

    vals = {c: load(c) for c in combos(model, k)}
    vals = {c: v for c, v in vals.items() if v is not None}
    low = min(vals.values())
    for v in vals.values():
        if v != low and v - low < Fraction(1, 10**5):
            model.near_tie = True
    return {c for c, v in vals.items() if v == low}


def balanced_loads(model, committee, masks, weight):
    """loads (one per voter) of the lexicographically optimal balanced distribution"""
    load = [Fraction(0)] * len(model.voters)
    rest, gone = list(committee), 0
    while rest:
        top, pick = None, None
        for s, u, t in _subset_unions(rest, [m & ~gone for m in masks]):
            if u == 0:
                return None
            d = Fraction(s) / weight(u)
            if top is None or d > top or (d == top and s > len(pick[1])):
                top, pick = d, (u, t)
        u, t = pick
        for i in range(len(model.voters)):
            if u >> i & 1:
                load[i] = top
        gone |= u
        rest = [c for c in rest if c not in t]
    return load


def leximaxphragmen(model, k):
    if len(model.approved()) < k:
        return _too_few(model, k)
    masks, weight = _neigh_weight(model)
    vecs = {}
    for c in combos(model, k):
        if any(masks[x] == 0 for x in c):
            continue
        load = balanced_loads(model, c, masks, weight)
        vecs[c] = tuple(sorted(load, reverse=True))
    low = min(vecs.values())
    for v in vecs.values():
        for x, y in zip(v, low):
            if x != y:
                if abs(x - y) < Fraction(1, 10**5):
                    model.near_tie = True
                break
    return {c for c, v in vecs.items() if v == low}


def maximin_support(model, k):
    masks, weight = _neigh_weight(model)
    memo = {}

    def support(c):
        if c not in memo:
            memo[c] = min(Fraction(weight(u)) / s for s, u, _ in _subset_unions(c, masks))
        return memo[c]

    def expand(com):
        if len(com) == k:
            return {com}, []
        val = {c: support(com | {c}) for c in range(model.m) if c not in com}
        top = max(val.values())
        for v in val.values():
            if v != top and top - v < Fraction(1, 10**5):
                model.near_tie = True
        return set(), [com | {c} for c, v in val.items() if v == top]

    return explore(frozenset(), expand)


def trivial(model, k):
    return set(combos(model, k))


def rsd(model, k):
    """all possible outcomes of random serial dictatorship"""

    def expand(state):
        com, left = state
        if len(com) == k:
            return {com}, []
        if not left:
            rest = [c for c in range(model.m) if c not in com]
            return {com | frozenset(x) for x in itertools.combinations(rest, k - len(com))}, []
        succ = []
        for v in left:
            new = set(com)
            for c in sorted(model.voters[v][0]):
                if len(new) < k:
                    new.add(c)
            succ.append((frozenset(new), left - {v}))
        return set(), succ

    return explore((frozenset(), frozenset(range(len(model.voters)))), expand, limit=30000)


_TABLE = {
    "av": av,
    "sav": sav,
    "pav": thiele("pav"),
    "slav": thiele("slav"),
    "cc": thiele("cc"),
    "lexcc": lexcc,
    "seqphragmen": seqphragmen,
    "minimaxphragmen": minimaxphragmen,
    "leximaxphragmen": leximaxphragmen,
    "maximin-support": maximin_support,
    "monroe": monroe,
    "greedy-monroe": greedy_monroe,
    "minimaxav": minimaxav,
    "lexminimaxav": lexminimaxav,
    "equal-shares": mes("seqphragmen"),
    "rule-x": mes("seqphragmen"),
    "equal-shares-with-seqphragmen-completion": mes("seqphragmen"),
    "equal-shares-with-av-completion": mes("av"),
    "equal-shares-with-increment-completion": mes_increment,
    "equal-shares-without-completion": mes(None),
    "rule-x-without-phragmen-phase": mes(None),
    "equal-shares-without-phragmen-phase": mes(None),
    "phragmen-enestroem": enestroem,
    "consensus-rule": consensus,
    "trivial": trivial,
    "rsd": rsd,
    "eph": eph,
}

_cache = {}


def winners(rule_id, model, k):
    key = (rule_id, model.key(), k)
    if key in _cache:
        res, near = _cache[key]
        if isinstance(res, Discard):
            raise res
        model.near_tie = near
        return res
    model.near_tie = False
    fn = _TABLE.get(rule_id)
    if fn is None:
        if rule_id.startswith("geom"):
            fn = thiele(rule_id)
        elif rule_id.startswith("revseq"):
            fn = revseq_thiele(rule_id[6:])
        elif rule_id.startswith("seq"):
            fn = seq_thiele(rule_id[3:])
        else:
            raise ValueError(f"no reference model for rule {rule_id}")
    try:
        res = fn(model, k)
    except Discard as d:
        _cache[key] = (d, False)
        raise
    if len(_cache) > 2000:
        _cache.clear()
    _cache[key] = (res, model.near_tie)
    return res
