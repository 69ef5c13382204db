"""Seeded generators of elections (plain data)."""

RULE_WEIGHTS = ("unit", "int", "frac", "tiny", "large", "big", "huge")


def weight(rng, mode):
    if mode == "unit":
        return 1
    if mode == "int":
        return rng.choice((1, 1, 2, 2, 3, 4, 5))
    if mode == "frac":
        return rng.choice((1, 2, "1/2", "1/3", "2/3", "3/2", "5/4", "1/4", "7/3"))
    if mode == "tiny":
        return rng.choice(("1/20", "1/20", "1/10", "1/30", "1/15", "1/50"))
    if mode == "large":
        return rng.choice((1, 997, 998, 999, 1000, 1001, 250, 500, 3))
    if mode == "big":  # solvers with a relative gap of 1e-8 still distinguish such scores
        return rng.choice((10_000, 10_001, 9_999, 12_345, 5_000, 1, 2, 3))
    if mode == "huge":
        return rng.choice((10**6, 10**6 + 1, 999_999, 10**7 - 1, 10**7, 31_415_927, 1, 2))
    raise ValueError(mode)


def ballots(rng, m, n, style):
    """n approval lists over range(m)"""
    full = list(range(m))
    if style == "party":
        cuts = sorted(rng.sample(range(1, m), min(m - 1, rng.randint(1, 3)))) if m > 1 else []
        parts = [full[a:b] for a, b in zip([0] + cuts, cuts + [m])]
        return [list(rng.choice(parts)) for _ in range(n)]
    if style == "cycle":
        ln = rng.randint(1, max(1, min(m, 3)))
        return [[(i + j) % m for j in range(ln)] for i in range(n)]
    if style == "few":
        pool = [sorted(rng.sample(full, rng.randint(1, m))) for _ in range(rng.randint(1, 3))]
        return [list(rng.choice(pool)) for _ in range(n)]
    if style == "clones":
        a = sorted(rng.sample(full, rng.randint(1, m)))
        res = [list(a) for _ in range(n - 1)]
        return res + [sorted(rng.sample(full, rng.randint(0, m)))]
    if style == "singletons":
        return [[rng.randrange(m)] for _ in range(n)]
    if style == "laminar":
        base = sorted(rng.sample(full, rng.randint(1, max(1, m // 2))))
        rest = [c for c in full if c not in base]
        return [
            sorted(base + rng.sample(rest, rng.randint(0, len(rest))))
            if rng.random() < 0.6
            else sorted(rng.sample(full, rng.randint(1, m)))
            for _ in range(n)
        ]
    if style == "overlap":
        sets = []
        for _ in range(n):
            start = rng.randrange(m)
            sets.append(sorted({(start + j) % m for j in range(rng.randint(1, max(1, m - 1)))}))
        return sets
    if style == "dense":
        return [sorted(c for c in full if rng.random() < 0.75) for _ in range(n)]
    if style == "sparse":
        return [sorted(c for c in full if rng.random() < 0.25) for _ in range(n)]
    return [sorted(rng.sample(full, rng.randint(0, m))) for _ in range(n)]


STYLES = (
    "random", "random", "random", "sparse", "dense", "party", "cycle", "few", "clones",
    "singletons", "laminar", "overlap",
)  # fmt: skip


def election(rng, max_m=6, max_n=6, min_m=1, min_n=1, weights=("unit",), names=True):
    m = rng.randint(min_m, max_m)
    n = rng.randint(min_n, max_n)
    style = rng.choice(STYLES)
    bs = ballots(rng, m, n, style)
    if rng.random() < 0.15 and m > 1:  # nobody approves some candidate
        gone = rng.randrange(m)
        bs = [[c for c in b if c != gone] for b in bs]
    if rng.random() < 0.1:
        bs[rng.randrange(n)] = []
    perm = list(range(m))
    rng.shuffle(perm)
    bs = [sorted(perm[c] for c in b) for b in bs]
    mode = rng.choice(weights)
    voters = [{"a": b, "w": weight(rng, mode)} for b in bs]
    if mode != "unit" and rng.random() < 0.2:
        voters = [{"a": v["a"], "w": voters[0]["w"]} for v in voters]
    res = {"m": m, "voters": voters, "names": None}
    if names and rng.random() < 0.3:
        res["names"] = rng.sample(["a", "b", "c", "d", "e", "f", "g", "h", "x y", "é", "10", "Z"], m) if m <= 12 else None  # fmt: skip
        if res["names"] and rng.random() < 0.15:  # names need not be different
            res["names"] = [rng.choice(res["names"][: 1 + m // 2]) for _ in range(m)]
    return res


def wide(rng, weights=("unit",), min_m=9, max_m=13, max_n=26, names=True):
    """an election with two-digit candidate indices or many voters"""
    m = rng.randint(min_m, max_m)
    mode = rng.choice(weights)
    hot = rng.sample(range(m), rng.randint(2, min(m, 6)))
    if m > 10 and rng.random() < 0.5:  # candidates whose indices share digits
        hot = [1, rng.randrange(10, m), 11, 2, rng.randrange(10, m), rng.randrange(10), 12]
        hot = sorted({c for c in hot[: rng.randint(2, 6)] if c < m})
        if len(hot) < 2:
            hot = [1, 10]
    style = rng.choice(("mixed", "mixed", "ties", "blocks"))
    ballots = []
    if style == "mixed":
        for _ in range(rng.randint(2, max_n)):
            a = {c for c in hot if rng.random() < 0.5} | set(rng.sample(range(m), rng.choice((0, 1, 1, 2, 3))))
            ballots.append(sorted(a))
    elif style == "ties":
        for _ in range(rng.randint(2, 7)):
            ballots.append(sorted(rng.sample(hot, rng.randint(1, min(2, len(hot))))))
    else:
        rng.shuffle(hot)
        if m > 11 and rng.random() < 0.4:
            hot = rng.sample([1, 11], 2)
        n = rng.choice((rng.randint(2, max_n), 20, 22, 24, 26))
        cuts = sorted(rng.randint(0, n) for _ in range(len(hot) - 1)) if rng.random() < 0.5 else [n // 2]
        for c, (a, b) in zip(hot, zip([0] + cuts, cuts + [n])):
            ballots += [[c]] * (b - a)
        ballots += [[hot[0]]] * (n - len(ballots))
        if rng.random() < 0.5:
            ballots[rng.randrange(n)] = sorted(rng.sample(range(m), 2))
    voters = [{"a": list(b), "w": weight(rng, mode)} for b in ballots]
    res = {"m": m, "voters": voters, "names": None, "wide": True}
    if names and rng.random() < 0.3:
        res["names"] = [f"c{i}" for i in rng.sample(range(100), m)]
    return res
