"""Random profiles and points: histories of generator calls under a controlled seed."""

import hashlib
import itertools
import json
import math
import os
import random
import subprocess
import sys

from sim import env, session
from sim.core import REPO, Discard, Violation, jdump

CASES = {"quick": 6000, "thorough": 60000}
LEVEL = "exploration"
CASE_LIMIT = 90.0
RULE = (
    "a case is a seeded history of 1-6 calls of the profile and point generators (every model, edge-case "
    "parameters) under a seed of generate.rng; structure of each result is checked against its "
    "parameters, the history is re-run under the same seed with foreign uses of random/numpy.random in "
    "between and after a call cut off at a chosen line of library or sampling code, and for some cases "
    "in another process with other hash randomisation; large profiles and samples of points have the "
    "frequencies of their model's parameters (Chernoff bounds, error below e^-40); non-trivial: at least one generated object was judged"
)
STATES = "distinct (model, #voters, #candidates, edge parameters) generated"
REAL = ["abcvoting.generate", "abcvoting.preferences", "prefsampling", "numpy"]
STUB = []
ASSUMPTIONS = ["numpy generators are deterministic for a given seed",
               "two draws with at least 60 bits of entropy coincide with negligible probability"]  # fmt: skip

POINTS = ("1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_disc", "2d_square",
          "2d_gaussian", "2d_gaussian_disc", "3d_cube")  # fmt: skip
MODELS = ("IC fixed-size", "IC", "Truncated Mallows", "Urn fixed-size", "Urn", "Truncated Urn",
          "Euclidean VCR", "Euclidean fixed-size", "Euclidean Threshold", "Resampling",
          "Disjoint Resampling", "Noise")  # fmt: skip
DIRECT = {
    "IC fixed-size": "random_ic_fixed_size_profile", "IC": "random_ic_profile",
    "Truncated Mallows": "random_mallows_profile", "Urn fixed-size": "random_urn_fixed_size_profile",
    "Urn": "random_urn_profile", "Truncated Urn": "random_truncated_urn_profile",
    "Euclidean VCR": "random_euclidean_vcr_profile",
    "Euclidean fixed-size": "random_euclidean_fixed_size_profile",
    "Euclidean Threshold": "random_euclidean_threshold_profile",
    "Resampling": "random_resampling_profile",
    "Disjoint Resampling": "random_disjoint_resampling_profile", "Noise": "random_noise_model_profile",
}  # fmt: skip


def setup():
    env.install_fakes()


def random_dist(rng, dim=None):
    name = rng.choice([x for x in POINTS if dim is None or int(x[0]) == dim])
    d = int(name[0])
    center = rng.choice((0.5, 0, -2.25, 1))
    if rng.random() < 0.5:
        center = [rng.choice((0, 1, -1.5, 4)) for _ in range(d)]
    return {"name": name, "center": center, "sigma": rng.choice((0.15, 0.4, 1.0)),
            "width": rng.choice((1.0, 0.5, 2, 3.5))}  # fmt: skip


def random_gen(rng):
    model = rng.choice(MODELS)
    n = rng.choice((1, 2, 3, 5, 8, 20))
    m = rng.choice((1, 2, 3, 4, 5, 7, 10, 12, 25, 49, 60))
    op = {"op": "gen", "model": model, "n": n, "m": m, "via": rng.choice(("dict", "direct", "kw"))}
    par = {}
    prob = rng.choice((0, 1, 0.5, 0.3, 0.05, 0.9, 1 / 3))
    if model in ("IC fixed-size", "Truncated Mallows", "Urn fixed-size", "Truncated Urn",
                 "Euclidean fixed-size"):  # fmt: skip
        par["setsize"] = rng.choice((1, m, max(1, m - 1), rng.randint(1, m), rng.randint(0, m)))
    if model == "IC":
        if rng.random() < 0.8:
            par["p"] = prob
    elif model == "Truncated Mallows":
        par["dispersion"] = rng.choice((0, 0.5, 1, 0.2))
        op["m"] = min(op["m"], 25)
        par["setsize"] = min(par["setsize"], op["m"])
    elif model in ("Urn fixed-size", "Truncated Urn"):
        par["replace"] = rng.choice((0.0, 0.1, 1.0, 2.5))
    elif model == "Urn":
        par.update(p=prob, replace=rng.choice((0.0, 0.1, 1.0, 2.5)))
    elif model in ("Resampling", "Noise"):
        par.update(p=prob, phi=rng.choice((0, 1, 0.5, 0.1)))
        if model == "Noise":
            op["m"] = min(op["m"], 12)
            if rng.random() < 0.7:
                par["distance"] = rng.choice(("hamming", "jaccard", "zelinka", "bunke-shearer"))
    elif model == "Disjoint Resampling":
        groups = rng.choice((1, 2, 3, 4))
        par.update(p=rng.choice((0, 0.1, 0.25, round(1 / groups, 2) - 0.01, 1 / groups)))
        if par["p"] * groups > 1:
            par["p"] = 0.1
        if rng.random() < 0.8:
            par["phi"] = rng.choice((0, 1, 0.5, 0.1))
        if rng.random() < 0.8 or par["p"] > 0.5:
            par["num_groups"] = groups
    elif model.startswith("Euclidean"):
        op["m"] = min(op["m"], 12)
        dim = rng.choice((1, 2, 3))
        par["voter_prob_distribution"] = random_dist(rng, dim)
        par["candidate_prob_distribution"] = random_dist(rng, dim)
        if "setsize" in par:
            par["setsize"] = min(par["setsize"], op["m"])
        if model == "Euclidean Threshold":
            par["threshold"] = rng.choice((1, 1.0, 1.2, 1.5, 3))
        if model == "Euclidean VCR":
            par["voter_radius"] = rng.choice((0, 0.2, 0.5, 2.0))
            par["candidate_radius"] = rng.choice((0, 0.1, 0.5))
            if rng.random() < 0.4:
                par["voter_radius"] = [rng.choice((0, 0.1, 0.5, 1.0)) for _ in range(n)]
            if rng.random() < 0.4:
                par["candidate_radius"] = [rng.choice((0, 0.1, 0.5)) for _ in range(op["m"])]
        for who, number in (("voter", n), ("candidate", op["m"])):
            if rng.random() < 0.3:
                par[who + "_points"] = [[round(rng.uniform(-1, 2), 3) for _ in range(dim)]
                                        for _ in range(number)]  # fmt: skip
                if rng.random() < 0.6:
                    par[who + "_prob_distribution"] = None
        par["return_points"] = rng.random() < 0.8
    op["par"] = par
    return op


def random_many(rng):
    """a call that generates enough for the frequencies to be compared with the parameters"""
    if rng.random() < 0.25:
        return {"op": "point", "dist": random_dist(rng), "n": rng.choice((100, 300))}
    while True:
        op = random_gen(rng)
        par, model = op["par"], op["model"]
        if model.startswith("Euclidean") and rng.random() < 0.5:
            continue
        op["m"] = rng.randint(2, 6) if model == "Noise" else rng.randint(2, 12)
        op["n"] = rng.choice((400, 800) if model != "Noise" else (1000, 2500)) if not model.startswith("Euclidean") else 200
        if "setsize" in par:
            par["setsize"] = 1 if model == "Truncated Mallows" and rng.random() < 0.5 else rng.randint(1, op["m"])
        if "replace" in par:
            par["replace"] = 0.0
        if model.startswith("Euclidean"):
            for key in ("voter_points", "candidate_points"):
                par.pop(key, None)
            dim = rng.choice((1, 2, 3))
            par["voter_prob_distribution"], par["candidate_prob_distribution"] = random_dist(rng, dim), random_dist(rng, dim)
            par["return_points"] = True
            for who in ("voter", "candidate"):
                if who + "_radius" in par:
                    par[who + "_radius"] = rng.choice((0, 0.2, 0.5))
        elif model in ("IC", "Urn", "Resampling", "Noise"):
            par["p"] = rng.choice((0.2, 0.3, 0.5, 0.7, 0.9))
            if model == "Noise":
                par["phi"] = rng.choice((0.05, 0.1, 0.5, 1))
        if legal(op):
            return op


def generate(rng, tier, index):
    ops = []
    if rng.random() < 0.15:
        return {"ops": [random_many(rng)], "seed": rng.randrange(1 << 31), "noise": [0, 0], "process": False}
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        if rng.random() < 0.15:
            ops.append({"op": "point", "dist": random_dist(rng)})
        else:
            ops.append(random_gen(rng))
        if rng.random() < 0.2:
            ops.append(json.loads(json.dumps(ops[-1])))
    wl = {"ops": ops, "seed": rng.randrange(1 << 31),
          "noise": [rng.randrange(5) for _ in range(len(ops) + 1)]}  # fmt: skip
    if rng.random() < 0.5:
        wl["cut"] = {**session.random_cut(rng, ("kbd", "mem", "sys"), 3.0), "op": rng.randrange(len(ops))}
    wl["process"] = rng.random() < 0.012
    return wl


# ---------------------------------------------------------------- running the library


def make_dist(spec):
    from abcvoting.generate import PointProbabilityDistribution

    if spec is None:
        return None
    return PointProbabilityDistribution(spec["name"], center_point=spec["center"],
                                        sigma=spec["sigma"], width=spec["width"])  # fmt: skip


def perform(op):
    """the raw return value of one generator call"""
    from abcvoting import generate as gen

    if op["op"] == "point":
        dist = make_dist(op["dist"])
        return gen.random_point(dist) if "n" not in op else [gen.random_point(dist) for _ in range(op["n"])]
    par = dict(op["par"])
    for key in ("voter_prob_distribution", "candidate_prob_distribution"):
        if key in par:
            par[key] = make_dist(par[key])
    if op["via"] == "dict":
        return gen.random_profile(op["n"], op["m"], {"id": op["model"], **par})
    func = getattr(gen, DIRECT[op["model"]])
    if op["via"] == "kw":
        return func(num_voters=op["n"], num_cand=op["m"], **par)
    return func(op["n"], op["m"], **par)


def canonical(result):
    """plain data describing everything observable about a result"""
    if isinstance(result, tuple):
        return ["points"] + [canonical(x) for x in result]
    if hasattr(result, "num_cand"):
        return ["profile", result.num_cand, [str(x) for x in result.cand_names],
                [[sorted(int(c) for c in v.approved), str(v.weight)] for v in result]]  # fmt: skip
    import numpy as np

    return ["array", [float(x).hex() for x in np.asarray(result, dtype=float).ravel()]]


def run(ops, seed, noise=None):
    from numpy.random import default_rng

    from abcvoting import generate as gen

    gen.rng = default_rng(seed)
    results = []
    for i, op in enumerate(ops):
        if noise is not None:
            foreign(noise[i])
        results.append(perform(op))
    return results


def foreign(kind):
    """someone else uses the global random sources"""
    import numpy as np

    if kind == 1:
        random.seed(7)
        random.random()
    elif kind == 2:
        np.random.seed(5)
        np.random.rand(3)
    elif kind == 3:
        import abcvoting.abcrules as abcrules
        from abcvoting.preferences import Profile

        p = Profile(4)
        p.add_voters([[0], [1, 2], []])
        abcrules.compute("rsd", p, 3)
    elif kind == 4:
        random.shuffle(list(range(9)))
        np.random.shuffle(np.arange(9))
        hash(str(kind))


# ---------------------------------------------------------------- judging


def distances(voters, cands):
    import numpy as np

    voters, cands = np.asarray(voters, dtype=float), np.asarray(cands, dtype=float)
    return [[float(np.linalg.norm(v - c)) for c in cands] for v in voters]


def inside(spec, points, where):
    import numpy as np

    points = np.asarray(points, dtype=float)
    dim = int(spec["name"][0])
    center = np.array(spec["center"], dtype=float) * np.ones(dim)
    off = points.reshape(-1, dim) - center
    half = spec["width"] / 2 + 1e-9
    if not np.isfinite(points).all():
        raise Violation("points", f"{where}: not finite: {points}")
    kind = spec["name"][3:]
    if kind in ("interval", "square", "cube", "gaussian_interval"):
        ok = (np.abs(off) <= half).all()
    elif kind in ("disc", "gaussian_disc"):
        ok = (np.linalg.norm(off, axis=1) <= half).all()
    else:
        ok = (np.abs(off) <= 40 * spec["sigma"]).all()
    if not ok:
        raise Violation("points", f"{where}: points outside {spec}: {points[:4]}")


def judge(op, result, where, ctx):
    import numpy as np

    if op["op"] == "point":
        dim = int(op["dist"]["name"][0])
        if np.asarray(result).shape != ((dim,) if "n" not in op else (op["n"], dim)):
            raise Violation("points", f"{where}: shape {np.asarray(result).shape}")
        inside(op["dist"], result, where)
        if op.get("n", 0) >= 100:
            spread(op["dist"], result, where)
            ctx.count("frequency_checks")
        ctx.state("point", op["dist"]["name"], op["dist"]["width"])
        return
    par, n, m, model = op["par"], op["n"], op["m"], op["model"]
    points = None
    if par.get("return_points"):
        if not isinstance(result, tuple) or len(result) != 3:
            raise Violation("shape", f"{where}: return_points gave {type(result).__name__}")
        result, *points = result
    from abcvoting.preferences import Profile

    if not isinstance(result, Profile):
        raise Violation("shape", f"{where}: {type(result).__name__} returned")
    ballots = [set(int(c) for c in v.approved) for v in result]
    if len(ballots) != n or len(result) != n or result.num_cand != m:
        raise Violation("size", f"{where}: {len(ballots)} voters, {result.num_cand} candidates")
    if any(not b <= set(range(m)) for b in ballots) or any(v.weight != 1 for v in result):
        raise Violation("ballots", f"{where}: illegal ballots or weights {ballots}")
    if list(result.cand_names) != [str(c) for c in range(m)]:
        raise Violation("size", f"{where}: candidate names {result.cand_names}")
    if "setsize" in par and any(len(b) != par["setsize"] for b in ballots):
        raise Violation("setsize", f"{where}: ballots of sizes {sorted({len(b) for b in ballots})}")
    if model in ("IC", "Urn"):
        for edge in (0, 1):
            if par.get("p") == edge and any(len(b) != edge * m for b in ballots):
                raise Violation("ballots", f"{where}: p={edge} but ballots {ballots}")
    if model == "Truncated Mallows" and par["dispersion"] == 0 and len(set(map(frozenset, ballots))) > 1:
        raise Violation("ballots", f"{where}: no dispersion but ballots {ballots}")
    if model in ("Resampling", "Noise") and par["phi"] == 0:
        if any(b != ballots[0] or abs(len(b) - par["p"] * m) >= 1 for b in ballots):
            raise Violation("ballots", f"{where}: phi=0 but ballots {ballots}")
    if model == "Resampling" and par["phi"] == 1 and par["p"] in (0, 1):
        if any(len(b) != par["p"] * m for b in ballots):
            raise Violation("ballots", f"{where}: phi=1, p={par['p']} but ballots {ballots}")
    if model == "Disjoint Resampling" and par.get("phi") == 0:
        kinds = set(map(frozenset, ballots))
        if (len(kinds) > par.get("num_groups", 2) or any(a & b for a in kinds for b in kinds if a != b)
                or any(abs(len(b) - par["p"] * m) >= 1 for b in kinds)):  # fmt: skip
            raise Violation("ballots", f"{where}: phi=0 but ballots {ballots}")
    if n >= 200:
        frequencies(op, ballots, where)
        ctx.count("frequency_checks")
    if points is not None:
        euclidean(op, ballots, points, where)
        if n >= 100 and not par.get("voter_points"):
            spread(par["voter_prob_distribution"], points[0], where)
    # high-entropy draws of different voters do not coincide
    if model == "IC" and par.get("p", 0.5) == 0.5 and m >= 60 and len(set(map(frozenset, ballots))) < n:
        raise Violation("not-fresh", f"{where}: two of {n} voters drew the same ballot over {m} candidates")
    edge = tuple(sorted((k, str(v)) for k, v in par.items() if not isinstance(v, (list, dict))))
    ctx.state(model, n, m, edge)
    ctx.count("model_" + model.replace(" ", "_"))


def plausible(count, n, prob):
    """Chernoff bound: a count of n independent events of probability prob lies outside with
    probability below exp(-40)"""
    x = count / n
    if not 0 < prob < 1:
        return x == prob
    rate = (x * math.log(x / prob) if x else 0) + ((1 - x) * math.log((1 - x) / (1 - prob)) if x < 1 else 0)
    return n * rate <= 40


def frequencies(op, ballots, where):
    """how often each candidate is approved, compared with the parameters of the model"""
    par, n, m, model = op["par"], op["n"], op["m"], op["model"]
    counts = sorted(sum(c in b for b in ballots) for c in range(m))
    options = None
    if model == "IC" or (model == "Urn" and par["replace"] == 0):
        options = [[par.get("p", 0.5)] * m]
    elif (model == "IC fixed-size" or (model in ("Urn fixed-size", "Truncated Urn") and par["replace"] == 0)
          or (model == "Truncated Mallows" and par["dispersion"] == 1)):  # fmt: skip
        options = [[par["setsize"] / m] * m]
    elif model == "Truncated Mallows" and par["setsize"] == 1:
        powers = [par["dispersion"] ** i for i in range(m)]
        options = [[x / sum(powers) for x in powers]]
    elif model == "Resampling":
        p, phi = par["p"], par["phi"]
        options = [[1 - phi + phi * p] * k + [phi * p] * (m - k) for k in sizes(p * m)]
    elif model == "Disjoint Resampling" and "phi" in par:
        p, phi, groups = par["p"], par["phi"], par.get("num_groups", 2)
        options = [[phi * p + (1 - phi) / groups] * (groups * k) + [phi * p] * (m - groups * k)
                   for k in sizes(p * m) if groups * k <= m]  # fmt: skip
    elif model == "Noise" and par["phi"] > 0 and (par.get("distance", "hamming") == "hamming" or par["p"] * m >= 1):
        laws = [noise_law(m, k, par["phi"], par.get("distance", "hamming")) for k in sizes(par["p"] * m)]
        options = [law[0] for law in laws]
        by_size = [sum(len(b) == x for b in ballots) for x in range(m + 1)]
        if not any(all(plausible(c, n, p) for c, p in zip(by_size, law[1])) for law in laws):
            raise Violation("frequency", f"{where}: ballots of sizes 0-{m} occur {by_size} times, expected "
                            f"frequencies {[round(x, 3) for x in laws[0][1]]}")  # fmt: skip
    if options and not any(all(plausible(c, n, min(1, p)) for c, p in zip(counts, sorted(o))) for o in options):
        raise Violation("frequency", f"{where}: {n} voters approve the candidates {counts} times, "
                        f"expected frequencies {[round(x, 3) for x in sorted(options[0])]}")  # fmt: skip


def sizes(x):
    return [k for k in (math.floor(x), math.ceil(x)) if k >= 0]


def noise_law(m, k, phi, distance):
    """probability that a candidate is approved, and of each ballot size, if ballots have weight
    phi ** distance(ballot, {0..k-1})"""
    total, marginals, by_size = 0.0, [0.0] * m, [0.0] * (m + 1)
    for size in range(m + 1):
        for ballot in itertools.combinations(range(m), size):
            common, largest = sum(c < k for c in ballot), max(k, size)
            if distance == "hamming":
                d = k + size - 2 * common
            elif distance == "jaccard":
                d = 1 - common / (k + size - common)
            elif distance == "zelinka":
                d = largest - common
            else:
                d = 1 - common / largest
            total += phi**d
            by_size[size] += phi**d
            for c in ballot:
                marginals[c] += phi**d
    return [x / total for x in marginals], [x / total for x in by_size]


def spread(spec, points, where):
    """how many of the points are close to the centre, and on either side of it"""
    import numpy as np

    dim = int(spec["name"][0])
    off = np.asarray(points, dtype=float).reshape(-1, dim) - np.array(spec["center"], dtype=float) * np.ones(dim)
    n, kind, quarter, sigma = len(off), spec["name"][3:], spec["width"] / 4, spec["sigma"]
    radius = np.linalg.norm(off, axis=1)

    def normal(x):
        return math.erf(x / math.sqrt(2))

    if kind in ("interval", "square", "cube"):
        tests = [(np.abs(off[:, i]) <= quarter, 0.5) for i in range(dim)]
    elif kind == "gaussian_interval":
        tests = [(np.abs(off[:, 0]) <= quarter, normal(quarter / sigma) / normal(2 * quarter / sigma))]
    elif kind == "disc":
        tests = [(radius <= quarter, 0.25)]
    elif kind == "gaussian_disc":
        tests = [(radius <= quarter, (1 - math.exp(-((quarter / sigma) ** 2) / 2)) / (1 - math.exp(-((2 * quarter / sigma) ** 2) / 2)))]
    else:
        tests = [(np.abs(off[:, i]) <= sigma / 2, normal(0.5)) for i in range(dim)]
        tests += [(np.abs(off[:, i]) <= 1.5 * sigma, normal(1.5)) for i in range(dim)]
    tests += [(off[:, i] > 0, 0.5) for i in range(dim)]
    for hits, prob in tests:
        if not plausible(int(hits.sum()), n, prob):
            raise Violation("frequency", f"{where}: {int(hits.sum())} of {n} points of {spec} where {prob:.3f} is expected")


def euclidean(op, ballots, points, where):
    import numpy as np

    par, n, m = op["par"], op["n"], op["m"]
    for who, pts, number in (("voter", points[0], n), ("candidate", points[1], m)):
        if np.asarray(pts).shape[0] != number:
            raise Violation("points", f"{where}: {np.asarray(pts).shape} {who} points")
        given = par.get(who + "_points")
        if given is not None:
            if not np.array_equal(np.asarray(pts, dtype=float), np.asarray(given, dtype=float)):
                raise Violation("points", f"{where}: given {who} points were changed")
            continue
        inside(par[who + "_prob_distribution"], pts, where)
        flat = [tuple(x) for x in np.asarray(pts).tolist()]
        if len(set(flat)) < len(flat):
            raise Violation("not-fresh", f"{where}: two {who}s got the same point")
    a, b = (set(map(tuple, np.asarray(x).tolist())) for x in points)
    if not par.get("voter_points") and not par.get("candidate_points"):
        if a & b:
            raise Violation("not-fresh", f"{where}: a voter and a candidate got the same point")
    dist = distances(*points)
    for i, ballot in enumerate(ballots):
        d = dist[i]
        if op["model"] == "Euclidean fixed-size":
            inner = max((d[c] for c in ballot), default=0)
            outer = min((d[c] for c in range(m) if c not in ballot), default=inner)
            ok = inner <= outer + 1e-9
        else:
            if op["model"] == "Euclidean Threshold":
                bound = [min(d) * par["threshold"]] * m
            else:
                rv, rc = par["voter_radius"], par["candidate_radius"]
                rv = rv[i] if isinstance(rv, list) else rv
                bound = [rv + (rc[c] if isinstance(rc, list) else rc) for c in range(m)]
            ok = all((c in ballot) == (d[c] <= bound[c]) or abs(d[c] - bound[c]) < 1e-9 for c in range(m))
        if not ok:
            raise Violation("ballots", f"{where}: voter {i} approves {sorted(ballot)} at distances {d}")


def entropy(op):
    """does a repetition of this call coincide with negligible probability only?"""
    if op["op"] == "point":
        return True
    par = op["par"]
    if op["model"] == "IC":
        return par.get("p", 0.5) == 0.5 and op["n"] * op["m"] >= 60
    if op["model"] in ("Resampling", "Disjoint Resampling"):
        return par.get("phi") == 1 and par["p"] == 0.5 and op["n"] * op["m"] >= 60
    if op["model"].startswith("Euclidean"):
        return par.get("return_points") and not (par.get("voter_points") and par.get("candidate_points"))
    return False


def legal_dist(d, dim=None):
    return (d["name"] in POINTS and (dim is None or int(d["name"][0]) == dim)
            and (not isinstance(d["center"], list) or len(d["center"]) == int(d["name"][0]))
            and d["sigma"] and d["sigma"] >= 0.1 and d["width"] and d["width"] >= 0.5)  # fmt: skip


def legal(op):
    if op["op"] == "point":
        return legal_dist(op["dist"])
    par, n, m = op["par"], op["n"], op["m"]
    if n < 1 or m < 1 or op["model"] not in MODELS:
        return False
    if "setsize" in par and not 0 <= par["setsize"] <= m:
        return False
    if op["model"] == "Disjoint Resampling":
        groups = par.get("num_groups", 2)
        return groups >= 1 and par["p"] * groups <= 1
    if not op["model"].startswith("Euclidean"):
        return True
    dims = set()
    for who, number in (("voter", n), ("candidate", m)):
        points = par.get(who + "_points")
        if points is not None:
            if len(points) != number:
                return False
            dims |= {len(x) for x in points}
        d = par.get(who + "_prob_distribution")
        if d is None and points is None:
            return False
        if d is not None:
            if not legal_dist(d):
                return False
            dims.add(int(d["name"][0]))
        radius = par.get(who + "_radius")
        if isinstance(radius, list) and len(radius) != number:
            return False
    return len(dims) == 1 and 0 not in dims and par.get("threshold", 1) >= 1


def execute(workload, ctx):
    ops, seed = workload["ops"], workload["seed"]
    if not ops or not all(map(legal, ops)):
        raise Discard("no legal operation")
    results = run(ops, seed)
    for i, (op, result) in enumerate(zip(ops, results)):
        judge(op, result, f"call {i} ({jdump(op)}) under seed {seed}", ctx)
    first = [canonical(r) for r in results]
    for i in range(1, len(ops)):
        if ops[i] == ops[i - 1] and entropy(ops[i]) and first[i] == first[i - 1]:
            raise Violation("not-fresh", f"calls {i - 1} and {i} ({jdump(ops[i])}) gave the same result under seed {seed}")
    compare(first, [canonical(r) for r in run(ops, seed)], ops, seed, "called a second time")
    noise = list(workload["noise"]) + [0] * len(ops)
    compare(first, [canonical(r) for r in run(ops, seed, noise)], ops, seed,
            "with other random sources used in between")  # fmt: skip
    cut = workload.get("cut")
    if cut is not None and cut["op"] < len(ops):
        import prefsampling

        prefix = (REPO + "/abcvoting", os.path.dirname(prefsampling.__file__))
        fired = None
        with session.bomb_for(cut, prefix) as bomb:
            try:
                run(ops[: cut["op"] + 1], seed + 1)
            except (Violation, Discard):
                raise
            except BaseException:  # pylint: disable=broad-except
                sys.settrace(None)
                fired = bomb.fired
                if fired is None:
                    raise
        if fired is not None:
            ctx.count(f"fault_interrupt_{cut['kind']}")
            ctx.state("cut", fired)
        compare(first, [canonical(r) for r in run(ops, seed)], ops, seed, "after an interrupted call")
    if workload.get("process"):
        out = other_process(ops, seed)
        if out != digest(first):
            raise Violation("not-reproducible", f"another process gets another result for {jdump(ops)} under seed {seed}")
        ctx.count("fault_other_process_hashseed")
    ctx.log("generated", digest(first))
    ctx.count("generator_calls", len(ops))
    ctx.nontrivial = True


def compare(first, second, ops, seed, when):
    for i, (a, b) in enumerate(zip(first, second)):
        if a != b:
            raise Violation("not-reproducible", f"call {i} ({jdump(ops[i])}) under seed {seed} {when} gave {str(b)[:200]}, before {str(a)[:200]}")


def digest(data):
    return hashlib.sha256(jdump(data).encode()).hexdigest()


def other_process(ops, seed):
    """the same history in a fresh interpreter with different hash randomisation"""
    envs = dict(os.environ)
    envs["PYTHONHASHSEED"] = str((int(envs.get("PYTHONHASHSEED") or 0) + 12345) % 4294967295)
    code = ("import sys, json; from sim import env; env.install_fakes(); from sim.props import R02; "
            "ops, seed = json.load(sys.stdin); "
            "print(R02.digest([R02.canonical(r) for r in R02.run(ops, seed)]))")  # fmt: skip
    done = subprocess.run([sys.executable, "-c", code], input=json.dumps([ops, seed]), text=True,
                          env=envs, capture_output=True,
                          cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))  # fmt: skip
    if done.returncode != 0:
        raise Violation("not-reproducible", f"another process fails: {done.stderr[-300:]}")
    return done.stdout.strip()


if __name__ == "__main__":
    sys.exit(0)
