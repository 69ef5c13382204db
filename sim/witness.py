"""Reading the counterexample printed by a negative axiom check."""

import re

from sim.core import num
from sim.oracle import axioms

_G = r"\{([\d,]*)\}"
_P = r"\(([\d.]+)%ofallvoters(\(byweight\))?\)"
PATTERNS = {
    "ejr": (rf"The(?P<ell>\d+)-cohesivegroupofvoters\{{(?P<group>[\d,]*)\}}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
            r"jointlyapprovethecandidates\{(?P<cands>[\d,]*)\},butnoneofthemapproves(?P<ell2>\d+)candidatesinthecommittee"),
    "pjr": (rf"The(?P<ell>\d+)-cohesivegroupofvoters\{{(?P<group>[\d,]*)\}}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
            r"jointlyapprovethecandidates\{(?P<cands>[\d,]*)\},buttheyapprovefewerthan(?P<ell2>\d+)candidatesinthecommittee"),
    "jr": (r"The1-cohesivegroupofvoters\{(?P<group>[\d,]*)\}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
           r"jointlyapprovecandidate(?P<cand>.+?),butnoneofthemapproveacandidateinthecommittee"),
    "ejr+": (r"Thegroupofvoters\{(?P<group>[\d,]*)\}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
             r"deserves(?P<ell>\d+)candidates,andjointlyapprovecandidate(?P<cand>.+?)whichisnotpartofthecommittee"),
    "fjr": (r"Theweaklycohesivegroupofvoters\{(?P<group>[\d,]*)\}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
            r"eachapproveatleast(?P<beta>[\d.e+-]+)ofthe(?P<ell>\d+)candidates\{(?P<cands>[\d,]*)\}"),
    "core": (r"Thegroupofvoters\{(?P<group>[\d,]*)\}\((?P<pct>[\d.]+)%ofallvoters(\(byweight\))?\)"
             r"canblocktheoutcomebyproposing\{(?P<cands>[\d,]*)\}"),
    "pareto": r"Itisdominatedbythecommittee\{(?P<cands>[\d,]*)\}",
}  # fmt: skip


def parse(axiom, text, names):
    """The printed counterexample as plain data; None if the text is not understood."""
    flat = re.sub(r"\s+", "", text)
    hit = re.search(PATTERNS[axiom], flat)
    if hit is None:
        return None
    d = hit.groupdict()
    w = {}
    if d.get("group") is not None:
        w["group"] = [int(x) for x in d["group"].split(",") if x]
        w["pct"] = float(d["pct"])
    if d.get("cands") is not None:
        w["cands"] = [int(x) for x in d["cands"].split(",") if x]
    if d.get("cand") is not None:
        flatnames = [re.sub(r"\s+", "", n) for n in names]
        if d["cand"] not in flatnames:
            return None
        w["cand"] = flatnames.index(d["cand"])
    if d.get("ell") is not None:
        w["ell"] = int(d["ell"])
        if d.get("ell2") is not None and int(d["ell2"]) != w["ell"]:
            return None
    if d.get("beta") is not None:
        w["beta"] = round(float(d["beta"]))
    return w


def verify(axiom, model, committee, quota, w):
    """None if genuine, else what is wrong."""
    q = axioms.default_quota(model, committee) if quota is None else num(quota)
    if not axioms.valid_witness(axiom, model, committee, q, w):
        return "not a counterexample"
    if "pct" in w:
        share = 100 * float(sum(model.voters[i][1] for i in w["group"])) / float(model.total())
        if abs(share - w["pct"]) > 0.051:
            return f"group is {share:.3f}% of all voters"
    return None
