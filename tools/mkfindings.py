"""Writes known_findings.json (run by hand; checks only read the file)."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
findings = [
    {
        "property": "H01",
        "cls": "sav-float-tie",
        "message": r"^sav/standard .* scores are summed as floats and an exact tie is missed$",
        "what": "SAV sums floating-point scores, so exact ties between candidates with non-dyadic scores are "
        "missed and winning committees are left out (e.g. tests/test_instances/instanceS0003: 1 of 2 winning "
        "committees); not repaired because the stored expected result of that existing test encodes the bug",
        "where": "abcvoting/abcrules.py:_separable_rule_algorithm, score[cand] += voter.weight / len(voter.approved)",
        "workload": {
            "profiles": [{"m": 2, "names": None, "voters": [
                {"a": [0], "w": "1/3"}, {"a": [1], "w": "7/3"}, {"a": [0], "w": 2}]}],
            "ops": [{"op": "compute", "p": 0, "rule": "sav", "alg": "standard", "k": 1,
                     "resolute": False, "max": None, "via": "compute"}],
        },
        "choices": [],
    },
]
fixed = [
    "fixed: property=P01 3497154 Profile.copy() lost the candidate names and copy.deepcopy(profile) raised RecursionError/AttributeError",
    "fixed: property=S03 e9295fc (lexi)minimax-Phragmen ignored max_num_of_committees if fewer candidates are approved than seats",
    "fixed: property=S03 1aea3a7 minimax-/leximax-Phragmen ILPs were infeasible (RuntimeError) for voters with weight < 1",
    "fixed: property=H02 336320b seq-Phragmen returned wrong committees if loads exceed the sentinel (very small weights)",
    "fixed: property=H02 1430459 equal shares with increment completion did not terminate for voters with weight < 1",
    "fixed: property=H03 f632464 E Pluribus Hugo raised an exception for profiles with one candidate",
    "fixed: property=S04 2380e2d brute-force EJR/PJR checks ignored voter weights",
    "fixed: property=S05 2380e2d brute-force EJR/PJR checks reported a group that is not cohesive",
    "fixed: property=S04 9e496ce check_EJR_plus raised an exception for quotas larger than the default quota",
    "fixed: property=C02 395f551 full_analysis left the output verbosity changed if a check failed",
    "fixed: property=R02 562f8eb generate.rng did not determine the generated random profiles and points",
    "fixed: property=R02 b638214 fixed-size random profiles had approval sets of the wrong size (e.g. 14 instead of 15 of 22)",
    "fixed: property=D02 2865d36 read_preflib_file lost voters if two rankings have the same top candidates (setsize)",
    "fixed: property=D02 0629646 read_preflib_file accepted top_ranks=0 and setsize=0 and read every ballot as empty",
    "fixed: property=D02 8c2df47 PrefLib files written from float weights contained '2.0' and could not be read",
    "fixed: property=D04 ebffc0a empty .abc.yaml files raised AttributeError instead of MalformattedFileException",
    "fixed: property=D03 c45fb94 a refused, failed or interrupted save destroyed the existing file",
    "fixed: property=P01 ccab476 add_voters did not terminate for the profile itself and added the first voters of an invalid batch",
    "fixed: property=P01 fcb0e3b str_compact listed an approval set several times if equal sets are not adjacent",
    "fixed: property=D01 b37a2ed .abc.yaml files depended on the locale: non-ASCII text could not be saved or loaded elsewhere",
    "fixed: property=D01 6eb636c an instance loaded from a file without committee size could not be saved again",
    "fixed: property=C01 17a0cf2 concurrent full_analysis calls left the output verbosity at WARNING (each saved and restored the global level)",
]
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump({"findings": findings, "fixed": fixed}, f, indent=1)
    f.write("\n")
