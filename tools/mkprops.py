"""Writes properties.jsonl (kept as a script so that long lines stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


RES = (
    "irresolute results are the complete set of winning committees without duplicates, resolute "
    "results are exactly one winning committee, and max_num_of_committees=m yields exactly "
    "min(m, number of winners) distinct winning committees"
)

prop("S01", "Solver-backed Thiele rules and lexCC return exactly the winning committees",
     "For PAV, SLAV, CC, the geometric Thiele rules and lexicographic CC computed by Gurobi, CBC (mip) or CP-SAT, "
     "every returned committee has exactly the requested size and maximises the rule's score for the (weighted) profile: "
     + RES + ". This holds whichever of several optimal solutions the solver reports and however it rounds within its tolerances.",
     ["schedules", "inputs", "histories"],
     "every profile (integer, fractional, very small and large voter weights), committee size, resolution mode, and every sequence of optimal solutions a solver may report",
     "Tests run one solver build which always reports the same optimum with the same rounding on stored instances; the answer must not depend on which optimum is reported.",
     ["abcvoting/abcrules.py", "abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_mip.py", "abcvoting/abcrules_ortools.py", "abcvoting/scores.py"],
     [("re-solve loop with exclusion constraints", "abcrules_gurobi._optimize_rule_gurobi, abcrules_mip._optimize_rule_mip, abcrules_ortools._optimize_rule_ortools"),
      ("integer encoding of marginal scores", "abcrules_gurobi._gurobi_thiele_methods, abcrules_mip._mip_thiele_methods, abcrules_ortools._ortools_cc"),
      ("lexicographic iteration over thresholds", "abcrules_gurobi._gurobi_lexcc")],
     [("maxscore / previously_found_committees", "best score and solutions excluded so far", "_optimize_rule_*")],
     ["return value of compute and compute_<rule>"])
prop("S02", "Solver-backed Monroe, minimax AV and lex-minimax AV return the exact winners",
     "For Monroe's rule, minimax approval voting and lexicographic minimax approval voting computed by any solver-backed or brute-force algorithm, "
     "every returned committee has the requested size and is optimal for the rule: " + RES + ". This holds whichever optimum the solver reports and however it rounds.",
     ["schedules", "inputs", "histories"],
     "every profile (weighted where the rule supports weights), committee size (including sizes that do not divide the number of voters) and every sequence of optimal solutions a solver may report",
     "Tests observe one solver's fixed choice among optima on stored instances.",
     ["abcvoting/abcrules.py", "abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_mip.py", "abcvoting/abcrules_ortools.py", "abcvoting/scores.py"],
     [("balanced assignment constraints", "abcrules_*._*_monroe"), ("max Hamming distance variable", "abcrules_*._*_minimaxav"),
      ("distance-profile refinement", "abcrules_gurobi._gurobi_lexminimaxav")], (), ["return value of compute"])
prop("S03", "Minimax/leximax-Phragmén and maximin support give exactly the optimal outcome",
     "Minimax-Phragmén and leximax-Phragmén return exactly the committees whose optimal load distribution minimises the maximal load (respectively is leximax-optimal), "
     "and the maximin support method adds in each round exactly a candidate maximising the maximin support value: " + RES + ". This holds whichever optimal load distribution the solver reports, including profiles with fewer approved candidates than seats and small voter weights.",
     ["schedules", "inputs", "histories"],
     "every profile, committee size, solver back end and every optimal solution a solver may report; leximax-Phragmén for voters of equal weight",
     "The continuous load variables have many optimal solutions; tests see one of them.",
     ["abcvoting/abcrules.py", "abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_mip.py"],
     [("load ILP", "_gurobi_minimaxphragmen, _gurobi_leximaxphragmen, _mip_minimaxphragmen"),
      ("support LP and greedy rounds", "_gurobi_maximin_support_scorefct, _mip_maximin_support_scorefct, _maximin_support_resolute/irresolute"),
      ("completion with unapproved candidates", "compute_minimaxphragmen, compute_leximaxphragmen")], (), ["return value of compute"])
prop("S04", "Axiom verdicts are exact for every algorithm, quota and voter weight",
     "check() and full_analysis() report a committee as satisfying Pareto optimality, JR, PJR, EJR, EJR+, FJR, (stable) priceability or the core if and only if it satisfies the definition for the given weighted profile and quota. "
     "Brute-force and solver-backed algorithms give the same verdict, whichever feasible solution the solver reports.",
     ["schedules", "inputs", "histories"],
     "every weighted profile, committee, rational quota, algorithm and every feasible or optimal solution a solver may report",
     "Tests check stored committees with one solver; verdicts quantify over all voter groups and all weights.",
     ["abcvoting/properties.py"],
     [("group enumeration", "properties._check_EJR_brute_force, _check_PJR_brute_force, _check_FJR_brute_force, _check_core_brute_force, _check_JR, _check_EJR_plus"),
      ("existence ILPs", "properties._check_EJR_gurobi, _check_PJR_gurobi, _check_FJR_gurobi, _check_core_gurobi, _check_priceability_gurobi, _check_pareto_optimality_gurobi"),
      ("dispatch", "properties.check, properties.full_analysis")], (), ["return values of check, check_<axiom>, full_analysis"])
prop("S05", "A reported axiom violation comes with a genuine counterexample",
     "Whenever an axiom check is negative, the details it prints (the deviating voters, the candidates they would prefer or jointly approve, the dominating committee) form a genuine counterexample to the axiom for that profile, committee and quota. "
     "This holds whichever solution the solver reports and after any earlier calls.",
     ["schedules", "inputs", "histories"],
     "every profile, committee, quota, algorithm and every solution a solver may report",
     "Tests only compare verdicts and one output text; the reported group depends on which solution the solver picks.",
     ["abcvoting/properties.py", "abcvoting/output.py", "abcvoting/misc.py"],
     [("detailed information of negative checks", "properties.check_EJR, check_PJR, check_JR, check_EJR_plus, check_FJR, check_core, check_pareto_optimality")],
     (), ["text printed at verbosity DETAILS"])
prop("S06", "A failed or inconclusive solve never turns into an answer",
     "If a solver call fails, times out, is interrupted or ends without a proof of optimality, a rule computation or axiom check either raises an error or still returns the exactly correct answer; it never returns a wrong or incomplete answer. "
     "Afterwards the profile is unchanged and the same call succeeds with the correct answer once the solver works again.",
     ["fault_sequences", "histories", "inputs"],
     "every sequence of solver statuses (time limit, interrupted, numeric trouble, out of memory, license error, unbounded or inconclusive status, exceptions from any solver call) at every solve of a computation",
     "The tests never see a solver fail: every solve on the stored instances ends OPTIMAL or INFEASIBLE.",
     ["abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_mip.py", "abcvoting/abcrules_ortools.py", "abcvoting/properties.py"],
     [("status checks after each solve", "_optimize_rule_gurobi, _optimize_rule_mip, _optimize_rule_ortools, _gurobi_maximin_support_scorefct, _mip_maximin_support_scorefct, properties._check_*_gurobi")],
     (), ["return value or exception of compute and check"])
prop("C01", "Concurrent callers get the same answers as callers that run alone",
     "Several threads of one process may compute rules and check axioms on a shared profile (or on different profiles) at the same time; each call returns exactly what it returns when run alone, at every interleaving. "
     "The profile and the library's global settings are afterwards as they would be after running the calls one after another.",
     ["schedules", "histories"],
     "every interleaving of two to four callers at the granularity of executed lines of library code",
     "The tests are single-threaded.",
     ["abcvoting/abcrules.py", "abcvoting/abcrules_mip.py", "abcvoting/abcrules_gurobi.py", "abcvoting/preferences.py", "abcvoting/scores.py", "abcvoting/output.py"],
     [("no shared mutable state in computations", "abcrules, scores, preferences")],
     [("module-level caches and objects", "shared by all callers", "output.output, scores.* lru caches")], ["return values"])
prop("C02", "Interrupted or failed calls leave no residue",
     "A rule computation, axiom check, profile conversion or output call that is cut off at an arbitrary point by an exception (keyboard interrupt, memory error, failing output stream) leaves its input profile and the global output settings as they were. "
     "Every later call returns exactly what it would have returned otherwise.",
     ["crash_points", "fault_sequences", "histories"],
     "every executed line of library code as the point of interruption, followed by arbitrary further calls",
     "The tests never interrupt a computation.",
     ["abcvoting/abcrules.py", "abcvoting/properties.py", "abcvoting/preferences.py", "abcvoting/output.py", "abcvoting/scores.py"],
     [("computations work on copies", "abcrules._*_algorithm"), ("restoring verbosity", "properties.full_analysis"),
      ("all-or-nothing profile updates", "preferences.Profile.add_voters, convert_to_unit_weights, convert_to_weighted")],
     (), ["profile contents, output.verbosity, later return values"])
prop("H01", "Sequential, reverse-sequential and separable rules follow their definitions",
     "AV, SAV, seqPAV, seqSLAV, seqCC, seq-geometric rules and their reverse-sequential counterparts return exactly the committees their definition produces for the profile's current content: "
     + RES + ". This holds at every point of a history of profile edits, other computations and interrupted calls.",
     ["histories", "inputs", "crash_points"],
     "every history of ballot and weight edits, conversions, copies, computations and interruptions, for every profile and committee size",
     "Tests compute each rule once on freshly built profiles.",
     ["abcvoting/abcrules.py", "abcvoting/scores.py", "abcvoting/preferences.py"],
     [("greedy rounds with tie branching", "abcrules._seq_thiele_resolute/irresolute, _revseq_thiele_resolute/irresolute"),
      ("separable scores and cutoff", "abcrules._separable_rule_algorithm"), ("marginal scores", "scores.marginal_thiele_scores_add/remove")],
     (), ["return value of compute"])
prop("H02", "Phragmén-, equal-shares- and budget-based rules follow their definitions",
     "Sequential Phragmén, Phragmén-Eneström, the consensus rule and the Method of Equal Shares (with every completion variant) return exactly the committees their definition produces in exact arithmetic for the profile's current content, for each of the exact fraction algorithms: "
     + RES + ". This holds at every point of a history of profile edits, other computations and interrupted calls.",
     ["histories", "inputs", "crash_points"],
     "every history of edits, computations and interruptions; every profile with integer, fractional, small or large weights",
     "Tests compute each rule once on freshly built, mostly unit-weight profiles.",
     ["abcvoting/abcrules.py"],
     [("load / budget simulation", "abcrules._seqphragmen_resolute/irresolute, _equal_shares_algorithm, _equal_shares_algorithm_with_increment_completion, _phragmen_enestroem_algorithm, _consensus_rule_algorithm")],
     (), ["return value of compute"])
prop("H03", "Brute-force, branch-and-bound and greedy rules follow their definitions",
     "Brute-force and branch-and-bound versions of the optimisation rules, greedy Monroe, E Pluribus Hugo and the trivial rule return exactly the committees their definition produces for the profile's current content: "
     + RES + ". This holds at every point of a history of profile edits, other computations and interrupted calls.",
     ["histories", "inputs", "crash_points"],
     "every history of edits, computations and interruptions; every profile and committee size",
     "Tests compute each rule once on freshly built profiles.",
     ["abcvoting/abcrules.py", "abcvoting/scores.py"],
     [("exhaustive search", "abcrules._thiele_methods_bruteforce, _thiele_methods_branchandbound, _lexcc_bruteforce, _monroe_bruteforce, _minimaxav_bruteforce, _lexminimaxav_bruteforce"),
      ("greedy assignment", "abcrules._greedy_monroe_algorithm"), ("elimination rounds", "abcrules._eph_algorithm")],
     (), ["return value of compute"])
prop("H04", "Output, verbosity, logging and stream failures never influence results",
     "Changing the verbosity, attaching or detaching a logger, or redirecting standard output at any time changes only what is printed, never a returned committee, verdict or profile; at verbosity WARNING and above nothing is printed by computations. "
     "What is printed as winning committees is exactly what is returned, and a full analysis leaves the verbosity as it was.",
     ["histories", "fault_sequences", "inputs"],
     "every history of verbosity and logger changes, computations and failing output streams",
     "Tests compare a few fixed output texts.",
     ["abcvoting/output.py", "abcvoting/abcrules.py", "abcvoting/properties.py", "abcvoting/misc.py"],
     [("verbosity-dependent printing", "output.Output"), ("detail output after the computation", "abcrules.compute_*, properties.check_*")],
     [("output.verbosity", "global verbosity", "output.Output")], ["stdout, logger, return values"])
prop("H05", "Scores, committee comparisons and listings are exact on the current ballots",
     "At every point of a history of profile edits, rule computations and interrupted calls, Thiele scores (PAV, SLAV, CC, AV, geometric, at-least-ell), the marginal gains and losses of single candidates, cumulative scores, Monroe scores (also by matching and by flow), minimax-AV scores and Hamming counts of any committee equal their definitions on the profile's current ballots. "
     "Domination, Hamming distances, power sets, binomials, sorting and comparison of committee lists do too, for every form in which a committee may be given, and the textual listing of committees shows exactly their candidates' names, one line per committee.",
     ["histories", "inputs", "crash_points"],
     "every history of edits, computations and interruptions; every profile, committee and score function",
     "Tests sample a handful of values on freshly built profiles.",
     ["abcvoting/scores.py", "abcvoting/misc.py", "abcvoting/preferences.py"],
     [("score functions", "scores.thiele_score, marginal_thiele_scores_add/_remove, monroescore*, minimaxav_score"),
      ("comparisons and listings", "misc.dominate, hamming, powerset, sorted_committees, compare_list_of_committees, str_*")],
     (), ["return values"])
prop("V01", "Requests outside the documented domain are refused, never answered",
     "Computing a rule with a committee size below 1 or above the number of candidates, on a profile without voters, with an algorithm or resolute value the rule does not offer, with an invalid bound on the number of committees, or with weighted ballots although the rule is defined for unit weights only, and asking for unknown rules, score functions, completions or properties, for committees with unknown or repeated candidates, or for a quota where there is none, raises an error (ValueError, TypeError, NotImplementedError or ImportError) whichever way the call is made. "
     "Whether a request is legal is decided on the profile's current ballots, and a refused request leaves profiles and later answers untouched.",
     ["histories", "inputs", "crash_points"],
     "every history of edits, legal calls, refused calls and interruptions; every rule, algorithm, property and way of calling",
     "Tests try a few illegal arguments on freshly built profiles; here what is illegal depends on the history.",
     ["abcvoting/abcrules.py", "abcvoting/properties.py", "abcvoting/scores.py", "abcvoting/misc.py"],
     [("parameter checks of rules", "abcrules.Rule.verify_compute_parameters, Rule.__init__, unit-weight checks of compute_*"),
      ("parameter checks of properties", "properties.check, check_*; misc.CandidateSet")],
     [("current ballots", "whether all weights are 1, whether there are voters", "preferences.Profile")], ["exceptions", "return values", "profile contents"])
prop("A01", "Installed packages and the choice of algorithm never change the outcome",
     "Every algorithm a rule offers, including 'fastest', returns the same irresolute outcome, and the outcome does not depend on which optional packages (ortools, gmpy2) are installed or whether Gurobi's licence is usable. "
     "If no algorithm of a rule can run, computing it raises an error naming the problem instead of returning a result.",
     ["configurations", "inputs", "fault_sequences"],
     "every combination of installed optional packages and of a missing, size-limited or full Gurobi licence, every rule and algorithm, every profile",
     "Tests run in a single environment in which all packages are installed.",
     ["abcvoting/abcrules.py", "abcvoting/abcrules_gurobi.py", "abcvoting/abcrules_ortools.py", "abcvoting/properties.py"],
     [("availability detection and fallback", "abcrules._available_algorithms, Rule.fastest_available_algorithm, properties 'fastest'"),
      ("fraction back ends", "abcrules gmpy2/float/standard fractions")],
     (), ["Rule.available_algorithms, return values, exceptions"])
prop("R01", "Random serial dictator is faithful to its seed, its ballots and the random order",
     "Every committee returned by random serial dictator arises from some order of the voters, in which each voter in turn adds her approved candidates (in index order) while seats are left, with seats that remain after the last voter going to arbitrary other candidates. "
     "Every outcome arising from some order is reached by some random draws, seeding Python's random module reproduces the outcome, and computing the rule changes neither the profile nor any other rule's outcome.",
     ["schedules", "inputs", "histories"],
     "every sequence of random draws and every profile",
     "Tests only check the size of the committee.",
     ["abcvoting/abcrules.py"], [("random voter order", "abcrules.compute_rsd")], (), ["return value of compute"])
prop("R02", "Random profile generation is reproducible and respects its parameters",
     "Setting the seed of the generator fixes every randomly generated profile and point, independently of earlier use of other random sources and of hash randomisation, and a history of generator calls is reproduced by the same seed. "
     "Generated profiles always have the requested number of voters and candidates, legal ballots, and (for fixed-size models) exactly the requested number of approvals; in large profiles candidates are approved, and points are spread, as often as the parameters of the model say; successive calls draw fresh profiles.",
     ["schedules", "histories", "inputs"],
     "every seed, every interleaving with other random calls, every legal parameter combination of every model",
     "Tests check a few parameter values without fixing the random source.",
     ["abcvoting/generate.py"], [("seed hand-over to the sampling libraries", "generate.rng, prefsampling wrappers")], [("generate.rng", "random source", "generate")], ["returned profiles"])
prop("D01", "Instances survive saving to and loading from .abc.yaml files",
     "Reading an .abc.yaml file written from a profile, committee size, compute instances and description gives back the same ballots, weights, number of candidates, committee size, rule parameters and expected results in the same order. "
     "Saving again and again, overwriting other files, or loading on another machine never changes the content.",
     ["histories", "inputs", "configurations"],
     "every instance expressible in the format and every history of saves, loads and overwrites",
     "Tests round-trip a few stored instances.",
     ["abcvoting/fileio.py", "abcvoting/preferences.py"], [("YAML reader and writer", "fileio.write_abcvoting_instance_to_yaml_file, read_abcvoting_yaml_file")], (), ["values returned by the reader"])
prop("D02", "PrefLib reading and writing preserves ballots, multiplicities and names",
     "Writing a profile with positive integer weights to a PrefLib category file and reading it back (as weights or as individual voters) gives the same number of voters approving each candidate set and the same candidate names. "
     "Reading an ordinal or categorical PrefLib file with top_ranks or setsize yields, for every listed vote, exactly the approval set the parameters define, with the listed multiplicity; parameters that define none (both given, or one that is not positive) are refused.",
     ["histories", "inputs", "configurations"],
     "every profile, every ordinal or categorical file, every parameter value",
     "Tests read a few stored files.",
     ["abcvoting/fileio.py"], [("PrefLib conversion", "fileio.read_preflib_file, write_profile_to_preflib_cat_file, read_preflib_files_from_dir")], (), ["profiles returned by the reader"])
prop("D03", "A save either fully takes effect or leaves the old file untouched",
     "If saving a profile or instance is refused, fails (full disk, I/O error, short write) or is cut off by an exception or a crash, the file has its complete old content (is absent if it did not exist before) or the complete new content; "
     "at no moment, also not for other processes or threads reading or saving it meanwhile, is it truncated or mixed, and no other file is changed. A save that returns normally leaves the complete new content, later saves work again, "
     "and leftovers of failed saves are never picked up by directory loading.",
     ["crash_points", "fault_sequences", "histories"],
     "every file-system operation of a save as the point of failure or crash, every history of saves",
     "The tests never let a write fail.",
     ["abcvoting/fileio.py"], [("write to a temporary file, then replace", "fileio._replace_on_success")], (), ["file contents after failure, crash and restart"])
prop("D04", "Damaged files are rejected, and directory order never matters",
     "Reading a truncated or corrupted file either raises an error or yields a profile of legal ballots, and if the remaining text is well-formed, exactly the ballots, weights and candidates this text lists (a .abc.yaml file that is empty or contains no profile raises MalformattedFileException); a read error is never turned into a profile with missing or invented voters. "
     "Reading a directory yields the same profiles whatever order the operating system lists the files in, and ignores sub-directories and files of other types.",
     ["fault_sequences", "crash_points", "inputs"],
     "every truncation point and single-line or byte corruption of a file, short reads, read errors, every directory listing order",
     "Tests contain a handful of malformed files.",
     ["abcvoting/fileio.py"], [("malformed file detection", "fileio.read_abcvoting_yaml_file, read_preflib_file, get_file_names")], (), ["returned profiles or exceptions"])
prop("P01", "Profiles behave like plain lists of weighted ballots under every edit history",
     "After any history of additions, replacements, weight changes, ballot edits, copies and conversions (including rejected and interrupted ones), a profile's voters, weights, candidates, derived quantities and textual form are exactly those of the list of weighted ballots the accepted edits describe. "
     "Rejected edits change nothing, copies are independent, and illegal ballots or weights never enter a profile.",
     ["histories", "crash_points", "inputs"],
     "every history of edits on one or several profiles",
     "Tests perform one or two edits on fresh profiles.",
     ["abcvoting/preferences.py", "abcvoting/misc.py"], [("validation on entry", "preferences.Voter, Profile.add_voter(s), Profile.__setitem__"), ("conversions", "Profile.convert_to_unit_weights, convert_to_weighted, copy")],
     (), ["Profile and Voter public attributes"])
prop("N03", "Random models have the documented probability distribution",
     "Profiles drawn from each random model follow the documented distribution.",
     ["inputs"], "the distribution over all seeds", "Tests cannot establish a distribution.",
     ["abcvoting/generate.py"], [("samplers of prefsampling", "generate")])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
