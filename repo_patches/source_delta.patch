From 349715460533e5f82101f216c7831b3487939ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 01/27] fix: Profile.copy() keeps candidate names and
 copy.deepcopy() works

---
 abcvoting/preferences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..ecf306b 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -269,11 +269,14 @@ class Profile:
             Profile
         """
         copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile.cand_names = list(self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From e9295fc004ce7183dc59e456c0ca8cf8c92c6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 02/27] fix: (lexi)minimax-Phragmen respects
 max_num_of_committees if too few candidates are approved

---
 abcvoting/abcrules_gurobi.py | 10 ++++++----
 abcvoting/abcrules_mip.py    |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..dc974c5 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -427,10 +427,11 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -523,10 +524,11 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..842b69a 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -363,10 +363,11 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         if resolute:
             return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
 
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From 1aea3a79d944387dc11e7d595f6c24021664f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 03/27] fix: minimax-/leximax-Phragmen ILPs feasible for voters
 with weight < 1

---
 abcvoting/abcrules_gurobi.py | 19 +++++++++++++------
 abcvoting/abcrules_mip.py    |  7 +++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index dc974c5..7d6f5ab 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -381,7 +381,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         load = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(ub=max_load, lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +404,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, ub=committeesize * max_load, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -433,6 +433,9 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         )
         return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
+    # upper bound for the load a voter receives from a single candidate
+    max_load = max(1.0, max(1 / voter.weight for voter in profile))
+
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
         profile=profile,
@@ -450,7 +453,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(ub=max_load, lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
@@ -492,18 +495,19 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 model.addConstr(
                     gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                     <= loadbounds[i]
-                    + (1 - loadbound_constraint[(i, j)]) * committeesize
+                    + (1 - loadbound_constraint[(i, j)]) * committeesize * max_load
                     + ACCURACY
                     # constraint applies only if loadbound_constraint[(i, voter)] == 1
                 )
 
-        newloadbound = model.addVar(lb=0, ub=committeesize, name="new loadbound")
+        newloadbound = model.addVar(lb=0, ub=committeesize * max_load, name="new loadbound")
         for j, voter in enumerate(profile):
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                 <= newloadbound
                 + gb.quicksum(
-                    loadbound_constraint[(i, j)] * committeesize for i in range(len(loadbounds))
+                    loadbound_constraint[(i, j)] * committeesize * max_load
+                    for i in range(len(loadbounds))
                 )
             )
 
@@ -530,6 +534,9 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         )
         return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
+    # upper bound for the load a voter receives from a single candidate
+    max_load = max(1.0, max(1 / voter.weight for voter in profile))
+
     loadbounds = []
     for iteration in range(len(profile) - 1):
         # in interation we enforce a new loadbound.
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 842b69a..962973f 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -318,7 +318,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, ub=max_load, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -341,7 +341,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
             )
 
         loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
+            lb=0, ub=committeesize * max_load, var_type=mip.CONTINUOUS, name="loadbound"
         )
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -369,6 +369,9 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         )
         return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
+    # upper bound for the load a voter receives from a single candidate
+    max_load = max(1.0, max(float(1 / voter.weight) for voter in profile))
+
     committees = _optimize_rule_mip(
         set_opt_model_func,
         profile,
-- 
2.43.0


From 336320b438e71768c64b53af5047d16872023a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 04/27] fix: seq-Phragmen sentinels exceed all loads also for
 voters with small weight

---
 abcvoting/abcrules.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..b0c8b92 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2816,6 +2816,8 @@ def _seqphragmen_resolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    # loads cannot exceed this value (voters with a small weight can have loads > `committeesize`)
+    load_limit = committeesize * math.ceil(max([1] + [1 / voter.weight for voter in profile]))
     load = start_load
     if load is None:
         load = [0 for _ in range(len(profile))]
@@ -2839,13 +2841,13 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_limit + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_limit + 2  # that's larger than any possible value
         opt = min(new_maxload)
         if algorithm == "float-fractions":
             tied_cands = [
@@ -2894,6 +2896,8 @@ def _seqphragmen_irresolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    # loads cannot exceed this value (voters with a small weight can have loads > `committeesize`)
+    load_limit = committeesize * math.ceil(max([1] + [1 / voter.weight for voter in profile]))
 
     load = start_load
     if load is None:
@@ -2917,13 +2921,13 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_limit + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_limit + 2  # that's larger than any possible value
         # compute new loads
         new_committee_load_pairs = []
         for cand in profile.candidates:
-- 
2.43.0


From 1430459aac23c4474d637a994b5f5f98f37e9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 05/27] fix: increment completion of equal shares terminates
 for voters with weight < 1

---
 abcvoting/abcrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index b0c8b92..0637572 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3463,8 +3463,10 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
+    # voters with a weight < 1 require a larger increment until they can pay for all candidates
+    max_increment = max([1] + [1 / voter.weight for voter in profile])
     for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
+        committeesize, math.ceil(committeesize * profile.total_weight() * max_increment + 1)
     ):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
-- 
2.43.0


From f6324640849e4067a13b54fbf2ca6cca98cf8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 06/27] fix: E Pluribus Hugo works for profiles with one
 candidate

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 0637572..0d3c15d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4521,7 +4521,7 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]  # 2nd smallest value (if there are two)
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From 2380e2d8aa746ea35b2f25b7318b2f1e13bbd8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 07/27] fix: brute-force EJR/PJR checks consider weights and
 report the actual cohesive group

---
 abcvoting/properties.py | 60 ++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..39244fe 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -694,6 +694,34 @@ def _check_pareto_optimality_gurobi(profile, committee):
     raise RuntimeError(f"Gurobi returned an unexpected status code: {model.Status}")
 
 
+def _groups_with_sufficient_weight(profile, voters, min_weight):
+    """
+    Generate groups of voters with a total weight of at least `min_weight`.
+
+    For unit weights, only groups of minimum size are considered.
+
+    Parameters
+    ----------
+    profile : abcvoting.preferences.Profile
+        A profile.
+    voters : list of int
+        The voters (indices) from which groups are formed.
+    min_weight : Fraction or float
+        The minimum weight of a group.
+
+    Yields
+    ------
+    tuple of int
+    """
+    if profile.has_unit_weights():
+        yield from itertools.combinations(voters, math.ceil(min_weight))
+        return
+    for size in range(1, len(voters) + 1):
+        for group in itertools.combinations(voters, size):
+            if sum(profile[vi].weight for vi in group) >= min_weight:
+                yield group
+
+
 def _check_EJR_brute_force(profile, committee, quota):
     """
     Test using brute-force whether a committee satisfies EJR.
@@ -721,8 +749,8 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (by weight) for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for i, voter in enumerate(profile):
@@ -731,15 +759,13 @@ def _check_EJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all possible combinations of considered voters that are large enough
+        for combination in _groups_with_sufficient_weight(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # compute set of candidates approved by all voters in combination
             cut = set.intersection(*(profile[vi].approved for vi in combination))
@@ -749,7 +775,7 @@ def _check_EJR_brute_force(profile, committee, quota):
                 # we have found combination to be an ell-cohesive set, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": set(combination),
                     "ell": ell,
                     "joint_candidates": cut,
                 }
@@ -870,8 +896,8 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (by weight) for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
@@ -880,15 +906,13 @@ def _check_PJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all possible combinations of considered voters that are large enough
+        for group in _groups_with_sufficient_weight(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # find set of candidates that are approved by all voters in group
             cut = set.intersection(*(profile[j].approved for j in group))
@@ -905,7 +929,7 @@ def _check_PJR_brute_force(profile, committee, quota):
                 # strictly less than ell, then this ell-cohesive group violates PJR
                 if len(approved_cands_union & committee) < ell:
                     detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
+                        "cohesive_group": set(group),
                         "ell": ell,
                         "joint_candidates": cut,
                     }
-- 
2.43.0


From 9e496cecc835f6f37881ae7c083115ba7f88b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 08/27] fix: check_EJR_plus works for quotas larger than the
 default quota

---
 abcvoting/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 39244fe..c23421b 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1120,7 +1120,8 @@ def _check_EJR_plus(profile, committee, quota):
         supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
-                utility = len(voter.approved & committee)
+                # voters with a utility of at least `ell_upper_bound` are irrelevant
+                utility = min(len(voter.approved & committee), ell_upper_bound)
                 supporters_by_utility[utility].add(vi)
 
         group = set()
-- 
2.43.0


From 395f5512196f19878ca7b2db892c6f2026d6d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 09/27] fix: full_analysis restores the output verbosity if a
 check fails

---
 abcvoting/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index c23421b..9c986f6 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -60,8 +60,12 @@ def full_analysis(profile, committee):
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
 
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -75,9 +79,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 562f8eba8937820f6f07bf6bb381ff1faaf20ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 10/27] fix: generate.rng determines the generated random
 profiles and points

---
 abcvoting/generate.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..406c87a 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -16,6 +16,11 @@ from numpy.random import default_rng
 from abcvoting.preferences import Profile, Voter
 
 
+def _random_seed():
+    """Draw a seed for a sampler from the random number generator `rng` of this module."""
+    return int(rng.integers(2**32))
+
+
 def prefsampling_wrapper(sampler, sampler_params):
     """
     Wrapper for prefsampling functions to map the outcome of the samplers to an abcvoting profile.
@@ -31,7 +36,7 @@ def prefsampling_wrapper(sampler, sampler_params):
     -------
         abcvoting.preferences.Profile
     """
-    samples = sampler(**sampler_params)
+    samples = sampler(**sampler_params, seed=_random_seed())
     num_candidates = sampler_params["num_candidates"]
     profile = Profile(num_candidates)
     for sample in samples:
@@ -907,7 +912,7 @@ class PointProbabilityDistribution:
                 num_dimensions=1,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "1d_gaussian":
             return lambda num_points, num_dimensions=1, seed=None: point_samplers.gaussian(
@@ -915,7 +920,7 @@ class PointProbabilityDistribution:
                 num_dimensions=1,
                 center_point=self.center_point,
                 sigmas=self.sigma,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "1d_gaussian_interval":
             return lambda num_points, num_dimensions=1, seed=None: point_samplers.gaussian(
@@ -924,7 +929,7 @@ class PointProbabilityDistribution:
                 center_point=self.center_point,
                 sigmas=self.sigma,
                 widths=[self.width],
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "2d_disc":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.ball_uniform(
@@ -932,7 +937,7 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "2d_square":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.cube(
@@ -940,7 +945,7 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "2d_gaussian":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.gaussian(
@@ -948,19 +953,22 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 sigmas=self.sigma,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         elif self.name == "2d_gaussian_disc":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.ball_resampling(
                 num_points,
                 num_dimensions=2,
                 inner_sampler=lambda: point_samplers.gaussian(
-                    1, num_dimensions=2, center_point=self.center_point, sigmas=self.sigma
+                    1,
+                    num_dimensions=2,
+                    center_point=self.center_point,
+                    sigmas=self.sigma,
+                    seed=_random_seed(),
                 )[0],
                 inner_sampler_args={},
                 center_point=self.center_point,
                 width=self.width,
-                seed=seed,
             )
         elif self.name == "3d_cube":
             return lambda num_points, num_dimensions=3, seed=None: point_samplers.cube(
@@ -968,7 +976,7 @@ class PointProbabilityDistribution:
                 num_dimensions=3,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=_random_seed() if seed is None else seed,
             )
         else:
             raise ValueError(f"unknown name of point distribution: {self.name}")
-- 
2.43.0


From b6382149ca52836fd3fcff48a1900c4e7e1a45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 11/27] fix: random profiles with fixed-size approval sets have
 the requested size

---
 abcvoting/generate.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index 406c87a..f5c1bf1 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -21,6 +21,14 @@ def _random_seed():
     return int(rng.integers(2**32))
 
 
+def _rel_num_approvals(setsize, num_cand):
+    """Relative size of approval sets, which prefsampling translates back to `setsize`."""
+    if setsize >= num_cand:
+        return setsize / num_cand
+    # prefsampling rounds down, hence `setsize / num_cand` can yield approval sets that are too small
+    return (setsize + 0.5) / num_cand
+
+
 def prefsampling_wrapper(sampler, sampler_params):
     """
     Wrapper for prefsampling functions to map the outcome of the samplers to an abcvoting profile.
@@ -129,7 +137,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _rel_num_approvals(setsize, num_cand),
             "alpha": replace,
         },
     )
@@ -159,7 +167,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _rel_num_approvals(setsize, num_cand),
         },
     )
 
@@ -192,7 +200,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _rel_num_approvals(setsize, num_cand),
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -307,7 +315,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _rel_num_approvals(setsize, num_cand),
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -637,7 +645,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": _rel_num_approvals(setsize, num_cand)},
     )
 
 
-- 
2.43.0


From 2865d3664536dce964be81b55cf67035e9e6887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 12/27] fix: read_preflib_file keeps all voters if different
 rankings have the same top candidates

---
 abcvoting/fileio.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..4c25923 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -115,16 +115,7 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0


From 8c2df4781b4eace289ab15caf372ac13a4086e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 13/27] fix: PrefLib files contain integer multiplicities also
 for float weights

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 4c25923..427b288 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -224,7 +224,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From ebffc0abc821e7e95e1f41f29e6ccc065f53c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 14/27] fix: empty .abc.yaml files are reported as malformatted

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 427b288..8dd3fb1 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -270,7 +270,7 @@ def read_abcvoting_yaml_file(filename):
     yaml = ruamel.yaml.YAML(typ="safe", pure=True)
     with open(filename) as inputfile:
         data = yaml.load(inputfile)
-    if "profile" not in data.keys():
+    if not isinstance(data, dict) or "profile" not in data.keys():
         raise MalformattedFileException(f"{filename} does not contain a profile.")
     if "num_cand" in data.keys():
         num_cand = int(data["num_cand"])
-- 
2.43.0


From c45fb946eddb7a6658454f311c96cf2595b56308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 15/27] fix: a failed or interrupted save leaves an existing
 file untouched

---
 abcvoting/fileio.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 8dd3fb1..2b184ce 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -6,7 +6,10 @@ Two data formats are supported:
 2. .abc.yaml files (more expressive than Preflib files).
 """
 
+import contextlib
 import os
+import shutil
+import threading
 import ruamel.yaml
 import preflibtools.instances as preflib
 from abcvoting.preferences import Profile, Voter
@@ -28,6 +31,31 @@ class MalformattedFileException(Exception):
     """Malformatted file (Preflib or .abc.yaml)."""
 
 
+@contextlib.contextmanager
+def _replace_on_success(filepath):
+    """
+    Provide a temporary file path; the file replaces `filepath` once it has been fully written.
+
+    If writing fails or is interrupted, a previously existing file at `filepath` is untouched.
+    """
+    target = os.path.realpath(filepath)
+    if os.path.exists(target) and not os.path.isfile(target):
+        yield filepath  # e.g., a pipe or a device; cannot be replaced
+        return
+    tmp_path = f"{target}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        yield tmp_path
+        if os.path.exists(target):
+            shutil.copymode(target, tmp_path)
+        with open(tmp_path, "rb+") as tmp_file:
+            os.fsync(tmp_file.fileno())
+        os.replace(tmp_path, target)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(tmp_path)
+        raise
+
+
 def get_file_names(dir_name, filename_extensions=None):
     """
     List all file names in a directory that fit the specified filename extensions.
@@ -233,7 +261,10 @@ def write_profile_to_preflib_cat_file(filepath, profile):
         else:
             preflib_inst.multiplicity[pref] += multiplicity
     preflib_inst.recompute_cardinality_param()
-    preflib_inst.write(filepath)
+    if not os.path.splitext(filepath)[1]:
+        filepath = f"{filepath}.cat"
+    with _replace_on_success(filepath) as tmp_path:
+        preflib_inst.write(tmp_path)
 
 
 def _yaml_flow_style_list(x):
@@ -389,5 +420,6 @@ def write_abcvoting_instance_to_yaml_file(
 
     yaml = ruamel.yaml.YAML()
     yaml.width = 120
-    with open(filename, "w") as outfile:
-        yaml.dump(data, outfile)
+    with _replace_on_success(filename) as tmp_path:
+        with open(tmp_path, "w") as outfile:
+            yaml.dump(data, outfile)
-- 
2.43.0


From ccab476db66eb797daacd58c9055dcb26d42d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 16/27] fix: add_voters terminates for the profile itself and
 adds no voter if one is invalid

---
 abcvoting/preferences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index ecf306b..38c9e0c 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -131,8 +131,9 @@ class Profile:
         -------
             None
         """
-        for voter in voters:
-            self.add_voter(voter)
+        # first create all voters: if one is invalid, none is added
+        new_voters = [self._unique_voter(voter) for voter in voters]
+        self._voters.extend(new_voters)
 
     def total_weight(self):
         """
-- 
2.43.0


From fcb0e3b5b16621243bfe1b7495f01ee402d2b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 17/27] fix: Profile.str_compact lists every approval set once

---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 38c9e0c..cc6ef37 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -305,10 +305,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From b37a2ed06357013edd12e36f421876ebdf8bf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 18/27] fix: .abc.yaml files are always UTF-8 encoded

---
 abcvoting/fileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 2b184ce..f701c85 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -299,7 +299,7 @@ def read_abcvoting_yaml_file(filename):
             The YAML data from `filename`.
     """
     yaml = ruamel.yaml.YAML(typ="safe", pure=True)
-    with open(filename) as inputfile:
+    with open(filename, encoding="utf-8") as inputfile:
         data = yaml.load(inputfile)
     if not isinstance(data, dict) or "profile" not in data.keys():
         raise MalformattedFileException(f"{filename} does not contain a profile.")
@@ -421,5 +421,5 @@ def write_abcvoting_instance_to_yaml_file(
     yaml = ruamel.yaml.YAML()
     yaml.width = 120
     with _replace_on_success(filename) as tmp_path:
-        with open(tmp_path, "w") as outfile:
+        with open(tmp_path, "w", encoding="utf-8") as outfile:
             yaml.dump(data, outfile)
-- 
2.43.0


From 6eb636cc930394485400812bdc704d54571a24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 19/27] fix: instances read without committee size can be
 written again

---
 abcvoting/fileio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index f701c85..9a72e32 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -404,7 +404,10 @@ def write_abcvoting_instance_to_yaml_file(
                     )
             if "committeesize" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-                if int(compute_instance["committeesize"]) != committeesize:
+                instance_committeesize = compute_instance["committeesize"]
+                if instance_committeesize is not None:
+                    instance_committeesize = int(instance_committeesize)
+                if instance_committeesize != committeesize:
                     raise ValueError(
                         "Compute instance contained a committee size different from"
                         "the committee size passed to write_abcvoting_instance_to_yaml_file()."
-- 
2.43.0


From 17a0cf25b4f1b0af40f581af8ad553ed400e1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 20/27] fix: full_analysis does not change the global output
 verbosity

---
 abcvoting/output.py     | 21 ++++++++++++++++++++-
 abcvoting/properties.py | 10 ++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/abcvoting/output.py b/abcvoting/output.py
index 8d0607c..5ac53fa 100644
--- a/abcvoting/output.py
+++ b/abcvoting/output.py
@@ -17,6 +17,8 @@ The default verbosity is `WARNING`.
 
 """
 
+import contextlib
+import contextvars
 import textwrap
 
 # should match the values defined in the logging module!
@@ -43,6 +45,10 @@ VERBOSITY_TO_NAME = {
 }
 
 
+# messages less important than WARNING are not printed in the current thread
+_muted = contextvars.ContextVar("abcvoting_output_muted", default=False)
+
+
 class Output:
     """
     Handling the output based on the current verbosity level.
@@ -86,8 +92,21 @@ class Output:
         """
         self.verbosity = verbosity
 
+    @contextlib.contextmanager
+    def muted(self):
+        """
+        Context manager: print only messages with verbosity level WARNING or higher.
+
+        Applies to the current thread only and does not change the verbosity level.
+        """
+        token = _muted.set(True)
+        try:
+            yield
+        finally:
+            _muted.reset(token)
+
     def _print(self, verbosity, msg, wrap, indent):
-        if verbosity >= self.verbosity:
+        if verbosity >= (max(self.verbosity, WARNING) if _muted.get() else self.verbosity):
             if wrap:
                 input_msg = msg.split("\n")
                 msg = "\n".join(
diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 9c986f6..c714c68 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -6,7 +6,7 @@ import gurobipy as gb
 import itertools
 import math
 from fractions import Fraction
-from abcvoting.output import output, WARNING
+from abcvoting.output import output
 from abcvoting.misc import str_set_of_candidates, CandidateSet, dominate, powerset
 
 
@@ -57,15 +57,9 @@ def full_analysis(profile, committee):
     results = {}
 
     # temporarily no output
-    current_verbosity = output.verbosity
-    output.set_verbosity(WARNING)
-
-    try:
+    with output.muted():
         for property_name in PROPERTY_NAMES:
             results[property_name] = check(property_name, profile, committee)
-    finally:
-        # restore output verbosity
-        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
-- 
2.43.0


From 06296468763bd26f1235c1632c8ae9d8a73aa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:28 +0000
Subject: [PATCH 21/27] fix: read_preflib_file refuses top_ranks=0 and
 setsize=0

The check for non-positive values skipped 0, so that every ballot was read as empty.
---
 abcvoting/fileio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 9a72e32..920b034 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -129,11 +129,11 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
     """
     if top_ranks is None and setsize is None:
         top_ranks = 1  # default
-    if top_ranks and setsize:
+    if top_ranks is not None and setsize is not None:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From ce77e9fc795f959b8c3bcc0743eddefba319f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:45 +0000
Subject: [PATCH 22/27] fix: voter weights must be finite numbers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Voter(…, weight=nan) and weight=inf were accepted (nan <= 0 is False).
---
 abcvoting/preferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index cc6ef37..9125757 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -355,8 +355,8 @@ class Voter:
         self.weight = weight
 
         # check weights
-        if self.weight <= 0:
-            raise ValueError("Weight should be a number > 0.")
+        if not 0 < self.weight < float("inf"):
+            raise ValueError("Weight should be a finite number > 0.")
 
     def __str__(self):
         return str(self.approved)
-- 
2.43.0


From 86ec293ff63f2e4f3a91d5b64fda8b46503bc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:45 +0000
Subject: [PATCH 23/27] fix: geometric score functions need a positive base

geom0 raised ZeroDivisionError when evaluated, negative bases were accepted.
---
 abcvoting/scores.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abcvoting/scores.py b/abcvoting/scores.py
index 7fe0483..a32b0ae 100644
--- a/abcvoting/scores.py
+++ b/abcvoting/scores.py
@@ -53,6 +53,8 @@ def get_marginal_scorefct(scorefct_id, committeesize=None):
         return av_score_fct
     if scorefct_id[:4] == "geom":
         base = Fraction(scorefct_id[4:])
+        if base <= 0:
+            raise UnknownScoreFunctionError(scorefct_id)
         return functools.partial(geometric_marginal_score_fct, base=base)
     if scorefct_id[:7] == "atleast":
         param = int(scorefct_id[7:])
-- 
2.43.0


From 2919da12db1a1c31927912959c4e2cadd276b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:45 +0000
Subject: [PATCH 24/27] fix: Thiele branch-and-bound refuses increasing score
 functions

Its upper bound is valid for decreasing marginal scores only; geom0.5 raised IndexError.
---
 abcvoting/abcrules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 0d3c15d..50bc92b 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -773,6 +773,10 @@ def _thiele_methods_branchandbound(
     Branch-and-bound algorithm for Thiele methods.
     """
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
+    score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
+    if any(first < second for first, second in zip(score_values, score_values[1:])):
+        # the upper bound is not valid for such score functions
+        raise ValueError("The score function must be monotonic decreasing")
 
     best_committees = []
     init_com, _ = _seq_thiele_resolute(scorefct_id, profile, committeesize)
-- 
2.43.0


From 3e8f6cac91c0290d0e4dcf91e00652fcfb8399ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:06:50 +0000
Subject: [PATCH 25/27] Revert "fix: Thiele branch-and-bound refuses increasing
 score functions"

This reverts commit 2919da12db1a1c31927912959c4e2cadd276b158.
---
 abcvoting/abcrules.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 50bc92b..0d3c15d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -773,10 +773,6 @@ def _thiele_methods_branchandbound(
     Branch-and-bound algorithm for Thiele methods.
     """
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
-    score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
-    if any(first < second for first, second in zip(score_values, score_values[1:])):
-        # the upper bound is not valid for such score functions
-        raise ValueError("The score function must be monotonic decreasing")
 
     best_committees = []
     init_com, _ = _seq_thiele_resolute(scorefct_id, profile, committeesize)
-- 
2.43.0


From 4af68667edaf289cddaf6ba6b36d2b28801bf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:06:50 +0000
Subject: [PATCH 26/27] Revert "fix: geometric score functions need a positive
 base"

This reverts commit 86ec293ff63f2e4f3a91d5b64fda8b46503bc103.
---
 abcvoting/scores.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/abcvoting/scores.py b/abcvoting/scores.py
index a32b0ae..7fe0483 100644
--- a/abcvoting/scores.py
+++ b/abcvoting/scores.py
@@ -53,8 +53,6 @@ def get_marginal_scorefct(scorefct_id, committeesize=None):
         return av_score_fct
     if scorefct_id[:4] == "geom":
         base = Fraction(scorefct_id[4:])
-        if base <= 0:
-            raise UnknownScoreFunctionError(scorefct_id)
         return functools.partial(geometric_marginal_score_fct, base=base)
     if scorefct_id[:7] == "atleast":
         param = int(scorefct_id[7:])
-- 
2.43.0


From e34655f4591221e653c3103b79652edbd9cf4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:06:50 +0000
Subject: [PATCH 27/27] Revert "fix: voter weights must be finite numbers"

This reverts commit ce77e9fc795f959b8c3bcc0743eddefba319f897.
---
 abcvoting/preferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 9125757..cc6ef37 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -355,8 +355,8 @@ class Voter:
         self.weight = weight
 
         # check weights
-        if not 0 < self.weight < float("inf"):
-            raise ValueError("Weight should be a finite number > 0.")
+        if self.weight <= 0:
+            raise ValueError("Weight should be a number > 0.")
 
     def __str__(self):
         return str(self.approved)
-- 
2.43.0

