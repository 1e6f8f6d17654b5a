From dbe300ee38001815453f44e9bfd1b5d377ca40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:49 +0000
Subject: [PATCH 01/61] fix: find the best two-node tree when a three-node tree
 has zero cost

The depth-two solver stopped as soon as it had a perfect three-node tree, but
stored the best two-node tree seen so far as optimal.
---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index e902f8a..639c4bb 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -67,7 +67,7 @@ namespace STreeD {
 
 		for (int _f1 = 0; _f1 < _num_features; _f1++) {
 			int f1 = features[_f1];
-			if (SolutionsEqual<OT>(zero_sol, results.three_nodes_solutions)) break;
+			if (SolutionsEqual<OT>(zero_sol, results.two_nodes_solutions)) break;
 
 			for (int _f2 = _f1 + 1; _f2 < _num_features; _f2++) {
 				int f2 = features[_f2];
-- 
2.43.0


From 707590ebf0f59e4c9c62233defa0a89c2e3e8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:49 +0000
Subject: [PATCH 02/61] fix: let the depth-two solver use every feature as a
 child test

A feature with fewer than twice the minimum leaf size on both sides cannot be
the root of a depth-two tree, but it can be a child of another feature.
---
 src/solver/terminal_solver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index 639c4bb..a8553d3 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -57,7 +57,6 @@ namespace STreeD {
 			runtime_assert(total0 == cost_calculator.GetCount00(f1, f1));
 			
 			if (total0 < solver_parameters->minimum_leaf_node_size || total1 < solver_parameters->minimum_leaf_node_size) continue;
-			if (total0 < 2 * solver_parameters->minimum_leaf_node_size && total1 < 2 * solver_parameters->minimum_leaf_node_size) continue;
 			features.push_back(f1);
 		}
 		const int _num_features = int(features.size());
-- 
2.43.0


From 34adf168cc89f24f1eafc9854043c5234dc65a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:49 +0000
Subject: [PATCH 03/61] fix: do not branch on the protected feature when
 reconstructing small trees

---
 src/solver/terminal_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index a8553d3..4397c84 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -420,6 +420,7 @@ namespace STreeD {
 		if (node.num_nodes_left > 0 || node.num_nodes_right > 0) {
 			for (int f2 = 0; f2 < num_features; f2++) {
 				if (f2 == node.feature) continue;
+				if (!task->MayBranchOnFeature(f2)) continue;
 
 				cost_calculator.GetCounts(counts, node.feature, f2);
 				
-- 
2.43.0


From ba27ba39a4121948febd8777ebd30c440e6a88ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:49 +0000
Subject: [PATCH 04/61] fix: do not cache two- and three-node bounds after a
 one-node search

---
 src/solver/solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7bc78dc..d7aab00 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -563,7 +563,8 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 1, 1);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
+		// With a node budget of one, the terminal solver has only computed the one-node solutions
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
 			auto& two_nodes_solutions = results.two_nodes_solutions;
 			if (!CheckEmptySol<OT>(two_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2);
@@ -571,7 +572,7 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 2, 2);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
 			auto& three_nodes_solutions = results.three_nodes_solutions;
 			if (!CheckEmptySol<OT>(three_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3);
-- 
2.43.0


From 383e78a723f59c755e19326065edf0c6615e4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:49 +0000
Subject: [PATCH 05/61] fix: keep duplicate features that are cheaper or the
 only ones allowed

A duplicate of a feature may have lower test costs, and a duplicate of the
protected feature is the only copy that may be branched on.
---
 src/solver/solver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d7aab00..047b8d0 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1184,10 +1184,12 @@ namespace STreeD {
 				}
 			}
 			// Find duplicate features and turn them off
-			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
-				if (redundant_features[f1]) continue;
+			// Except if branching on the duplicate may be cheaper than branching on the original
+			const bool remove_duplicates = !OT::has_branching_costs || OT::constant_branching_costs;
+			for (int f1 = 0; remove_duplicates && f1 < data.NumFeatures() - 1; f1++) {
+				if (redundant_features[f1] || !task->MayBranchOnFeature(f1)) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
-					if (redundant_features[f2]) continue;
+					if (redundant_features[f2] || !task->MayBranchOnFeature(f2)) continue;
 					bool same = true;
 					for (int i = 0; i < data.Size(); i++) {
 						auto instance = data.GetInstance(i);
-- 
2.43.0


From 478f763ee0829597239e1a49c66b1fd580c313e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:23 +0000
Subject: [PATCH 06/61] fix: measure the time limit with a monotonic clock

---
 include/utils/stopwatch.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utils/stopwatch.h b/include/utils/stopwatch.h
index b036fa6..0fc1f62 100644
--- a/include/utils/stopwatch.h
+++ b/include/utils/stopwatch.h
@@ -4,21 +4,22 @@ https://bitbucket.org/EmirD/murtree
 */
 #pragma once
 #include <base.h>
+#include <chrono>
 
 namespace STreeD {
 
 	class Stopwatch {
 	public:
-		Stopwatch() :starting_time(0), time_limit_in_seconds(0) {}
+		Stopwatch() : time_limit_in_seconds(0) {}
 
 		void Initialise(double time_limit_in_seconds) {
-			starting_time = time(nullptr);
+			starting_time = std::chrono::steady_clock::now();
 			this->time_limit_in_seconds = time_limit_in_seconds;
 			this->enabled = true;
 		}
 
 		double TimeElapsedInSeconds() const {
-			return difftime(time(nullptr), starting_time);
+			return std::chrono::duration<double>(std::chrono::steady_clock::now() - starting_time).count();
 		}
 
 		double TimeLeftInSeconds() const {
@@ -34,7 +35,7 @@ namespace STreeD {
 		void Disable() { enabled = false; }
 
 	private:
-		time_t starting_time;
+		std::chrono::steady_clock::time_point starting_time; // Not affected by changes of the system time
 		double time_limit_in_seconds;
 		bool enabled{ true };
 	};
-- 
2.43.0


From 77033f82513563d2aed462f1f6f993d9961adad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:50 +0000
Subject: [PATCH 07/61] fix: apply the finished search depth only to the lower
 bound of the root

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 047b8d0..89de086 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -660,7 +660,8 @@ namespace STreeD {
 						break;
 					}
 				}
-				max_depth_searched = std::max(max_depth_searched, max_depth_finished - current_depth);
+				// Only for the root node: a completed search over all trees of a smaller depth says nothing about a single branch
+				if (current_depth == 0) max_depth_searched = std::max(max_depth_searched, max_depth_finished);
 				int min_nodes_to_use = max_depth_searched + 1;
 				
 				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
-- 
2.43.0


From 44ecc4c839136828893e5345590b875bf2ee7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:50 +0000
Subject: [PATCH 08/61] fix: do not reuse cost-sensitive solutions and bounds
 from other branches

---
 include/solver/cache.h | 1 +
 src/solver/solver.cpp  | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/solver/cache.h b/include/solver/cache.h
index 483f47a..8427239 100644
--- a/include/solver/cache.h
+++ b/include/solver/cache.h
@@ -36,6 +36,7 @@ namespace STreeD {
 		void DisableOptimalCaching()	{ use_optimal_caching = false; }
 		void DisableBrachCaching()		{ use_branch_caching = false; }
 		void DisableDatasetCaching()	{ use_dataset_caching = false; }
+		void ReplaceDatasetByBranchCaching() { use_branch_caching = UseCache(); use_dataset_caching = false; }
 		bool UseCache() const { return use_branch_caching || use_dataset_caching; }
 	
 	private:
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 89de086..c183bcc 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -262,13 +262,16 @@ namespace STreeD {
 	void Solver<OT>::ResetCache() {
 		if (cache != nullptr) delete cache;
 		cache = new Cache<OT>(parameters, MAX_DEPTH, train_data.Size());
+		// If the branching costs depend on the branch, then solutions for the same data in another branch cannot be reused
+		const bool branch_dependent_costs = OT::has_branching_costs && !OT::constant_branching_costs;
+		if (branch_dependent_costs) cache->ReplaceDatasetByBranchCaching();
 		if (!solver_parameters.use_lower_bounding) cache->DisableLowerBoundCaching();
 		// Only use the similarity lower bound computer if the optimization task is element-wise additive
 		if constexpr (OT::element_additive) {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
-			if (!solver_parameters.similarity_lb) similarity_lower_bound_computer->Disable();
+			if (!solver_parameters.similarity_lb || branch_dependent_costs) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From 0642057a6985595472e8b7d2ead86aced80d8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:37 +0000
Subject: [PATCH 09/61] fix: do not prune fairness solutions by bounds below
 the largest possible group scores

---
 include/tasks/eq_opp.h         | 2 +-
 include/tasks/group_fairness.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 50d4db1..de60c3f 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -154,7 +154,7 @@ namespace STreeD {
 		}
 
 		inline static std::vector<EqOppSol> ExtremePoints() {
-			return { {INT32_MAX, 0, 0}, {0, 1, 0}, {0, 0, 1} };
+			return { {INT32_MAX, 0, 0}, {0, INT32_MAX, 0}, {0, 0, INT32_MAX} };
 		}
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ab14eae..1e60d01 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -154,7 +154,7 @@ namespace STreeD {
 		}
 
 		inline static std::vector<GroupFairnessSol> ExtremePoints() {
-			return { {INT32_MAX, 0, 0}, {0, 1, 0}, {0, 0, 1} };
+			return { {INT32_MAX, 0, 0}, {0, INT32_MAX, 0}, {0, 0, INT32_MAX} };
 		}
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
-- 
2.43.0


From 98502a4dec6d53d694064c888ca91e09c34234bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:58 +0000
Subject: [PATCH 10/61] fix: recompute depth-two results when they depend on
 the context or upper bound

---
 src/solver/cost_combiner.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index b68025e..41c1a6e 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -19,7 +19,8 @@ namespace STreeD {
 			data_add.ResetReserve(data);
 			data_remove.ResetReserve(data);
 			BinaryDataDifferenceComputer::ComputeDifference(this->data, data, data_add, data_remove);
-			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter)) return false;
+			// The previous results can be reused, except when they depend on the context or on the upper bound
+			if (data_add.Size() == 0 && data_remove.Size() == 0 && !OT::terminal_filter && !OT::terminal_compute_context) return false;
 		}
 		
 		this->data = data;
@@ -35,8 +36,8 @@ namespace STreeD {
 			
 			UpdateCosts(data, +1);
 		}
-		ResetBranchingCosts(); // TODO recompute even if no changes made, because context changes
-		UpdateBranchingCosts(data, context); // TODO recompute even if no changes made, because context changes
+		ResetBranchingCosts();
+		UpdateBranchingCosts(data, context);
 		return true;
 	}
 
-- 
2.43.0


From 7ccb13d86cc4dd1d5f041ab2eefd1bda1b725fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:12 +0000
Subject: [PATCH 11/61] fix: keep depth-two solutions when upper bounding is
 off

---
 src/solver/solver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index c183bcc..ca2d8c0 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -589,13 +589,13 @@ namespace STreeD {
 
 		// Return solutions based on node budget
 		if (num_nodes == 1) {
-			if (LeftStrictDominatesRight<OT>(UB, results.one_node_solutions)) return InitializeSol<OT>();
+			if (solver_parameters.use_upper_bounding && LeftStrictDominatesRight<OT>(UB, results.one_node_solutions)) return InitializeSol<OT>();
 			return CopySol<OT>(results.one_node_solutions);
 		} else if (num_nodes == 2) {
-			if (LeftStrictDominatesRight<OT>(UB, results.two_nodes_solutions)) return InitializeSol<OT>();
+			if (solver_parameters.use_upper_bounding && LeftStrictDominatesRight<OT>(UB, results.two_nodes_solutions)) return InitializeSol<OT>();
 			return CopySol<OT>(results.two_nodes_solutions);
 		}
-		if (LeftStrictDominatesRight<OT>(UB, results.three_nodes_solutions)) return InitializeSol<OT>();
+		if (solver_parameters.use_upper_bounding && LeftStrictDominatesRight<OT>(UB, results.three_nodes_solutions)) return InitializeSol<OT>();
 		return CopySol<OT>(results.three_nodes_solutions);
 	}
 
-- 
2.43.0


From 50b8c4a280c6b58f8add884cf2d1a0b6e5c03d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:07 +0000
Subject: [PATCH 12/61] fix: compare Pareto bounds by whether every right
 solution is dominated

---
 include/solver/optimization_utils.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 2c9e7cf..75ddbb6 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -242,30 +242,30 @@ namespace STreeD {
 	}
 
 	/*
-	* Return true iff for all left solutions there is at least one right solution that inverse dominates it
+	* Return true iff every right solution is dominated by at least one left solution
 	*/
 	template <class OT>
 	inline bool LeftDominatesRight(const SolContainer<OT>& left, const SolContainer<OT>& right) {
 		if constexpr (OT::total_order) {
 			return LeftDominatesRight<OT>(left.solution, right.solution);
 		} else {
-			for (const Node<OT>& assignment : left->GetSolutions()) {
-				if (!right->DominatesInv(assignment)) { return false; }
+			for (const Node<OT>& assignment : right->GetSolutions()) {
+				if (!left->Dominates(assignment)) { return false; }
 			}
 			return true;
 		}
 	}
 
 	/*
-	* Return true iff for all left solutions there is at least one right solution that inverse strictly dominates it
+	* Return true iff every right solution is strictly dominated by at least one left solution
 	*/
 	template <class OT>
 	bool LeftStrictDominatesRight(const SolContainer<OT>& left, const SolContainer<OT>& right) {
 		if constexpr (OT::total_order) {
 			return LeftStrictDominatesRight<OT>(left.solution, right.solution);
 		} else {
-			for (const auto& assignment : left->GetSolutions()) {
-				if (!right->StrictDominatesInv(assignment)) { return false; }
+			for (const auto& assignment : right->GetSolutions()) {
+				if (!left->StrictDominates(assignment)) { return false; }
 			}
 			return true;
 		}
-- 
2.43.0


From ab1dbd384fc553272a9a44d1e71837ef2a67b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:42 +0000
Subject: [PATCH 13/61] fix: drop the group scores of relaxed root solutions

---
 src/tasks/eq_opp.cpp         | 2 ++
 src/tasks/group_fairness.cpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 4c9d978..628c82b 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -92,6 +92,8 @@ namespace STreeD {
 	}
 
 	void EqOpp::RelaxRootSolution(Node<EqOpp>& sol) const {
+		sol.solution.group0_score = 0;
+		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
 	}
 
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index dc3d0fe..4661315 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -91,8 +91,8 @@ namespace STreeD {
 	}
 
 	void GroupFairness::RelaxRootSolution(Node<GroupFairness>& sol) const {
-		//sol.solution.group0_score = 0;
-		//sol.solution.group1_score = 0;
+		sol.solution.group0_score = 0;
+		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
 	}
 
-- 
2.43.0


From 225d1a5f39c89992fd87eeddc0d6b91a5a299533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:48 +0000
Subject: [PATCH 14/61] fix: keep Pareto lower bounds valid when they are
 combined or reduced

---
 include/solver/optimization_utils.h | 28 +++++++++++++++-------------
 src/solver/solver.cpp               |  4 ++--
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 75ddbb6..b3473dc 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -144,19 +144,6 @@ namespace STreeD {
 		}
 	}
 
-	/*
-	* Add set of solutions to the solution container
-	* Use the inverted dominance operator to determine dominance
-	*/
-	template <class OT>
-	inline void AddSolsInv(SolContainer<OT>& container, const SolContainer<OT>& sols) {
-		if constexpr (OT::total_order) {
-			if (sols.solution > container.solution) container = sols;
-		} else {
-			container->AddInv(*(sols.get()));
-		}
-	}
-
 	/*
 	* Add relaxed solutions to the upper bound
 	* only if the current node is the root node, and the optimization task has constraints
@@ -271,6 +258,21 @@ namespace STreeD {
 		}
 	}
 
+	/*
+	* Update the lower bound in the container with another valid lower bound
+	* A set of solutions is a lower bound if every attainable solution is dominated by at least one member of the set
+	*/
+	template <class OT>
+	inline void AddSolsInv(SolContainer<OT>& container, const SolContainer<OT>& sols) {
+		if constexpr (OT::total_order) {
+			if (sols.solution > container.solution) container = sols;
+		} else {
+			// Two sets cannot be mixed, because both sets need all their members. Use the new set if it is tighter
+			if (CheckEmptySol<OT>(sols)) return;
+			if (CheckEmptySol<OT>(container) || LeftDominatesRight<OT>(container, sols)) container = CopySol<OT>(sols);
+		}
+	}
+
 	/*
 	* Return true if and only if the left and right solution (set) are equal
 	*/
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index ca2d8c0..d9053fe 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -747,11 +747,11 @@ namespace STreeD {
 
 		// To prevent high computation time, reduce the left and right LB to at most MAX_SIZE items
 		if (left_sols->Size() > MAX_SIZE) {
-			small_left_sols.AddInvOrMerge(*(left_sols.get()), MAX_SIZE);
+			small_left_sols.AddOrMerge(*(left_sols.get()), MAX_SIZE);
 			left_sols_ptr = &small_left_sols;
 		}
 		if (right_sols->Size() > MAX_SIZE) {
-			small_right_sols.AddInvOrMerge(*(right_sols.get()), MAX_SIZE);
+			small_right_sols.AddOrMerge(*(right_sols.get()), MAX_SIZE);
 			right_sols_ptr = &small_right_sols;
 		}
 
-- 
2.43.0


From 97e3a71a50c1b7a8624de333093fb2736b9e7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:36 +0000
Subject: [PATCH 15/61] fix: do not prune cached Pareto solutions with bounds
 of one particular visit

---
 src/solver/solver.cpp | 85 +++----------------------------------------
 1 file changed, 6 insertions(+), 79 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d9053fe..702497b 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -784,87 +784,14 @@ namespace STreeD {
 				updatedUB.solution = UB.solution;
 			}
 		} else {
-			const size_t MAX_SIZE = solver_parameters.UB_LB_max_size;
-			if (!solver_parameters.use_upper_bounding || !solver_parameters.subtract_ub || sols->Size() == 0) {
-				updatedUB = CopySol<OT>(UB);
-				if (solver_parameters.use_upper_bounding) {
-					// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
-					// to constraint satisfaction from the solution
-					AddRootRelaxSols<OT>(task, branch, updatedUB, current_solutions);
+			// The (cached) solution set of a branch is reused with other upper bounds. Therefore, it may only be pruned
+			// with bounds that keep holding during the rest of the search: the relaxed solutions of the root node.
+			if constexpr (OT::has_constraint) {
+				for (auto& sol : UB->GetSolutions()) {
+					if (sol.solution.root_solution) AddSol<OT>(updatedUB, sol);
 				}
-				return;
 			}
-			Node<OT> diffsol;
-
-			// Reduce size of UB
-			const Solver<OT>::SolContainer* UB_ptr = &UB;
-			Solver<OT>::SolContainer small_UB = InitializeSol<OT>();
-			if (UB->Size() >= MAX_SIZE) {
-				small_UB = InitializeSol<OT>();
-				small_UB->AddOrInvMerge(*(UB.get()), MAX_SIZE);
-				UB_ptr = &small_UB;
-			}
-
-			// Subtract branching costs
-			Solver<OT>::SolContainer branch_substract_UB = InitializeSol<OT>();
-			if (OT::has_branching_costs) {
-				for (size_t i = 0; i < (*UB_ptr)->Size(); i++) {
-					OT::Subtract((*UB_ptr)->GetSolutions()[i].solution, branching_costs, diffsol.solution);
-					branch_substract_UB->Add(diffsol);
-				}
-				UB_ptr = &branch_substract_UB;
-			}
-
-			// Reduce size of sols
-			const Solver<OT>::SolContainer* sols_ptr = &sols;
-			Solver<OT>::SolContainer small_sols = InitializeSol<OT>();
-			if (sols->Size() >= MAX_SIZE) {
-				small_sols->AddOrMerge(*(sols.get()), MAX_SIZE);
-				sols_ptr = &small_sols;
-			}
-
-			Solver<OT>::SolContainer corner_union = InitializeSol<OT>();
-			Solver<OT>::SolContainer sub_union = InitializeSol<OT>();
-			auto extreme_points = OT::ExtremePoints();
-			for (size_t j = 0; j < (*sols_ptr)->Size(); j++) {
-				Solver<OT>::SolContainer sub_ub = InitializeSol<OT>();
-				for (size_t i = 0; i < (*UB_ptr)->Size(); i++) {
-					OT::Subtract((*UB_ptr)->Get(i).solution, (*sols_ptr)->Get(j).solution, diffsol.solution);
-					//sub_ub->AddOrInvMerge(diffsol, MAX_SIZE);
-					sub_ub->Add(diffsol);
-				}
-				for (auto& ep : extreme_points) {
-					sub_ub->Add(Node<OT>(ep));
-				}
-
-				// Compute 'staircase corners'
-				Solver<OT>::SolContainer corners = InitializeSol<OT>();
-				for (size_t i = 0; i < sub_ub->Size(); i++) {
-					for (size_t k = i + 1; k < sub_ub->Size(); k++) {
-						OT::MergeInv(sub_ub->Get(i).solution, sub_ub->Get(k).solution, diffsol.solution);
-						//corners->AddOrInvMerge(diffsol, MAX_SIZE);
-						corners->Add(diffsol);
-					}
-				}
-				//corner_union->AddInvOrInvMerge(*(corners.get()), MAX_SIZE);
-				//sub_union->AddInvOrInvMerge(*(sub_ub.get()), MAX_SIZE);
-				
-				corner_union->AddInv(*(corners.get()));
-				sub_union->AddInv(*(sub_ub.get()));
-			}
-			// Compute 'staircase corners'
-			for (auto& ep : extreme_points) {
-				corner_union->Add(Node<OT>(ep));
-			}
-			for (size_t i = 0; i < corner_union->Size(); i++) {
-				for (size_t k = i + 1; k < corner_union->Size(); k++) {
-					OT::Merge(corner_union->Get(i).solution, corner_union->Get(k).solution, diffsol.solution);
-					updatedUB->AddInvOrInvMerge(diffsol, MAX_SIZE);
-				}
-			}
-			updatedUB->AddInvOrInvMerge(*(sub_union.get()), MAX_SIZE);
-			//updatedUB->AddOrInvMerge(*(UB_ptr->get()), MAX_SIZE);
-			
+			if (!solver_parameters.use_upper_bounding) return;
 		}
 		// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
 		// to constraint satisfaction from the solution
-- 
2.43.0


From dc74b4258f941997f9251d1590370e5ec41add8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:44 +0000
Subject: [PATCH 16/61] fix: keep the parts of the best fair solution available
 for reconstruction

---
 src/tasks/eq_opp.cpp         | 2 ++
 src/tasks/group_fairness.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 628c82b..053b8ec 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -92,6 +92,8 @@ namespace STreeD {
 	}
 
 	void EqOpp::RelaxRootSolution(Node<EqOpp>& sol) const {
+		// Only prune worse solutions, so that the parts of the best solution remain available for reconstructing the tree
+		sol.solution.misclassifications++;
 		sol.solution.group0_score = 0;
 		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 4661315..69a0e93 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -91,6 +91,8 @@ namespace STreeD {
 	}
 
 	void GroupFairness::RelaxRootSolution(Node<GroupFairness>& sol) const {
+		// Only prune worse solutions, so that the parts of the best solution remain available for reconstructing the tree
+		sol.solution.misclassifications++;
 		sol.solution.group0_score = 0;
 		sol.solution.group1_score = 0;
 		sol.solution.root_solution = true;
-- 
2.43.0


From ee00ee01105cf78a9d2203b4286acbefc42374fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:37 +0000
Subject: [PATCH 17/61] fix: do not cache the result of a search that was cut
 short

---
 src/solver/solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 702497b..abf4320 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -513,6 +513,9 @@ namespace STreeD {
 
 		}
 
+		// If the search is cut short, the solutions are not optimal for this branch and nothing can be stored
+		if (!stopwatch.IsWithinTimeLimit()) return solutions;
+
 		// If a feasible solution is found (better than the UB), store it in the cache
 		// Or update the LB for this branch
 		SetSolSizeBudget<OT>(solutions, max_depth, num_nodes);
-- 
2.43.0


From 0429e83e09a76255e3205d0a466747cd997fe376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:30 +0000
Subject: [PATCH 18/61] fix: reconstruct Pareto solutions within the size limit
 they were found for

---
 include/solver/solver.h |  6 ++++++
 src/solver/solver.cpp   | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/solver/solver.h b/include/solver/solver.h
index c080397..777aa5b 100644
--- a/include/solver/solver.h
+++ b/include/solver/solver.h
@@ -110,6 +110,12 @@ namespace STreeD {
 		static constexpr bool sparse_objective = OT::total_order && OT::has_branching_costs
 			&& OT::constant_branching_costs && (std::is_same<typename OT::SolType, double>::value || std::is_same<typename OT::SolType, int>::value);
 
+		// The solutions found when searching for trees within a size limit
+		struct SearchStep {
+			int max_depth, num_nodes;
+			SolContainer solutions;
+		};
+
 		Solver(ParameterHandler& parameters, std::default_random_engine* rng);
 		~Solver();
 
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index abf4320..5653cb6 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -85,6 +85,7 @@ namespace STreeD {
 
 		// if no UB is given yet, compute the leaf solutions in the root node and use these as UB
 		auto result = InitializeSol<OT>();
+		std::vector<SearchStep> search_steps; // The solutions found for each size limit
 		if (CheckEmptySol<OT>(global_UB)) {
 			global_UB = InitializeSol<OT>();
 			// If an upper bound is provided, and the objective is numeric, add it to the UB
@@ -117,6 +118,7 @@ namespace STreeD {
 				}
 				max_depth = std::min(int(parameters.GetIntegerParameter("max-depth")), num_nodes);
 				auto sol = SolveSubTree(train_data, root_context, global_UB, max_depth, num_nodes);
+				search_steps.push_back({ max_depth, num_nodes, sol });
 				max_depth_searched = max_depth;
 				max_depth_finished = int_log2(num_nodes + 1);
 				AddSols<OT>(task, 0, result, sol);
@@ -147,6 +149,7 @@ namespace STreeD {
 					std::cout << "Search d = " << std::setw(2) << _max_depth << " | ";
 				}
 				auto sol = SolveSubTree(train_data, root_context, global_UB, _max_depth, _num_nodes);
+				search_steps.push_back({ _max_depth, _num_nodes, sol });
 				AddSols<OT>(task, 0, result, sol);
 				AddSols<OT>(global_UB, sol);
 				if constexpr (OT::total_order) {
@@ -192,7 +195,17 @@ namespace STreeD {
 		} else {
 			for (auto& s : result->GetSolutions()) {
 				clock_t clock_start = clock();
-				auto tree = ConstructOptimalTree(s, train_data, root_context, max_depth_searched, int(parameters.GetIntegerParameter("max-num-nodes")));
+				// Reconstruct the tree with the size limit for which it was found, since other limits have other (cached) solutions
+				int depth = max_depth_searched;
+				int num_nodes = max_num_nodes;
+				for (auto& step : search_steps) {
+					auto& sols = step.solutions->GetSolutions();
+					if (std::find(sols.begin(), sols.end(), s) == sols.end()) continue;
+					depth = step.max_depth;
+					num_nodes = step.num_nodes;
+					break;
+				}
+				auto tree = ConstructOptimalTree(s, train_data, root_context, depth, num_nodes);
 				stats.time_reconstructing += double(clock() - clock_start) / CLOCKS_PER_SEC;
 				auto score = InternalTrainScore<OT>::ComputeTrainPerformance(&data_splitter, task, tree.get(), train_data);
 				PostProcessTree(tree);
-- 
2.43.0


From d10d9475d0f1ac0059ae1729d8dc4a21334c0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:51 +0000
Subject: [PATCH 19/61] fix: do not add branching costs to bounds that already
 include them

---
 src/solver/solver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 5653cb6..1a55036 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -683,13 +683,17 @@ namespace STreeD {
 				if (current_depth == 0) max_depth_searched = std::max(max_depth_searched, max_depth_finished);
 				int min_nodes_to_use = max_depth_searched + 1;
 				
-				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
+				// Add the custom lower bound for the leaf nodes, unless it may already include the branching costs
+				auto split_costs = min_nodes_to_use * branching_costs;
+				if constexpr (OT::combine_custom_lb_purification) split_costs += custom_lb.solution;
+
+				if (solutions.solution <= split_costs) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
 					// The previous solution is worse than splitting on at least min_nodes_to_use, so use the minimum
 					// number of nodes as the lower bound.
-					Node<OT> split_lb(0, min_nodes_to_use * branching_costs + custom_lb.solution, solutions.num_nodes_left, solutions.num_nodes_right);
+					Node<OT> split_lb(0, split_costs, solutions.num_nodes_left, solutions.num_nodes_right);
 					AddSolsInv<OT>(lb, split_lb);
 				}
 			}
-- 
2.43.0


From e6a38a54d71e5365a77729ad096102f01cd86fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:19 +0000
Subject: [PATCH 20/61] fix: do not bound unsolved branches by the costs of
 splitting them

---
 src/solver/solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 1a55036..51aaa32 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -687,7 +687,9 @@ namespace STreeD {
 				auto split_costs = min_nodes_to_use * branching_costs;
 				if constexpr (OT::combine_custom_lb_purification) split_costs += custom_lb.solution;
 
-				if (solutions.solution <= split_costs) {
+				if (CheckEmptySol<OT>(solutions)) {
+					// The costs of not splitting are unknown, and may be lower than the branching costs
+				} else if (solutions.solution <= split_costs) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
-- 
2.43.0


From 124342d26ae03538ee85b643b5814343614fa959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:44 +0000
Subject: [PATCH 21/61] fix: do not use the similarity bound with a minimum
 leaf node size

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 51aaa32..677938d 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -284,7 +284,8 @@ namespace STreeD {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
-			if (!solver_parameters.similarity_lb || branch_dependent_costs) similarity_lower_bound_computer->Disable();
+			// Added instances may make a leaf node large enough, so the bound does not hold for a minimum leaf node size
+			if (!solver_parameters.similarity_lb || branch_dependent_costs || solver_parameters.minimum_leaf_node_size > 1) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From a3a3f6dbe9cf85583b307e5d4481e17a52f3acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:44 +0000
Subject: [PATCH 22/61] fix: take the leaf costs into account in the lower
 bound of infeasible branches

---
 src/solver/solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 677938d..68570ed 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -539,6 +539,9 @@ namespace STreeD {
 			if (SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
 				infeasible_lb = orgUB;
 			} else {
+				// Not splitting is also an option, so the leaf costs limit the lower bound
+				auto no_UB = InitializeSol<OT>();
+				AddSols<OT>(infeasible_lb, SolveLeafNode(data, context, no_UB));
 				AddSolsInv<OT>(infeasible_lb, orgUB);
 			}
 			cache->UpdateLowerBound(data, branch, infeasible_lb, max_depth, num_nodes);
-- 
2.43.0


From 16c58ca8ed5e6e7fc82ea8aae6648f719c480718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:32 +0000
Subject: [PATCH 23/61] fix: count merged instances by their weight in the
 average path length

---
 include/model/data.h    | 1 +
 include/solver/result.h | 4 ++--
 include/solver/tree.h   | 4 ++--
 src/model/data.cpp      | 8 ++++++++
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/model/data.h b/include/model/data.h
index bbbfd79..646cac3 100644
--- a/include/model/data.h
+++ b/include/model/data.h
@@ -193,6 +193,7 @@ namespace STreeD {
 		inline int NumFeatures() const { return data->NumFeatures(); }
 		inline int Size() const { return size; }
 		void ComputeSize();
+		double TotalWeight() const; // The sum of the weights of the instances (equal to Size() unless instances are merged)
 		inline const AData* GetData() const { return data; }
 		inline bool IsInitialized() const { return data != nullptr; }
 		inline ADataViewBitSet& GetBitSetView() {
diff --git a/include/solver/result.h b/include/solver/result.h
index 05dead3..bd76c38 100644
--- a/include/solver/result.h
+++ b/include/solver/result.h
@@ -48,7 +48,7 @@ namespace STreeD {
 			
 			// compute the final train and test score
 			result->score = task->ComputeTrainTestScore(result->train_test_value);
-			result->average_path_length = result->average_path_length / double(train_data.Size());
+			result->average_path_length = result->average_path_length / train_data.TotalWeight();
 			return result;
 		}
 
@@ -82,7 +82,7 @@ namespace STreeD {
 
 			// compute the final train and test score
 			result->score = task->ComputeTestTestScore(result->test_test_value);
-			result->average_path_length = result->average_path_length / double(test_data.Size());
+			result->average_path_length = result->average_path_length / test_data.TotalWeight();
 			return result;
 		}
 
diff --git a/include/solver/tree.h b/include/solver/tree.h
index c6b1cec..06e04a5 100644
--- a/include/solver/tree.h
+++ b/include/solver/tree.h
@@ -75,7 +75,7 @@ namespace STreeD {
 
 		void ComputeTrainScore(DataSplitter* data_splitter, OT* task, const typename OT::ContextType& context,
 			const ADataView& train_data, InternalTrainScore<OT>& result) const {
-			result.average_path_length += train_data.Size();
+			result.average_path_length += train_data.TotalWeight();
 			if (IsLabelNode()) {
 				result.train_value = OT::Add(result.train_value, task->GetLeafCosts(train_data, context, label));
 				result.train_test_value = OT::TestAdd(result.train_test_value, task->GetTestLeafCosts(train_data, context, label));
@@ -96,7 +96,7 @@ namespace STreeD {
 
 		void ComputeTestScore(DataSplitter* data_splitter, OT* task, const typename OT::ContextType& context,
 			const std::vector<int>& flipped_features, const ADataView& test_data, InternalTestScore<OT>& result) const {
-			result.average_path_length += test_data.Size();
+			result.average_path_length += test_data.TotalWeight();
 			if (IsLabelNode()) {
 				result.test_test_value = OT::TestAdd(result.test_test_value, task->GetTestLeafCosts(test_data, context, label));
 				return;
diff --git a/src/model/data.cpp b/src/model/data.cpp
index a1a0988..47c7557 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -330,6 +330,14 @@ namespace STreeD {
 		}
 	}
 
+	double ADataView::TotalWeight() const {
+		double weight = 0;
+		for (int label = 0; label < NumLabels(); label++) {
+			for (const auto i : GetInstancesForLabel(label)) weight += i->GetWeight();
+		}
+		return weight;
+	}
+
 	bool ADataView::operator==(const ADataView& other) const {
 		if (Size() == 0 || other.Size() == 0) return false; // Not initialized
 		runtime_assert(NumLabels() == other.NumLabels() && NumFeatures() == other.NumFeatures());
-- 
2.43.0


From f0b4f5121e448afc1598dc8425f72bc89ce94dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:41 +0000
Subject: [PATCH 24/61] fix: keep the linear models finite when a continuous
 feature is constant

---
 src/tasks/regression/piecewise_linear_regression.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 671d038..518c338 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -33,7 +33,7 @@ namespace STreeD {
 	}
 
 	double GetStd(double v_sq_sum, double v_sum, size_t n) {
-		return std::sqrt(v_sq_sum / n - v_sum * v_sum / (n * n));
+		return std::sqrt(std::max(0.0, v_sq_sum / n - v_sum * v_sum / (n * n)));
 	}
 
 	const LinearModel PieceWiseLinearRegression::worst_label = LinearModel();
@@ -134,11 +134,13 @@ namespace STreeD {
 			auto& model = tree->label;
 			int CF = int(g_cf_mu.size());
 			std::vector<double> b(CF);
-			for (int j = 0; j < CF; j++) {
-				b[j] = model.b[j] / g_cf_std[j];
-			}
 			double b0 = model.b0;
 			for (int j = 0; j < CF; j++) {
+				if (std::abs(g_cf_std[j]) < 1e-6) { // this feature is not normalized
+					b[j] = model.b[j];
+					continue;
+				}
+				b[j] = model.b[j] / g_cf_std[j];
 				b0 -= g_cf_mu[j] * b[j];
 			}
 			for (int j = 0; j < CF; j++) {
-- 
2.43.0


From 54504c65ae1c4a2802afc5ecd175da0cbd3627f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:40 +0000
Subject: [PATCH 25/61] fix: do not reuse the state of earlier calls for new
 data or new parameters

---
 include/solver/solver.h |  1 +
 src/solver/solver.cpp   | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/solver/solver.h b/include/solver/solver.h
index 777aa5b..4d43c91 100644
--- a/include/solver/solver.h
+++ b/include/solver/solver.h
@@ -301,6 +301,7 @@ namespace STreeD {
 		SimilarityLowerBound_C<OT> similarity_lower_bound_computer{ nullptr };
 		SolContainer global_UB;
 		std::vector<int> flipped_features;
+		bool reuse_cache{ false }; // If true, keep the cache when Solve is called for the same data (used when hyper-tuning)
 		std::vector<int> redundant_features;
 	};
 }
\ No newline at end of file
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 68570ed..956f1b1 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -79,7 +79,7 @@ namespace STreeD {
 	template<class OT>
 	std::shared_ptr<SolverResult> Solver<OT>::Solve(const ADataView& _train_data) {
 		stopwatch.Initialise(parameters.GetFloatParameter("time"));
-		InitializeSolver(_train_data);
+		InitializeSolver(_train_data, !reuse_cache);
 
 		Solver<OT>::Context root_context;
 
@@ -864,7 +864,7 @@ namespace STreeD {
 		using ScoreType = std::shared_ptr<Score>;
 		runtime_assert(parameters.GetBooleanParameter("hyper-tune"));
 		stopwatch.Initialise(parameters.GetFloatParameter("time"));
-		InitializeSolver(_train_data);
+		InitializeSolver(_train_data, true);
 
 		bool verbose = parameters.GetBooleanParameter("verbose");
 		const int max_num_nodes = int(parameters.GetIntegerParameter("max-num-nodes"));
@@ -887,6 +887,7 @@ namespace STreeD {
 				int ix = 0;
 				Solver<OT> solver(parameters, rng);
 				solver.solver_parameters.verbose = false;
+				solver.reuse_cache = true;
 				solver.redundant_features = redundant_features;
 				solver.task->CopyTaskInfoFrom(this->task);
 				//ADataView::TrainTestSplitData<typename OT::LabelType>(train_data, sub_train_data, sub_test_data, rng, validation_percentage, true);
@@ -944,7 +945,7 @@ namespace STreeD {
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
 		parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
-		return Solve(train_data);
+		return Solve(_train_data);
 	}
 
 
@@ -1214,7 +1215,7 @@ namespace STreeD {
 
 	template <class OT>
 	std::shared_ptr<SolverResult> Solver<OT>::TestPerformance(const std::shared_ptr<SolverResult>& _result, const ADataView& _test_data) {
-		InitializeTest(_test_data, false);
+		InitializeTest(_test_data, true);
 		const SolverTaskResult<OT>* result = static_cast<const SolverTaskResult<OT>*>(_result.get());
 		auto solver_result = std::make_shared<SolverTaskResult<OT>>(*result);
 		for (size_t i = 0; i < result->NumSolutions(); i++) {
@@ -1226,7 +1227,7 @@ namespace STreeD {
 
 	template <class OT>
 	std::vector<typename OT::LabelType> Solver<OT>::Predict(const std::shared_ptr<Tree<OT>>& tree, const ADataView& _test_data) {
-		InitializeTest(_test_data, false);
+		InitializeTest(_test_data, true);
 		std::vector<typename OT::LabelType> labels(test_data.Size());
 		typename OT::ContextType context;
 		tree->Classify(&data_splitter, task, context, flipped_features, test_data, labels);
-- 
2.43.0


From 369367f6d7eb020b165529561c88e88eb71c8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:55 +0000
Subject: [PATCH 26/61] fix: do not change the given instances when merging
 equal feature vectors

---
 src/tasks/regression/cost_complex_regression.cpp    | 13 +++++++------
 .../piecewise_simple_linear_regression.cpp          | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index 9a2db07..cb43d00 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -132,12 +132,13 @@ namespace STreeD {
 			ysq += delta_ysq;
 			prev = current;
 		}
-		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, RegExtraData>*>(mutable_instance);
-			reg_i->GetMutableExtraData().ysq = ysq;
-			mutable_instance->SetWeight(n);
+		if (n > w) {
+			auto copy_instance = new Instance<double, RegExtraData>(*static_cast<const Instance<double, RegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			copy_instance->GetMutableExtraData().ysq = ysq;
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
diff --git a/src/tasks/regression/piecewise_simple_linear_regression.cpp b/src/tasks/regression/piecewise_simple_linear_regression.cpp
index fa00d82..e2fe976 100644
--- a/src/tasks/regression/piecewise_simple_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_simple_linear_regression.cpp
@@ -236,18 +236,19 @@ namespace STreeD {
 			}
 			prev = current;
 		}
-		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, SimpleLinRegExtraData>*>(mutable_instance);
-			auto& ed = reg_i->GetMutableExtraData();
+		if (n > w) {
+			auto copy_instance = new Instance<double, SimpleLinRegExtraData>(*static_cast<const Instance<double, SimpleLinRegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			auto& ed = copy_instance->GetMutableExtraData();
 			ed.ysq = ysq;
 			for (int f = 0; f < num_cont_features; f++) {
 				ed.x[f] = xs[f];
 				ed.xsq[f] = xsq[f];
 				ed.yx[f] = yx[f];
 			}
-			mutable_instance->SetWeight(n);
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
-- 
2.43.0


From 8867e695e4866e1aff701a99975c19b0d9f89a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:10 +0000
Subject: [PATCH 27/61] fix: reset the prescriptive policy settings for every
 fit

---
 include/tasks/prescriptive_policy.h |  1 +
 src/tasks/prescriptive_policy.cpp   | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/tasks/prescriptive_policy.h b/include/tasks/prescriptive_policy.h
index 2e6f384..80112c5 100644
--- a/include/tasks/prescriptive_policy.h
+++ b/include/tasks/prescriptive_policy.h
@@ -44,6 +44,7 @@ namespace STreeD {
 		static const int best = 0;
 
 		PrescriptivePolicy(const ParameterHandler& parameters);
+		void UpdateParameters(const ParameterHandler& parameters);
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 
 		double GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
diff --git a/src/tasks/prescriptive_policy.cpp b/src/tasks/prescriptive_policy.cpp
index 645acd4..380c957 100644
--- a/src/tasks/prescriptive_policy.cpp
+++ b/src/tasks/prescriptive_policy.cpp
@@ -35,10 +35,14 @@ namespace STreeD {
 
 
 	PrescriptivePolicy::PrescriptivePolicy(const ParameterHandler& parameters) : Classification(parameters) {
+		UpdateParameters(parameters);
+	}
+
+	void PrescriptivePolicy::UpdateParameters(const ParameterHandler& parameters) {
 		std::string ppg_method = parameters.GetStringParameter("ppg-teacher-method");
-		if (ppg_method == "DM") use_dm = true;
-		else if (ppg_method == "IPW") use_ipw = true;
-		else use_dr = true;
+		use_dm = ppg_method == "DM";
+		use_ipw = ppg_method == "IPW";
+		use_dr = !use_dm && !use_ipw;
 	}
 
 	void PrescriptivePolicy::InformTrainData(const ADataView& train_data, const DataSummary& train_summary) {
@@ -47,6 +51,7 @@ namespace STreeD {
 		int max_id = train_data.Size();
 		// Calculate minimum values, so that leaf costs can always be zero or larger
 		min_ipw = 1, min_dm = 1, min_dr = 1;
+		worst_per_label.clear();
 		for (int k = 0; k < train_data.NumLabels(); k++) {
 			worst_per_label.push_back(-INT32_MAX);
 			for (auto& i : train_data.GetInstancesForLabel(k)) {
-- 
2.43.0


From 5fa5eafc3d89d9e361242da6700ff29da582ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:10 +0000
Subject: [PATCH 28/61] fix: score fairness on test data with the group sizes
 of the test data

---
 include/tasks/eq_opp.h         | 30 +++++++++++++++++++++++-------
 include/tasks/group_fairness.h | 30 +++++++++++++++++++++++-------
 src/tasks/eq_opp.cpp           | 29 ++++++++++++++++++++++++-----
 src/tasks/group_fairness.cpp   | 30 +++++++++++++++++++++++++-----
 4 files changed, 95 insertions(+), 24 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index de60c3f..3b6e248 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -47,6 +47,20 @@ namespace STreeD {
 		}
 	};
 
+	/*
+	* The test performance is counted per group, because the group sizes of the training and the test data differ
+	*/
+	struct EqOppTestSol {
+		int misclassifications { 0 };
+		int group0_positives { 0 };
+		int group1_positives { 0 };
+
+		EqOppTestSol() = default;
+		constexpr EqOppTestSol(int m, int g0, int g1) : misclassifications(m), group0_positives(g0), group1_positives(g1) {}
+		// Used to represent the worst solution
+		constexpr EqOppTestSol(const EqOppSol& sol) : misclassifications(sol.misclassifications), group0_positives(int(sol.group0_score)), group1_positives(0) {}
+	};
+
 	class EqOpp : public Classification {
 	private:
 		double discrimination_limit{ 1.0 };
@@ -57,7 +71,7 @@ namespace STreeD {
 	public:
 		using SolType = EqOppSol;
 		using SolD2Type = EqOppSol;
-		using TestSolType = EqOppSol;
+		using TestSolType = EqOppTestSol;
 
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
@@ -77,9 +91,7 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		EqOppSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline EqOppSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		EqOppTestSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const;
 
 		inline bool IsD2ZeroCost(const EqOppSol& d2costs) const { return false; }
@@ -92,13 +104,17 @@ namespace STreeD {
 		}
 
 		double ComputeTrainScore(const EqOppSol& train_value) const;
-		double ComputeTrainTestScore(const EqOppSol& test_value) const;
-		double ComputeTestTestScore(const EqOppSol& test_value) const;
+		double ComputeTrainTestScore(const EqOppTestSol& train_value) const;
+		double ComputeTestTestScore(const EqOppTestSol& test_value) const;
 
 		inline static EqOppSol Add(const EqOppSol& left, const EqOppSol& right) {
 			return left + right;
 		}
-		inline static EqOppSol TestAdd(const EqOppSol& left, const EqOppSol& right) { return Add(left, right); }
+		inline static EqOppTestSol TestAdd(const EqOppTestSol& left, const EqOppTestSol& right) {
+			return { left.misclassifications + right.misclassifications,
+				left.group0_positives + right.group0_positives,
+				left.group1_positives + right.group1_positives };
+		}
 		inline static void Add(const EqOppSol& left, const EqOppSol& right, EqOppSol& out) {
 			out = left + right;
 		}
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 1e60d01..693c89d 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -47,6 +47,20 @@ namespace STreeD {
 		}
 	};
 
+	/*
+	* The test performance is counted per group, because the group sizes of the training and the test data differ
+	*/
+	struct GroupFairnessTestSol {
+		int misclassifications { 0 };
+		int group0_positives { 0 };
+		int group1_positives { 0 };
+
+		GroupFairnessTestSol() = default;
+		constexpr GroupFairnessTestSol(int m, int g0, int g1) : misclassifications(m), group0_positives(g0), group1_positives(g1) {}
+		// Used to represent the worst solution
+		constexpr GroupFairnessTestSol(const GroupFairnessSol& sol) : misclassifications(sol.misclassifications), group0_positives(int(sol.group0_score)), group1_positives(0) {}
+	};
+
 	class GroupFairness : public Classification {
 	private:
 		double discrimination_limit{ 1.0 };
@@ -57,7 +71,7 @@ namespace STreeD {
 	public:
 		using SolType = GroupFairnessSol;
 		using SolD2Type = GroupFairnessSol;
-		using TestSolType = GroupFairnessSol;
+		using TestSolType = GroupFairnessTestSol;
 
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
@@ -77,9 +91,7 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		GroupFairnessSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline GroupFairnessSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		GroupFairnessTestSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const;
 		
 		inline bool IsD2ZeroCost(const GroupFairnessSol& d2costs) const { return false; }
@@ -92,13 +104,17 @@ namespace STreeD {
 		}
 		
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
-		double ComputeTrainTestScore(const GroupFairnessSol& test_value) const;
-		double ComputeTestTestScore(const GroupFairnessSol& test_value) const;
+		double ComputeTrainTestScore(const GroupFairnessTestSol& train_value) const;
+		double ComputeTestTestScore(const GroupFairnessTestSol& test_value) const;
 
 		inline static GroupFairnessSol Add(const GroupFairnessSol& left, const GroupFairnessSol& right) {
 			return left + right;
 		}
-		inline static GroupFairnessSol TestAdd(const GroupFairnessSol& left, const GroupFairnessSol& right) { return Add(left, right); }
+		inline static GroupFairnessTestSol TestAdd(const GroupFairnessTestSol& left, const GroupFairnessTestSol& right) {
+			return { left.misclassifications + right.misclassifications,
+				left.group0_positives + right.group0_positives,
+				left.group1_positives + right.group1_positives };
+		}
 		inline static void Add(const GroupFairnessSol& left, const GroupFairnessSol& right, GroupFairnessSol& out) {
 			out = left + right;
 		}
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 053b8ec..eb62b07 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -49,6 +49,21 @@ namespace STreeD {
 				});
 	}
 
+	EqOppTestSol EqOpp::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		runtime_assert(data.NumLabels() == 2);
+		EqOppTestSol costs;
+		costs.misclassifications = data.NumInstancesForLabel(1 - label);
+		if (label == 0) return costs;
+		// only count instances with label = 1 (positive label)
+		for (auto& dp : data.GetInstancesForLabel(1)) {
+			if (dp->IsFeaturePresent(0)) // Zeroth feature is the sensitive feature
+				costs.group1_positives++;
+			else
+				costs.group0_positives++;
+		}
+		return costs;
+	}
+
 	void EqOpp::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const {
 		int label1 = org_label == 1 ? 1 : 0;
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
@@ -77,14 +92,18 @@ namespace STreeD {
 			return 0;
 	}
 
-	double EqOpp::ComputeTrainTestScore(const EqOppSol& train_value) const {
-		return ComputeTrainScore(train_value);
+	double EqOpp::ComputeTrainTestScore(const EqOppTestSol& train_value) const {
+		runtime_assert(train_summary.instances_per_class.size() == 2);
+		double disc = std::abs(train_value.group0_positives / double(train_group0_size) - train_value.group1_positives / double(train_group1_size));
+		if (disc <= discrimination_limit)
+			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
+		else
+			return 0;
 	}
 
-	double EqOpp::ComputeTestTestScore(const EqOppSol& test_value) const {
+	double EqOpp::ComputeTestTestScore(const EqOppTestSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		double disc = std::abs(test_value.group0_positives / double(test_group0_size) - test_value.group1_positives / double(test_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 69a0e93..bf6c5b2 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -51,6 +51,22 @@ namespace STreeD {
 				});
 	}
 
+	GroupFairnessTestSol GroupFairness::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		runtime_assert(data.NumLabels() == 2);
+		GroupFairnessTestSol costs;
+		costs.misclassifications = data.NumInstancesForLabel(1 - label);
+		if (label == 0) return costs;
+		for (int k = 0; k < data.NumLabels(); k++) {
+			for (auto& dp : data.GetInstancesForLabel(k)) {
+				if (dp->IsFeaturePresent(0)) // Zeroth feature is the sensitive feature
+					costs.group1_positives++;
+				else
+					costs.group0_positives++;
+			}
+		}
+		return costs;
+	}
+
 	void GroupFairness::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const {
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
 		costs = label ?
@@ -76,14 +92,18 @@ namespace STreeD {
 			return 0;
 	}
 
-	double GroupFairness::ComputeTrainTestScore(const GroupFairnessSol& train_value) const {
-		return ComputeTrainScore(train_value);
+	double GroupFairness::ComputeTrainTestScore(const GroupFairnessTestSol& train_value) const {
+		runtime_assert(train_summary.instances_per_class.size() == 2);
+		double disc = std::abs(train_value.group0_positives / double(train_group0_size) - train_value.group1_positives / double(train_group1_size));
+		if (disc <= discrimination_limit)
+			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
+		else
+			return 0;
 	}
 
-	double GroupFairness::ComputeTestTestScore(const GroupFairnessSol& test_value) const {
+	double GroupFairness::ComputeTestTestScore(const GroupFairnessTestSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		double disc = std::abs(test_value.group0_positives / double(test_group0_size) - test_value.group1_positives / double(test_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
-- 
2.43.0


From b27c79af6d08c36518d273ed1b6473c45d4e4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:10 +0000
Subject: [PATCH 29/61] fix: use the current discrimination limit in every fit

---
 include/tasks/eq_opp.h         | 3 ++-
 include/tasks/group_fairness.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 3b6e248..3496afe 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -83,7 +83,8 @@ namespace STreeD {
 		static constexpr EqOppSol worst = { INT32_MAX, INT32_MAX, INT32_MAX, false };
 		static constexpr EqOppSol best = { 0, 0, 0, true };
 
-		EqOpp(const ParameterHandler& parameters) : Classification(parameters) {
+		EqOpp(const ParameterHandler& parameters) : Classification(parameters) { UpdateParameters(parameters); }
+		inline void UpdateParameters(const ParameterHandler& parameters) {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 693c89d..678796b 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -83,7 +83,8 @@ namespace STreeD {
 		static constexpr GroupFairnessSol worst = { INT32_MAX, INT32_MAX, INT32_MAX, false};
 		static constexpr GroupFairnessSol best = { 0, 0, 0, true };
 
-		GroupFairness(const ParameterHandler& parameters) : Classification(parameters) {
+		GroupFairness(const ParameterHandler& parameters) : Classification(parameters) { UpdateParameters(parameters); }
+		inline void UpdateParameters(const ParameterHandler& parameters) {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
-- 
2.43.0


From efd9bddf1b35d67110543bfd910a57d797f6b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:02 +0000
Subject: [PATCH 30/61] fix: clear the equivalent points bounds for new data

---
 include/tasks/accuracy/cost_complex_accuracy.h | 2 ++
 src/tasks/accuracy/cost_complex_accuracy.cpp   | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/tasks/accuracy/cost_complex_accuracy.h b/include/tasks/accuracy/cost_complex_accuracy.h
index ff11e40..9e3b264 100644
--- a/include/tasks/accuracy/cost_complex_accuracy.h
+++ b/include/tasks/accuracy/cost_complex_accuracy.h
@@ -35,6 +35,8 @@ namespace STreeD {
 			cost_complexity_parameter(parameters.GetFloatParameter("cost-complexity")),
 			lower_bound_cache(parameters.GetIntegerParameter("max-depth") + 1) {}
 
+		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
+
 		inline void UpdateParameters(const ParameterHandler& parameters) {
 			cost_complexity_parameter = std::max(0.0, parameters.GetFloatParameter("cost-complexity"));
 			lower_bound_cache.resize(parameters.GetIntegerParameter("max-depth") + 1);
diff --git a/src/tasks/accuracy/cost_complex_accuracy.cpp b/src/tasks/accuracy/cost_complex_accuracy.cpp
index 7ce6610..4389d49 100644
--- a/src/tasks/accuracy/cost_complex_accuracy.cpp
+++ b/src/tasks/accuracy/cost_complex_accuracy.cpp
@@ -39,6 +39,13 @@ namespace STreeD {
 		}
 	}
 	
+	void CostComplexAccuracy::InformTrainData(const ADataView& train_data, const DataSummary& train_summary) {
+		OptimizationTask::InformTrainData(train_data, train_summary);
+		for (auto& map : lower_bound_cache) {
+			map.clear();
+		}
+	}
+
 	double CostComplexAccuracy::GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const { // Replace by custom function later
 		double error = 0;
 		for (int k = 0; k < data.NumLabels(); k++) {
-- 
2.43.0


From 906719e322976aff4cd567fa37d239f7782fdb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:02 +0000
Subject: [PATCH 31/61] fix: do not reuse the last linear model for other data

---
 include/tasks/regression/piecewise_linear_regression.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tasks/regression/piecewise_linear_regression.h b/include/tasks/regression/piecewise_linear_regression.h
index 914e83a..8ae8d80 100644
--- a/include/tasks/regression/piecewise_linear_regression.h
+++ b/include/tasks/regression/piecewise_linear_regression.h
@@ -66,6 +66,7 @@ namespace STreeD {
 			UpdateParameters(parameters);
 		}
 		inline void UpdateParameters(const ParameterHandler& parameters) {
+			last_branch = Branch(); // Do not reuse a model computed for other data or penalties
 			cost_complexity_parameter = parameters.GetFloatParameter("cost-complexity");
 			lasso_penalty = parameters.GetFloatParameter("lasso-penalty");
 			ridge_penalty = parameters.GetFloatParameter("ridge-penalty");
-- 
2.43.0


From f1d1342f3e1c99afda54177a05d78b3c5b85520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:02 +0000
Subject: [PATCH 32/61] fix: allow test data without positive labels in
 equality of opportunity

---
 src/tasks/eq_opp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index eb62b07..a64ceb4 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -18,10 +18,10 @@ namespace STreeD {
 
 	void EqOpp::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
 		OptimizationTask::InformTestData(test_data, test_summary);
-		runtime_assert(test_data.NumLabels() == 2);
 		// only count instances with label = 1 (positive label)
 		test_group0_size = 0;
 		test_group1_size = 0;
+		if (test_data.NumLabels() < 2) return; // When predicting, no positive labels may be given
 		for (auto& dp : test_data.GetInstancesForLabel(1)) {
 			if (dp->IsFeaturePresent(0))
 				test_group1_size++;
-- 
2.43.0


From 9659d229fa338570c62cbc770fafb464c77fb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:26 +0000
Subject: [PATCH 33/61] fix: do not exit when the time runs out during
 hyper-tuning

---
 src/solver/solver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 956f1b1..d18cfb7 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -863,7 +863,8 @@ namespace STreeD {
 	std::shared_ptr<SolverResult> Solver<OT>::HyperSolve(const ADataView& _train_data) {
 		using ScoreType = std::shared_ptr<Score>;
 		runtime_assert(parameters.GetBooleanParameter("hyper-tune"));
-		stopwatch.Initialise(parameters.GetFloatParameter("time"));
+		const double time_limit = parameters.GetFloatParameter("time");
+		stopwatch.Initialise(time_limit);
 		InitializeSolver(_train_data, true);
 
 		bool verbose = parameters.GetBooleanParameter("verbose");
@@ -909,7 +910,7 @@ namespace STreeD {
 					
 					bool reset = solver.parameters.GetIntegerParameter("max-depth") < tuning_config.parameters[c].GetIntegerParameter("max-depth");
 					solver.parameters = tuning_config.parameters[c];
-					solver.parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
+					solver.parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
 					solver.InitializeSolver(sub_train_data, tuning_config.reset_solver || reset);
 					const auto result = solver.Solve(sub_train_data);
 					const auto test_result = solver.TestPerformance(result, sub_test_data);					
@@ -944,8 +945,10 @@ namespace STreeD {
 			parameters = tuning_config.parameters[best_config];
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
-		parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
-		return Solve(_train_data);
+		parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
+		auto result = Solve(_train_data);
+		parameters.SetFloatParameter("time", time_limit);
+		return result;
 	}
 
 
-- 
2.43.0


From 6a2b023431789d8a4fb810a8735e7fe7d1f3a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:26 +0000
Subject: [PATCH 34/61] fix: allow hyper-tuning without configurations or
 solutions

---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d18cfb7..03fcde7 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -877,6 +877,7 @@ namespace STreeD {
 
 			const int n_runs = tuning_config.GetNumberOfRuns();
 			const int n_configs = tuning_config.GetNumberOfConfigs();
+			if (n_configs == 0) continue; // Nothing to tune in this phase
 			const double validation_percentage = tuning_config.validation_percentage;
 
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
@@ -921,7 +922,7 @@ namespace STreeD {
 						performances[c][r] = test_result->scores[test_result->best_index];
 					}
 					if(verbose) std::cout << " \tScore: " << OT::ScoreToString(performances[c][r]->score) << std::endl;
-					if (tuning_config.skip_when_max_tree && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
+					if (tuning_config.skip_when_max_tree && result->NumSolutions() > 0 && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
 						if (verbose) std::cout << "Reached maximum tree. Skipping configuration " << (c + 2) << " to " << n_configs << std::endl;
 						for (c++; c < n_configs;c++) {
 							performances[c][r] = performances[c - 1][r];
-- 
2.43.0


From 96f1f53c050fdaa17f42cf652564613df2fea91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:06 +0000
Subject: [PATCH 35/61] fix: keep the fairness rates defined when a group is
 empty

---
 include/tasks/eq_opp.h         |  5 ++++-
 include/tasks/group_fairness.h |  7 +++++--
 src/tasks/eq_opp.cpp           | 24 ++++++++++++++----------
 src/tasks/group_fairness.cpp   | 24 ++++++++++++++----------
 4 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 3496afe..5356400 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -68,6 +68,9 @@ namespace STreeD {
 		int train_group1_size{ 0 };
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
+
+		// The rates in an empty group are zero, e.g., when a fold has no members of a group
+		inline static double Rate(int count, int group_size) { return group_size == 0 ? 0.0 : count / double(group_size); }
 	public:
 		using SolType = EqOppSol;
 		using SolD2Type = EqOppSol;
@@ -100,7 +103,7 @@ namespace STreeD {
 		void ComputeD2Costs(const EqOppSol& d2costs, int count, EqOppSol& costs) const { costs = d2costs; }
 		inline EqOppSol GetWorstPerLabel(int label) const {
 			return label ?
-				EqOppSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
+				EqOppSol({ 1, Rate(1, train_group1_size), Rate(1, train_group0_size) }) :
 				EqOppSol({ 1, 0.0, 0.0 });
 		}
 
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 678796b..ffe59c7 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -68,6 +68,9 @@ namespace STreeD {
 		int train_group1_size{ 0 };
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
+
+		// The rates in an empty group are zero, e.g., when a fold has no members of a group
+		inline static double Rate(int count, int group_size) { return group_size == 0 ? 0.0 : count / double(group_size); }
 	public:
 		using SolType = GroupFairnessSol;
 		using SolD2Type = GroupFairnessSol;
@@ -100,8 +103,8 @@ namespace STreeD {
 		void ComputeD2Costs(const GroupFairnessSol& d2costs, int count, GroupFairnessSol& costs) const { costs = d2costs; }
 		inline GroupFairnessSol GetWorstPerLabel(int label) const { 
 			return label ?
-				GroupFairnessSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
-				GroupFairnessSol({ 1, 1.0 / train_group0_size, 1.0 / train_group1_size });
+				GroupFairnessSol({ 1, Rate(1, train_group1_size), Rate(1, train_group0_size) }) :
+				GroupFairnessSol({ 1, Rate(1, train_group0_size), Rate(1, train_group1_size) });
 		}
 		
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index a64ceb4..497e85c 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -39,13 +39,13 @@ namespace STreeD {
 		return label ?
 			EqOppSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size)
+				Rate(group0_size, train_group0_size),
+				Rate(data.NumInstancesForLabel(1) - group0_size, train_group1_size)
 				}) :
 			EqOppSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				Rate(data.NumInstancesForLabel(1) - group0_size, train_group1_size),
+				Rate(group0_size, train_group0_size)
 				});
 	}
 
@@ -72,13 +72,13 @@ namespace STreeD {
 		costs = label ?
 			EqOppSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * (group1 / double(train_group1_size))
+				multiplier * Rate(group0, train_group0_size),
+				multiplier * Rate(group1, train_group1_size)
 				}) :
 			EqOppSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * (group1 / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * Rate(group1, train_group1_size),
+				multiplier * Rate(group0, train_group0_size)
 				});
 	}
 
@@ -94,7 +94,9 @@ namespace STreeD {
 
 	double EqOpp::ComputeTrainTestScore(const EqOppTestSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
-		double disc = std::abs(train_value.group0_positives / double(train_group0_size) - train_value.group1_positives / double(train_group1_size));
+		double disc = 0;
+		if (train_group0_size > 0 && train_group1_size > 0)
+			disc = std::abs(Rate(train_value.group0_positives, train_group0_size) - Rate(train_value.group1_positives, train_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
@@ -103,7 +105,9 @@ namespace STreeD {
 
 	double EqOpp::ComputeTestTestScore(const EqOppTestSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		double disc = std::abs(test_value.group0_positives / double(test_group0_size) - test_value.group1_positives / double(test_group1_size));
+		double disc = 0;
+		if (test_group0_size > 0 && test_group1_size > 0)
+			disc = std::abs(Rate(test_value.group0_positives, test_group0_size) - Rate(test_value.group1_positives, test_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index bf6c5b2..1a5af58 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -41,13 +41,13 @@ namespace STreeD {
 		return label ?
 			GroupFairnessSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.Size() - group0_size) / double(train_group1_size)
+				Rate(group0_size, train_group0_size),
+				Rate(data.Size() - group0_size, train_group1_size)
 				}) :
 			GroupFairnessSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.Size() - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				Rate(data.Size() - group0_size, train_group1_size),
+				Rate(group0_size, train_group0_size)
 				});
 	}
 
@@ -72,13 +72,13 @@ namespace STreeD {
 		costs = label ?
 			GroupFairnessSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * ((1 - group0) / double(train_group1_size))
+				multiplier * Rate(group0, train_group0_size),
+				multiplier * Rate(1 - group0, train_group1_size)
 				}) :
 			GroupFairnessSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * ((1 - group0) / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * Rate(1 - group0, train_group1_size),
+				multiplier * Rate(group0, train_group0_size)
 				});
 	}
 
@@ -94,7 +94,9 @@ namespace STreeD {
 
 	double GroupFairness::ComputeTrainTestScore(const GroupFairnessTestSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
-		double disc = std::abs(train_value.group0_positives / double(train_group0_size) - train_value.group1_positives / double(train_group1_size));
+		double disc = 0;
+		if (train_group0_size > 0 && train_group1_size > 0)
+			disc = std::abs(Rate(train_value.group0_positives, train_group0_size) - Rate(train_value.group1_positives, train_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
@@ -103,7 +105,9 @@ namespace STreeD {
 
 	double GroupFairness::ComputeTestTestScore(const GroupFairnessTestSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		double disc = std::abs(test_value.group0_positives / double(test_group0_size) - test_value.group1_positives / double(test_group1_size));
+		double disc = 0;
+		if (test_group0_size > 0 && test_group1_size > 0)
+			disc = std::abs(Rate(test_value.group0_positives, test_group0_size) - Rate(test_value.group1_positives, test_group1_size));
 		if (disc <= discrimination_limit)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
-- 
2.43.0


From 37ac7faeab3b97abfc26dc6c8eaddf44ef165df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:06 +0000
Subject: [PATCH 36/61] fix: do not use more folds than instances in
 hyper-tuning

---
 src/solver/solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 03fcde7..f9c6678 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -875,9 +875,9 @@ namespace STreeD {
 			double best_score;
 			auto tuning_config = OT::GetTuneRunConfiguration(parameters, train_data, tune_phase);
 
-			const int n_runs = tuning_config.GetNumberOfRuns();
+			const int n_runs = std::min(tuning_config.GetNumberOfRuns(), train_data.Size()); // Every fold needs an instance
 			const int n_configs = tuning_config.GetNumberOfConfigs();
-			if (n_configs == 0) continue; // Nothing to tune in this phase
+			if (n_configs == 0 || n_runs < 2) continue; // Nothing to tune in this phase
 			const double validation_percentage = tuning_config.validation_percentage;
 
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
-- 
2.43.0


From d48d630963a86c8c9cceff85f040b28373564087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:00 +0000
Subject: [PATCH 37/61] fix: split small regression data with stratification

The bin size was zero for fewer than ten instances, which ended the
program with a division by zero.
---
 src/model/data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index 47c7557..5accbc8 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -78,7 +78,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels-1)].push_back(instance->GetID());
 				}
@@ -195,7 +195,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels - 1)].push_back(instance->GetID());
 				}
-- 
2.43.0


From 23994e0bbe349d3674261c19851288398a41919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:00 +0000
Subject: [PATCH 38/61] fix: keep the label of instances in stratified folds

Stratified k-fold splitting for classification filed every instance
under the first label.
---
 src/model/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index 5accbc8..266059e 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -238,7 +238,7 @@ namespace STreeD {
 						auto begin = indices.begin() + begin_index;
 						auto end = indices.begin() + end_index;
 						if (fold == folds - 1) end = indices.end();
-						fold_label_indices[fold][0].insert(fold_label_indices[fold][0].end(), begin, end);
+						fold_label_indices[fold][y].insert(fold_label_indices[fold][y].end(), begin, end);
 						begin_index = end_index;
 					}
 				}
-- 
2.43.0


From 65e88eb2260a1465f4df1374023d65be7b09c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:58 +0000
Subject: [PATCH 39/61] fix: sample instances from a file with the seeded
 generator

Reading a random subset of the instances ignored the random seed, so
runs with equal parameters could differ.
---
 include/utils/file_reader.h | 2 +-
 src/utils/file_reader.cpp   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utils/file_reader.h b/include/utils/file_reader.h
index 835365c..eb61025 100644
--- a/include/utils/file_reader.h
+++ b/include/utils/file_reader.h
@@ -27,7 +27,7 @@ namespace STreeD {
 		*/
 		template<class LT, class ET>
 		static void ReadFromFile(AData& data, std::string filename, int num_extra_cols,
-			int num_instances, int max_num_features, int initial_id, int duplicate_instances_factor);
+			int num_instances, int max_num_features, int initial_id, int duplicate_instances_factor, std::default_random_engine* rng);
 
 	};
 }
\ No newline at end of file
diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index c6af07f..2805f6e 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -36,11 +36,11 @@ namespace STreeD {
 		double train_test_split = parameters.GetFloatParameter("train-test-split");
 		bool stratify = parameters.GetBooleanParameter("stratify");
 
-		FileReader::ReadFromFile<typename OT::LabelType, typename OT::ET>(data, train_file, num_extra_cols, num_instances, max_num_features, 0, duplicate_factor);
+		FileReader::ReadFromFile<typename OT::LabelType, typename OT::ET>(data, train_file, num_extra_cols, num_instances, max_num_features, 0, duplicate_factor, rng);
 		int train_size = data.Size();
 
 		if (test_file != "") {
-			FileReader::ReadFromFile<typename OT::LabelType, typename OT::ET>(data, test_file, num_extra_cols, INT32_MAX, max_num_features, train_size, 1);
+			FileReader::ReadFromFile<typename OT::LabelType, typename OT::ET>(data, test_file, num_extra_cols, INT32_MAX, max_num_features, train_size, 1, rng);
 			FillDataView<OT>(data, train_data, 0, train_size);
 			FillDataView<OT>(data, test_data, train_data.Size(), data.Size());
 		} else {
@@ -78,7 +78,7 @@ namespace STreeD {
 
 	template<class LT, class ET>
 	void FileReader::ReadFromFile(AData& data, std::string filename, int num_extra_cols,
-		int num_instances, int max_num_features, int initial_id, int duplicate_instances_factor) {
+		int num_instances, int max_num_features, int initial_id, int duplicate_instances_factor, std::default_random_engine* rng) {
 		
 		std::ifstream file(filename.c_str());
 
@@ -104,7 +104,7 @@ namespace STreeD {
 			} else {
 				indices.resize(available_instances);
 				std::iota(indices.begin(), indices.end(), 0);
-				std::shuffle(indices.begin(), indices.end(), std::random_device()); // TODO use the same random device
+				std::shuffle(indices.begin(), indices.end(), *rng);
 				indices.resize(num_instances);
 				std::sort(indices.begin(), indices.end());
 			}
-- 
2.43.0


From 5ba4a8c513149be001ed59a0b0acdeaeb766a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:20 +0000
Subject: [PATCH 40/61] fix: stop when a data file cannot be read

A missing file or a read error was followed by a run on no data or on a
part of the data.
---
 src/utils/file_reader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 2805f6e..3fbc118 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -82,7 +82,7 @@ namespace STreeD {
 		
 		std::ifstream file(filename.c_str());
 
-		if (!file) { std::cout << "Error: File " << filename << " does not exist!\n"; runtime_assert(file); }
+		if (!file) { std::cout << "Error: File " << filename << " does not exist!" << std::endl; exit(1); }
 
 		std::string line;
 		int id = initial_id;
@@ -154,6 +154,11 @@ namespace STreeD {
 			if (id - initial_id >= num_instances) break;
 		}
 
+		if (file.bad()) {
+			std::cout << "Error: Reading " << filename << " failed." << std::endl;
+			exit(1);
+		}
+
 		if (data.NumFeatures() > num_features) data.SetNumFeatures(num_features);
 	}
 
-- 
2.43.0


From 472a25534d589c2e76021d9a5d2057cf0c06954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:20 +0000
Subject: [PATCH 41/61] fix: refuse incomplete or malformed instances in a data
 file

Lines with missing values, extra values or text were read as if the
missing values were zero.
---
 src/utils/file_reader.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 3fbc118..00e368c 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -87,6 +87,7 @@ namespace STreeD {
 		std::string line;
 		int id = initial_id;
 		int num_features = INT32_MAX;
+		int num_columns = INT32_MAX;
 		bool include_all = num_instances == INT32_MAX;
 		int available_instances = INT32_MAX;
 
@@ -127,16 +128,25 @@ namespace STreeD {
 			// Read extra instance data
 			auto extra_data = ET::ReadData(iss, num_extra_cols);
 
+			bool valid_line = !iss.fail() && (std::is_same<LT, double>::value || label >= 0);
+
 			std::getline(iss, line);
-			runtime_assert(num_features == INT32_MAX || num_features == int((line.size()) / 2) || num_features == max_num_features);
-			if (num_features == INT32_MAX) { num_features = int((line.size()) / 2); }
-			num_features = std::min(num_features, max_num_features);
+			if (num_columns == INT32_MAX) { num_columns = int((line.size()) / 2); }
+			if (!valid_line || num_columns != int((line.size()) / 2)) {
+				std::cout << "Error: Encountered an incomplete or malformed instance at line " << line_no << " in " << filename << "." << std::endl;
+				exit(1);
+			}
+			num_features = std::min(num_columns, max_num_features);
 			iss = std::istringstream(line);
 
 			std::vector<bool> v(num_features);
 			for (int i = 0; i < num_features; i++) {
-				uint32_t temp;
+				uint32_t temp = 0;
 				iss >> temp;
+				if (iss.fail()) {
+					std::cout << "Error: Encountered an unexpected symbol at line " << line_no << " in " << filename << "." << std::endl;
+					exit(1);
+				}
 				if (temp != 0 && temp != 1) {
 					std::cout << "Error: Encountered unexpected non-binary symbol '" << temp << "' at line " << line_no << " in " << filename << "." << std::endl;
 					exit(1);
-- 
2.43.0


From 2c7a9337c976715c94334c6a5321a9f4912bd06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:20 +0000
Subject: [PATCH 42/61] fix: stop when a cost file cannot be read

A missing cost file or a read error was followed by a run with costs of
zero.
---
 src/tasks/cost_sensitive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 61e7ac7..2d90f48 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -13,7 +13,7 @@ namespace STreeD {
 
 	CostSpecifier::CostSpecifier(const std::string& cost_filename, int num_labels) {
 		std::ifstream file(cost_filename.c_str());
-		if (!file) { std::cout << "Error: File " << cost_filename << " does not exist!\n"; runtime_assert(file); }
+		if (!file) { std::cout << "Error: File " << cost_filename << " does not exist!" << std::endl; exit(1); }
 		std::string line;
 		size_t line_no = -1;
 		
@@ -47,6 +47,10 @@ namespace STreeD {
 				feature_cost_specifiers.emplace_back(test_cost, discount_cost, discount_group, binarize_begin_ix, binarize_end_ix);
 			}
 		}
+		if (file.bad()) {
+			std::cout << "Error: Reading " << cost_filename << " failed." << std::endl;
+			exit(1);
+		}
 		Initialize(feature_cost_specifiers);
 	}
 
-- 
2.43.0


From 043ae048d5fe0e656673d738e75ef7f6b1fd9781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:56 +0000
Subject: [PATCH 43/61] fix: refuse incomplete or malformed lines in a cost
 file

Missing values were read as zero or as uninitialised values, and column
ranges outside the table were written to memory.
---
 src/tasks/cost_sensitive.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 2d90f48..3ecfd34 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -19,6 +19,10 @@ namespace STreeD {
 		
 		misclassification_costs = std::vector<std::vector<double>>(num_labels, std::vector<double>(num_labels));
 		std::vector<FeatureCostSpecifier> feature_cost_specifiers;
+		auto malformed_line = [&cost_filename](size_t line_no) {
+			std::cout << "Error: Encountered an incomplete or malformed line " << line_no << " in " << cost_filename << "." << std::endl;
+			exit(1);
+		};
 		while (std::getline(file, line)) {
 			line_no++;
 			std::istringstream iss(line);
@@ -28,6 +32,7 @@ namespace STreeD {
 					iss >> temp;
 					misclassification_costs[line_no][i] = temp;
 				}
+				if (iss.fail() || !(iss >> std::ws).eof()) malformed_line(line_no);
 			} else if (line_no == num_labels) {
 				continue; // skip column header line
 				//columns are described by: Attribute name / test cost / discount / group / binarize begin (ix) / binarize end (ix)
@@ -44,6 +49,7 @@ namespace STreeD {
 				iss >> discount_group;
 				iss >> binarize_begin_ix;
 				iss >> binarize_end_ix;
+				if (iss.fail() || !(iss >> std::ws).eof() || binarize_begin_ix < 0 || binarize_end_ix < binarize_begin_ix) malformed_line(line_no);
 				feature_cost_specifiers.emplace_back(test_cost, discount_cost, discount_group, binarize_begin_ix, binarize_end_ix);
 			}
 		}
@@ -51,6 +57,7 @@ namespace STreeD {
 			std::cout << "Error: Reading " << cost_filename << " failed." << std::endl;
 			exit(1);
 		}
+		if (line_no + 1 < size_t(num_labels)) malformed_line(line_no + 1);
 		Initialize(feature_cost_specifiers);
 	}
 
-- 
2.43.0


From 17c6bfba632ec4412027569430460015d9cf13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:52 +0000
Subject: [PATCH 44/61] fix: stop when counting the instances of a data file
 fails

---
 src/utils/file_reader.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 00e368c..ba91ec3 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -83,6 +83,11 @@ namespace STreeD {
 		std::ifstream file(filename.c_str());
 
 		if (!file) { std::cout << "Error: File " << filename << " does not exist!" << std::endl; exit(1); }
+		auto stop_on_read_error = [&]() {
+			if (!file.bad()) return;
+			std::cout << "Error: Reading " << filename << " failed." << std::endl;
+			exit(1);
+		};
 
 		std::string line;
 		int id = initial_id;
@@ -98,6 +103,7 @@ namespace STreeD {
 			while (std::getline(file, line)) {
 				available_instances++;
 			}
+			stop_on_read_error();
 			file.clear();
 			file.seekg(0);
 			if (available_instances < num_instances) {
@@ -164,10 +170,7 @@ namespace STreeD {
 			if (id - initial_id >= num_instances) break;
 		}
 
-		if (file.bad()) {
-			std::cout << "Error: Reading " << filename << " failed." << std::endl;
-			exit(1);
-		}
+		stop_on_read_error();
 
 		if (data.NumFeatures() > num_features) data.SetNumFeatures(num_features);
 	}
-- 
2.43.0


From dc67cfef45eb6be70c91d3bf40ba0c6f77012e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:45 +0000
Subject: [PATCH 45/61] fix: do not read a lone label as a feature

---
 src/utils/file_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index ba91ec3..773e29d 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -136,7 +136,7 @@ namespace STreeD {
 
 			bool valid_line = !iss.fail() && (std::is_same<LT, double>::value || label >= 0);
 
-			std::getline(iss, line);
+			if (!std::getline(iss, line)) line.clear();
 			if (num_columns == INT32_MAX) { num_columns = int((line.size()) / 2); }
 			if (!valid_line || num_columns != int((line.size()) / 2)) {
 				std::cout << "Error: Encountered an incomplete or malformed instance at line " << line_no << " in " << filename << "." << std::endl;
-- 
2.43.0


From 03eb078f1b6be308aaea4fe4c7fe59c9d2771728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:18 +0000
Subject: [PATCH 46/61] fix: free the extra data of instances

The data object deletes its instances through a base class without a
virtual destructor, so their extra data was never freed.
---
 include/model/data.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/model/data.h b/include/model/data.h
index 646cac3..d84b495 100644
--- a/include/model/data.h
+++ b/include/model/data.h
@@ -18,6 +18,7 @@ namespace STreeD {
 	public:
 		AInstance() = delete;
 		AInstance(int id, const std::vector<bool>& feature_vector) : id(id), features(feature_vector, id), weight(1.0) {}
+		virtual ~AInstance() = default; // Instances are owned and deleted as AInstance
 
 		// The unique identifier of this instance
 		inline const int GetID() const { return id; }
-- 
2.43.0


From 6f036a9ff87fc96f2b7172d9175017014c604e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:18 +0000
Subject: [PATCH 47/61] fix: do not lose instances when memory runs out

An instance that could not be completed or stored was never freed.
---
 include/model/data.h           |  6 +++++-
 include/model/feature_vector.h |  5 ++---
 src/model/feature_vector.cpp   | 19 +++++++------------
 3 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/model/data.h b/include/model/data.h
index d84b495..ab5bfc0 100644
--- a/include/model/data.h
+++ b/include/model/data.h
@@ -137,7 +137,11 @@ namespace STreeD {
 			instances.clear();
 		}
 
-		inline void AddInstance(AInstance* instance) { instances.push_back(instance); }
+		inline void AddInstance(AInstance* instance) {
+			std::unique_ptr<AInstance> owner(instance); // Free the instance if it cannot be stored
+			instances.push_back(instance);
+			owner.release();
+		}
 		inline void SetNumFeatures(int num_features) { this->num_features = num_features; }
 
 		inline int Size() const { return int(instances.size()); }
diff --git a/include/model/feature_vector.h b/include/model/feature_vector.h
index 1c28f29..00c4fb4 100644
--- a/include/model/feature_vector.h
+++ b/include/model/feature_vector.h
@@ -11,7 +11,6 @@ namespace STreeD {
 	public:
 		FeatureVector(const std::vector<bool>& feature_values, int id);
 		FeatureVector(const FeatureVector& fv);
-		~FeatureVector();
 
 		inline bool IsFeaturePresent(const int feature) const { return is_feature_present_[feature]; }
 		inline int GetJthPresentFeature(const int j) const { runtime_assert(j < num_present_features); return present_features_[j]; }
@@ -58,8 +57,8 @@ namespace STreeD {
 		int id;
 		int num_features;
 		int num_present_features;
-		bool* is_feature_present_; //[i] indicates if the feature is true or false, i.e., if it is present in present_Features.
-		int* present_features_;
+		std::unique_ptr<bool[]> is_feature_present_; //[i] indicates if the feature is true or false, i.e., if it is present in present_Features.
+		std::unique_ptr<int[]> present_features_;
 		std::vector<int> present_feature_pair_indices_;
 
 	};
diff --git a/src/model/feature_vector.cpp b/src/model/feature_vector.cpp
index 9504155..bc86d81 100644
--- a/src/model/feature_vector.cpp
+++ b/src/model/feature_vector.cpp
@@ -10,11 +10,11 @@ namespace STreeD {
 
 	FeatureVector::FeatureVector(const std::vector<bool>& feature_values, int id) :
 		id(id), num_features(int(feature_values.size())) {
-		is_feature_present_ = new bool[feature_values.size()];
+		is_feature_present_.reset(new bool[feature_values.size()]);
 		num_present_features = 0;
 		for (int feature_index = 0; feature_index < int(feature_values.size()); feature_index++) 
 			if (feature_values[feature_index]) num_present_features++;
-		present_features_ = new int[num_features];
+		present_features_.reset(new int[num_features]);
 		int present_feature_ix = 0;
 		for (int feature_index = 0; feature_index < int(feature_values.size()); feature_index++) {
 			if (feature_values[feature_index]) { present_features_[present_feature_ix++] = feature_index; }
@@ -24,30 +24,25 @@ namespace STreeD {
 
 	FeatureVector::FeatureVector(const FeatureVector& fv) 
 		: id(fv.id), num_features(fv.num_features), num_present_features(fv.num_present_features) {
-		is_feature_present_ = new bool[fv.num_features];
+		is_feature_present_.reset(new bool[fv.num_features]);
 		int num_present_features = 0;
 		for (int i = 0; i < fv.num_features; i++) {
 			is_feature_present_[i] = fv.is_feature_present_[i];
 		}
-		present_features_ = new int[num_features];
+		present_features_.reset(new int[num_features]);
 		for (int i = 0; i < fv.NumPresentFeatures(); i++) {
 			present_features_[i] = fv.present_features_[i];
 		}
 		present_feature_pair_indices_ = fv.present_feature_pair_indices_;
 	}
 
-	FeatureVector::~FeatureVector() {
-		delete[] is_feature_present_;
-		delete[] present_features_;
-	}
-
 	double FeatureVector::Sparsity() const {
 		return double(NumPresentFeatures()) / NumTotalFeatures();
 	}
 
 	void FeatureVector::FlipFeature(int f) {
 		if (IsFeaturePresent(f)) {
-			std::remove(present_features_, present_features_ + num_present_features, f);
+			std::remove(present_features_.get(), present_features_.get() + num_present_features, f);
 			num_present_features -= 1;
 		} else {
 			int i;
@@ -84,9 +79,9 @@ namespace STreeD {
 		}
 		runtime_assert(count == num_present_features);
 		if (IsFeaturePresent(f)) {
-			runtime_assert(std::find(present_features_, present_features_ + num_present_features, f) != present_features_ + num_present_features);
+			runtime_assert(std::find(present_features_.get(), present_features_.get() + num_present_features, f) != present_features_.get() + num_present_features);
 		} else {
-			runtime_assert(std::find(present_features_, present_features_ + num_present_features, f) == present_features_ + num_present_features);
+			runtime_assert(std::find(present_features_.get(), present_features_.get() + num_present_features, f) == present_features_.get() + num_present_features);
 		}
 	}
 
-- 
2.43.0


From a17e3b5c6aa4d3f7c88b078218e12db791075028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:18 +0000
Subject: [PATCH 48/61] fix: keep a bit set consistent when its assignment
 fails

---
 include/utils/dynamic_bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/dynamic_bitset.h b/include/utils/dynamic_bitset.h
index b9d4728..df17f75 100644
--- a/include/utils/dynamic_bitset.h
+++ b/include/utils/dynamic_bitset.h
@@ -29,8 +29,8 @@ namespace STreeD {
 			if (this == &other)
 				return *this;
 
+			BaseType* new_bitset = new BaseType[other.elements];
 			elements = other.elements;
-			BaseType* new_bitset = new BaseType[elements];
 			std::memcpy(new_bitset, other.bitset, elements * sizeof(BaseType));
 			delete[] bitset;
 			bitset = new_bitset;
-- 
2.43.0


From 41ea71c116ffe95667a1bb33103900a959edcd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:34 +0000
Subject: [PATCH 49/61] fix: do not delete solver parts twice when memory runs
 out

If making a new cache, terminal solver or similarity bound failed, the
old one was deleted again later.
---
 src/solver/solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f9c6678..923faa6 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -243,7 +243,9 @@ namespace STreeD {
 		ResetCache();
 		if constexpr (OT::use_terminal) {
 			if (terminal_solver1 != nullptr) delete terminal_solver1;
+			terminal_solver1 = nullptr;
 			if (terminal_solver2 != nullptr) delete terminal_solver2;
+			terminal_solver2 = nullptr;
 			terminal_solver1 = new TerminalSolver<OT>(this);
 			terminal_solver2 = new TerminalSolver<OT>(this);
 		}
@@ -274,6 +276,7 @@ namespace STreeD {
 	template <class OT>
 	void Solver<OT>::ResetCache() {
 		if (cache != nullptr) delete cache;
+		cache = nullptr;
 		cache = new Cache<OT>(parameters, MAX_DEPTH, train_data.Size());
 		// If the branching costs depend on the branch, then solutions for the same data in another branch cannot be reused
 		const bool branch_dependent_costs = OT::has_branching_costs && !OT::constant_branching_costs;
@@ -282,6 +285,7 @@ namespace STreeD {
 		// Only use the similarity lower bound computer if the optimization task is element-wise additive
 		if constexpr (OT::element_additive) {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
+			similarity_lower_bound_computer = nullptr;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
 			// Added instances may make a leaf node large enough, so the bound does not hold for a minimum leaf node size
-- 
2.43.0


From 00ee62ac1c67c9ce6ffba84a530cb02dec9df7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:34 +0000
Subject: [PATCH 50/61] fix: initialize the solver again after an
 initialization failed

---
 src/solver/solver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 923faa6..faa8466 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -234,8 +234,8 @@ namespace STreeD {
 		if (!reset && org_train_data == _train_data) return;
 		
 		// Update the data objects, and inform the task about the new data
-		org_train_data = _train_data;
-		PreprocessTrainData(org_train_data, train_data);
+		org_train_data = ADataView(); // Only set when the initialization is complete
+		PreprocessTrainData(_train_data, train_data);
 		train_summary = DataSummary(train_data);
 		task->InformTrainData(train_data, train_summary);
 
@@ -256,6 +256,7 @@ namespace STreeD {
 
 		// Initialize the global UB with an empty solution
 		global_UB = InitializeSol<OT>();
+		org_train_data = _train_data;
 	}
 	
 	template <class OT>
@@ -265,12 +266,13 @@ namespace STreeD {
 		if (!reset && org_test_data == _test_data) return;
 
 		// Update the data objects, and inform the task about the new data
-		org_test_data = _test_data;
-		PreprocessTestData(org_test_data, test_data);
+		org_test_data = ADataView(); // Only set when the initialization is complete
+		PreprocessTestData(_test_data, test_data);
 		test_summary = DataSummary(test_data);
 		task->InformTestData(test_data, test_summary);
 
 		data_splitter.Clear(true);
+		org_test_data = _test_data;
 	}
 
 	template <class OT>
-- 
2.43.0


From 9ba80f90f0abe46655c84d805cb50f38c2aa63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:59 +0000
Subject: [PATCH 51/61] fix: do not reuse the counts of a terminal solver that
 ran out of memory

---
 src/solver/cost_combiner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index 41c1a6e..692e83c 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -23,7 +23,7 @@ namespace STreeD {
 			if (data_add.Size() == 0 && data_remove.Size() == 0 && !OT::terminal_filter && !OT::terminal_compute_context) return false;
 		}
 		
-		this->data = data;
+		this->data = ADataView(); // Only set when all the costs are updated
 		this->num_nodes = num_nodes;
 
 		if (using_incremental_updates && data_add.Size() + data_remove.Size() < data.Size()) {
@@ -38,18 +38,19 @@ namespace STreeD {
 		}
 		ResetBranchingCosts();
 		UpdateBranchingCosts(data, context);
+		this->data = data;
 		return true;
 	}
 
 	template <class OT>
 	void CostCalculator<OT>::InitializeReconstruct(const ADataView& data, const typename CostCalculator<OT>::Context& context, int feature) {
+		this->data = ADataView(); // Reset data, so that incremental updates are not used in the next normal call
 		for (size_t k = 0; k < cost_storage.size(); k++)
 			cost_storage[k].ResetToZerosReconstruct(feature);
 		counter.ResetToZeros();
 		UpdateCostsReconstruct(data, feature);
 		ResetBranchingCosts();
 		UpdateBranchingCosts(data, context);
-		this->data = ADataView(); // Reset data, so that incremental updates are not used in the next normal call
 	}
 
 	template <class OT>
-- 
2.43.0


From 668a20f5f4cadbd286896ce429026ab9226d8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:59 +0000
Subject: [PATCH 52/61] fix: keep the parameters complete when memory runs out
 after tuning

---
 src/solver/solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index faa8466..3f040f9 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -949,7 +949,7 @@ namespace STreeD {
 			if (verbose) {
 				std::cout << std::endl << "Finished hyper parameter search (phase " << (tune_phase+1) << "/" << OT::num_tune_phases << "). Best config : " <<  tuning_config.descriptors[best_config] << std::endl << std::endl;
 			}
-			parameters = tuning_config.parameters[best_config];
+			parameters = std::move(tuning_config.parameters[best_config]);
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
 		parameters.SetFloatParameter("time", std::max(0.0, stopwatch.TimeLeftInSeconds()));
-- 
2.43.0


From f2ebdb69b37a65368ea499e38c144cf73330aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 53/61] fix: forget the previous fit when an estimator is
 fitted again

After a fit that failed or found no tree, get_tree, print_tree and export_dot
still answered from an earlier fit, and predict combined the earlier tree with
the new binarizer. Before the first fit, is_fitted answered True.
---
 pystreed/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 3ba8afc..214ace9 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -105,7 +105,6 @@ class BaseSTreeDSolver(BaseEstimator):
         self.n_thresholds = n_thresholds
         self.n_categories = n_categories
         
-        self.fit_result = None
         self._solver = None
         self._label_type = np.int32
         self.binarizer_ = None
@@ -254,6 +253,10 @@ class BaseSTreeDSolver(BaseEstimator):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
+        # Forget the previous fit, also if this fit fails or finds no tree
+        for attribute in ["fit_result", "tree_"]:
+            if hasattr(self, attribute):
+                delattr(self, attribute)
         # Validate params and data
         self._validate_params()
         X = self._binarize_data(X, y, categorical)
@@ -276,13 +279,13 @@ class BaseSTreeDSolver(BaseEstimator):
             self._solver._update_parameters(self._params)
         self._post_initialize_solver()
                 
-        self.fit_result = self._solver._solve(X, y, extra_data)
+        fit_result = self._solver._solve(X, y, extra_data)
         
-        if not self.fit_result.is_feasible():
+        if not fit_result.is_feasible():
             warnings.warn("No feasible tree found.", stacklevel=2)
-            delattr(self, "fit_result")
         else:
-            self.tree_ = self._solver._get_tree(self.fit_result)
+            self.tree_ = self._solver._get_tree(fit_result)
+            self.fit_result = fit_result
 
         if self.is_fitted() and self.verbose:
             print("Training score: ", self.fit_result.score())
-- 
2.43.0


From 45061cd8076f3c3a38f3be0cee6e0a51a4c2d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 54/61] fix: export a tree with more classes than the previous
 fit

The colors of the first export were kept, so exporting after a fit with more
classes failed.
---
 pystreed/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 214ace9..8298dae 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -254,7 +254,7 @@ class BaseSTreeDSolver(BaseEstimator):
             ValueError: If x or y is None or if they have different number of rows.
         """
         # Forget the previous fit, also if this fit fails or finds no tree
-        for attribute in ["fit_result", "tree_"]:
+        for attribute in ["fit_result", "tree_", "_colors", "colors"]:
             if hasattr(self, attribute):
                 delattr(self, attribute)
         # Validate params and data
-- 
2.43.0


From 51251f8f099779ed1063916cc501b74386aec7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 55/61] fix: detect the continuous columns in every fit

A fit without continuous columns used those of the previous fit.
---
 pystreed/regression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index d0d970d..2f8bc98 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -195,8 +195,8 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
     def _process_extra_data(self, X, extra_data):
         return extra_data
 
-    def _get_continuous_columns(self, X, continuous_columns):
-        if continuous_columns is None:
+    def _get_continuous_columns(self, X, continuous_columns, reset=False):
+        if continuous_columns is None and not reset:
             continuous_columns = self.continuous_columns_
         if continuous_columns is None:
             _, _, continuous_columns = get_column_types(X, self.categorical_columns_)
@@ -251,7 +251,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.categorical_columns_ = categorical_columns
-        extra_data = self._get_continuous_columns(X, continuous_columns)
+        extra_data = self._get_continuous_columns(X, continuous_columns, reset=True)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
 
-- 
2.43.0


From 68ca13744b8acec643ad5d50af4431a90bd70fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 56/61] fix: do not reorder the columns of the given data frame

Fitting or predicting moved the sensitive column of the data frame of the
caller to the front, so the next call took another column.
---
 pystreed/group_fair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 7550238..01e1dee 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -89,6 +89,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         if isinstance(self.sensitive_feature, int):
             if self.sensitive_feature == 0: return X
             if isinstance(X, pd.DataFrame):
+                X = X.copy()
                 sensitive_feature = X.columns[self.sensitive_feature]
                 sensitive_column = X.pop(sensitive_feature) 
                 X.insert(0, sensitive_feature, sensitive_column) 
@@ -99,6 +100,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             # assume pandas dataframe
             if not self.sensitive_feature in X.columns:
                  raise ValueError(f"Column {self.sensitive_feature} is not part of the data.")
+            X = X.copy()
             sensitive_column = X.pop(self.sensitive_feature) 
             X.insert(0, self.sensitive_feature, sensitive_column)
             return X
-- 
2.43.0


From 3b07c57a8f14cf73b253cc3ea88f28bedd6b6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:28 +0000
Subject: [PATCH 57/61] fix: consider every label of instance-dependent costs

A label that is the cheapest one of no instance was never assigned when the
data was given through the Python interface, so worse trees were reported as
optimal.
---
 src/tasks/instance_cost_sensitive.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tasks/instance_cost_sensitive.cpp b/src/tasks/instance_cost_sensitive.cpp
index 5cfcf6e..024e660 100644
--- a/src/tasks/instance_cost_sensitive.cpp
+++ b/src/tasks/instance_cost_sensitive.cpp
@@ -4,7 +4,14 @@
 namespace STreeD {
 
     void InstanceCostSensitive::PreprocessTrainData(ADataView& train_data) {
-        if(num_labels > train_data.NumLabels()) train_data.GetMutableInstances().resize(num_labels);
+        // Every label that has a cost can be assigned, also if it is the cheapest label of no instance
+        int n_labels = num_labels;
+        for (int k = 0; k < train_data.NumLabels(); k++) {
+            for (const auto i : train_data.GetInstancesForLabel(k)) {
+                n_labels = std::max(n_labels, GetInstanceExtraData<int, InstanceCostSensitiveData>(i).NumLabels());
+            }
+        }
+        if (n_labels > train_data.NumLabels()) train_data.GetMutableInstances().resize(n_labels);
     }
 
     void InstanceCostSensitive::PreprocessTestData(ADataView& test_data) {
-- 
2.43.0


From d0b496e91a7b12fc1181518b125ec4b58957a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:51 +0000
Subject: [PATCH 58/61] fix: report failed writes when exporting a tree with
 plots

An error while writing a plotted node to the exported file was taken for a
failed plot. The export then returned normally although text had been lost.
---
 pystreed/instance_cost_sensitive_classification.py | 14 ++++++++------
 pystreed/regression.py                             |  2 +-
 pystreed/survival_analysis.py                      |  2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a3f7b0b..a3b1b13 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -192,7 +192,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         # Return html color code in #RRGGBB format
         return "#%2x%2x%2x" % tuple(color)
 
-    def _export_bar_plot(self, fh, node_id, label_names, train_data, text_prefix=""):
+    def _export_bar_plot(self, node_id, label_names, train_data, text_prefix=""):
         if not hasattr(self, "_colors"):
             self._colors = _color_brew(self.n_classes_)
         import matplotlib.pyplot as plt
@@ -230,12 +230,12 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             os.makedirs(self.__export_directory)
         plt.savefig(filename, bbox_inches="tight", dpi=600)
         
-        fh.write(f"{node_id}  [label=\"\", image=\"{filename}\", width=2.0, height=1.3, fixedsize=true, shape=none] ;\n")
+        return f"{node_id}  [label=\"\", image=\"{filename}\", width=2.0, height=1.3, fixedsize=true, shape=none] ;\n"
     
     def _export_dot_predicate_node(self, fh, node, node_id, feature_names, label_names, train_data):
         predicate = self._get_predicate_str(node.feature, feature_names)
         try:
-            self._export_bar_plot(fh, node_id, label_names, train_data, f"{predicate}\n")
+            line = self._export_bar_plot(node_id, label_names, train_data, f"{predicate}\n")
         except:
             cost_sums = np.zeros(self.n_classes_)
             costs = train_data[2]
@@ -248,11 +248,12 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             best_label = self._get_label_str(best_ix, label_names)
             best_costs = cost_sums[best_ix]
             branching_color = self._get_branching_color(cost_sums)
-            fh.write(f"{node_id} [label=\"{predicate}\nN = {n}, Best = {best_label}, Costs = {_dynamic_float_formatter(best_costs)}\", color=\"#222222\", fillcolor=\"{branching_color}\"] ;\n") 
+            line = f"{node_id} [label=\"{predicate}\nN = {n}, Best = {best_label}, Costs = {_dynamic_float_formatter(best_costs)}\", color=\"#222222\", fillcolor=\"{branching_color}\"] ;\n"
+        fh.write(line)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         try:
-            self._export_bar_plot(fh, node_id, label_names, train_data)
+            line = self._export_bar_plot(node_id, label_names, train_data)
         except:
             if not hasattr(self, "_colors"):
                 self._colors = _color_brew(self.n_classes_)
@@ -260,4 +261,5 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             label =  self._get_label_str(node.label, label_names)
             hex_color = "#{:02x}{:02x}{:02x}".format(*color)
             hex_line_color = "#{:02x}{:02x}{:02x}".format(*[int(0.4 * c) for c in color])
-            fh.write(f"{node_id}  [label=\"{label}\", color=\"{hex_line_color}\" fillcolor=\"{hex_color}\"] ;\n")
\ No newline at end of file
+            line = f"{node_id}  [label=\"{label}\", color=\"{hex_line_color}\" fillcolor=\"{hex_color}\"] ;\n"
+        fh.write(line)
\ No newline at end of file
diff --git a/pystreed/regression.py b/pystreed/regression.py
index 2f8bc98..f3c3e13 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -310,9 +310,9 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             if not os.path.exists(self.__export_directory):
                 os.makedirs(self.__export_directory)
             plt.savefig(filename, bbox_inches="tight", dpi=600)
-            fh.write(f"{node_id}  [label=\"\", image=\"{filename}\", width=2, height=2, fixedsize=true, shape=none] ;\n")
         except:
             return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data)
+        fh.write(f"{node_id}  [label=\"\", image=\"{filename}\", width=2, height=2, fixedsize=true, shape=none] ;\n")
 
     def export_dot(self, filename, feature_names=None, label_names=None):
         """
diff --git a/pystreed/survival_analysis.py b/pystreed/survival_analysis.py
index f8df2b9..de7785e 100644
--- a/pystreed/survival_analysis.py
+++ b/pystreed/survival_analysis.py
@@ -361,9 +361,9 @@ class STreeDSurvivalAnalysis(BaseSTreeDSolver):
             if not os.path.exists(self.__export_directory):
                 os.makedirs(self.__export_directory)
             plt.savefig(filename, dpi=300, bbox_inches="tight")
-            fh.write(f"{node_id}  [label=\"\", image=\"{filename}\", width=2, height=2, fixedsize=true] ;\n")
         except:
             return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data)
+        fh.write(f"{node_id}  [label=\"\", image=\"{filename}\", width=2, height=2, fixedsize=true] ;\n")
 
 
     def export_dot(self, filename, feature_names=None, label_names=None):
-- 
2.43.0


From 6a59577ee15f7e808c72b77687ce06ad86f15ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:36 +0000
Subject: [PATCH 59/61] fix: keep the output redirects of threads apart

Writing to sys.stdout lets other Python threads run. When verbose calls of two
threads overlapped, the redirects of std::cout were undone in the wrong order
and std::cout was left with a buffer that no longer exists.
---
 src/bindings.cpp | 53 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index aba3e8b..78fbb20 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -47,6 +47,49 @@ task_type get_task_type_code(std::string& task) {
     }
 }
 
+// While std::cout is redirected, the output of every thread goes to the buffer of the call that this thread is in
+class ThreadOutput : public std::streambuf {
+public:
+    static ThreadOutput& Get() { static ThreadOutput thread_output; return thread_output; }
+
+    // The buffer of the innermost call of this thread
+    static std::streambuf*& CallBuffer() { thread_local std::streambuf* buffer = nullptr; return buffer; }
+
+    void Begin() { if (num_calls++ == 0) original = std::cout.rdbuf(this); }
+    void End() { if (--num_calls == 0) std::cout.rdbuf(original); }
+
+protected:
+    int overflow(int c) override { return traits_type::eq_int_type(c, traits_type::eof()) ? traits_type::not_eof(c) : Target()->sputc(traits_type::to_char_type(c)); }
+    std::streamsize xsputn(const char* s, std::streamsize n) override { return Target()->sputn(s, n); }
+    int sync() override { return Target()->pubsync(); }
+
+private:
+    std::streambuf* Target() { return CallBuffer() ? CallBuffer() : original; }
+
+    std::streambuf* original{ nullptr };
+    int num_calls{ 0 };
+};
+
+// Redirect std::cout to sys.stdout of Python during a call.
+// Writing to sys.stdout may let other threads run, so calls can begin and end in any order
+class OutputRedirect {
+public:
+    OutputRedirect() : buffer(py::module_::import("sys").attr("stdout")), outer(ThreadOutput::CallBuffer()) {
+        ThreadOutput::Get().Begin();
+        ThreadOutput::CallBuffer() = &buffer;
+    }
+    ~OutputRedirect() {
+        ThreadOutput::CallBuffer() = outer;
+        ThreadOutput::Get().End();
+    }
+    OutputRedirect(const OutputRedirect&) = delete;
+    OutputRedirect& operator=(const OutputRedirect&) = delete;
+
+private:
+    py::detail::pythonbuf buffer;
+    std::streambuf* outer;
+};
+
 template<class LT, class ET>
 void NumpyToSTreeDData(const py::array_t<int, py::array::c_style>& _X,
                         const py::array_t<LT, py::array::c_style>& _y,
@@ -99,7 +142,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
     py::class_<Solver<OT>> solver(m, (name + "Solver").c_str());
     
     solver.def("_update_parameters", [](Solver<OT>& _solver, const ParameterHandler& parameters) {
-        py::scoped_ostream_redirect stream(std::cout, py::module_::import("sys").attr("stdout"));
+        OutputRedirect redirect;
         parameters.CheckParameters();
         _solver.UpdateParameters(parameters);
     });
@@ -110,7 +153,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
             const py::array_t<int, py::array::c_style>& X,
             const py::array_t<typename OT::LabelType, py::array::c_style>& y,
             const std::vector<typename OT::ET> extra_data) {
-        py::scoped_ostream_redirect stream(std::cout, py::module_::import("sys").attr("stdout"));
+        OutputRedirect redirect;
         AData train_data;
         ADataView train_data_view;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y, extra_data, train_data, train_data_view);
@@ -126,7 +169,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
             std::shared_ptr<SolverResult>& solver_result,
             const py::array_t<int, py::array::c_style>& X,
             const std::vector<typename OT::ET> extra_data) -> py::object {
-        py::scoped_ostream_redirect stream(std::cout, py::module_::import("sys").attr("stdout"));
+        OutputRedirect redirect;
         SolverTaskResult<OT>* result = static_cast<SolverTaskResult<OT>*>(solver_result.get());
         AData test_data;
         ADataView test_data_view;
@@ -143,7 +186,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
             const py::array_t<int, py::array::c_style>& X,
             const py::array_t<typename OT::LabelType, py::array::c_style>& y_true,
             const std::vector<typename OT::ET> extra_data) {
-        py::scoped_ostream_redirect stream(std::cout, py::module_::import("sys").attr("stdout"));
+        OutputRedirect redirect;
         AData test_data;
         ADataView test_data_view;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y_true, extra_data, test_data, test_data_view);
@@ -289,7 +332,7 @@ PYBIND11_MODULE(cstreed, m) {
     });
 
     m.def("initialize_streed_solver", [](ParameterHandler& parameters, std::default_random_engine& rng) {
-        py::scoped_ostream_redirect stream(std::cout, py::module_::import("sys").attr("stdout"));
+        OutputRedirect redirect;
 
         parameters.CheckParameters();
         bool verbose = parameters.GetBooleanParameter("verbose");
-- 
2.43.0


From 452cc6c9f9e9b423516630955cbd8ee1904c2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:54 +0000
Subject: [PATCH 60/61] fix: do not end the process when sys.stdout cannot be
 written

An error raised by sys.stdout while a verbose call printed its messages, such
as a closed pipe, was raised again in the destructor of the buffer, which
terminates the process.
---
 src/bindings.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index 78fbb20..11c959a 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -47,25 +47,48 @@ task_type get_task_type_code(std::string& task) {
     }
 }
 
+// Writes to an output stream of Python. What cannot be written is discarded
+class OutputBuffer : public py::detail::pythonbuf {
+public:
+    using py::detail::pythonbuf::pythonbuf;
+    ~OutputBuffer() override { Flush(); }
+
+    void Write(const char* s, std::streamsize n) { try { sputn(s, n); } catch (...) { Discard(); } }
+    void Flush() { try { pubsync(); } catch (...) { Discard(); } }
+
+private:
+    void Discard() { setp(pbase(), epptr()); }
+};
+
 // While std::cout is redirected, the output of every thread goes to the buffer of the call that this thread is in
 class ThreadOutput : public std::streambuf {
 public:
     static ThreadOutput& Get() { static ThreadOutput thread_output; return thread_output; }
 
     // The buffer of the innermost call of this thread
-    static std::streambuf*& CallBuffer() { thread_local std::streambuf* buffer = nullptr; return buffer; }
+    static OutputBuffer*& CallBuffer() { thread_local OutputBuffer* buffer = nullptr; return buffer; }
 
     void Begin() { if (num_calls++ == 0) original = std::cout.rdbuf(this); }
     void End() { if (--num_calls == 0) std::cout.rdbuf(original); }
 
 protected:
-    int overflow(int c) override { return traits_type::eq_int_type(c, traits_type::eof()) ? traits_type::not_eof(c) : Target()->sputc(traits_type::to_char_type(c)); }
-    std::streamsize xsputn(const char* s, std::streamsize n) override { return Target()->sputn(s, n); }
-    int sync() override { return Target()->pubsync(); }
+    int overflow(int c) override {
+        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
+        const char ch = traits_type::to_char_type(c);
+        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
+    }
+    std::streamsize xsputn(const char* s, std::streamsize n) override {
+        if (!CallBuffer()) return original->sputn(s, n);
+        CallBuffer()->Write(s, n);
+        return n;
+    }
+    int sync() override {
+        if (!CallBuffer()) return original->pubsync();
+        CallBuffer()->Flush();
+        return 0;
+    }
 
 private:
-    std::streambuf* Target() { return CallBuffer() ? CallBuffer() : original; }
-
     std::streambuf* original{ nullptr };
     int num_calls{ 0 };
 };
@@ -86,8 +109,8 @@ public:
     OutputRedirect& operator=(const OutputRedirect&) = delete;
 
 private:
-    py::detail::pythonbuf buffer;
-    std::streambuf* outer;
+    OutputBuffer buffer;
+    OutputBuffer* outer;
 };
 
 template<class LT, class ET>
-- 
2.43.0


From 606ab0e98e272f77b3f601abde04ab4d00360479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:05 +0000
Subject: [PATCH 61/61] fix: accept trees that meet the discrimination limit
 exactly

Rounding errors in the summed group scores made such trees exceed the limit,
even a limit of one, which any tree should satisfy.
---
 include/tasks/eq_opp.h         | 3 ++-
 include/tasks/group_fairness.h | 3 ++-
 src/tasks/eq_opp.cpp           | 6 +++---
 src/tasks/group_fairness.cpp   | 6 +++---
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 5356400..5aee151 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct EqOppSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double disc_epsilon = 1e-9; // Rounding errors in the sums of the group scores
 		int misclassifications{ 0 };
 		double group0_score{ 0 };
 		double group1_score{ 0 };
@@ -179,7 +180,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + EqOppSol::disc_epsilon;
 		}
 
 		void RelaxRootSolution(Node<EqOpp>& sol) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ffe59c7..3552cea 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct GroupFairnessSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double disc_epsilon = 1e-9; // Rounding errors in the sums of the group scores
 		int misclassifications { 0 };
 		double group0_score { 0 };
 		double group1_score { 0 };
@@ -179,7 +180,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + GroupFairnessSol::disc_epsilon;
 		}
 
 		void RelaxRootSolution(Node<GroupFairness>& sol) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 497e85c..6cce67f 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -86,7 +86,7 @@ namespace STreeD {
 	double EqOpp::ComputeTrainScore(const EqOppSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::disc_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -97,7 +97,7 @@ namespace STreeD {
 		double disc = 0;
 		if (train_group0_size > 0 && train_group1_size > 0)
 			disc = std::abs(Rate(train_value.group0_positives, train_group0_size) - Rate(train_value.group1_positives, train_group1_size));
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::disc_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -108,7 +108,7 @@ namespace STreeD {
 		double disc = 0;
 		if (test_group0_size > 0 && test_group1_size > 0)
 			disc = std::abs(Rate(test_value.group0_positives, test_group0_size) - Rate(test_value.group1_positives, test_group1_size));
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::disc_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 1a5af58..2eb78da 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -86,7 +86,7 @@ namespace STreeD {
 	double GroupFairness::ComputeTrainScore(const GroupFairnessSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::disc_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -97,7 +97,7 @@ namespace STreeD {
 		double disc = 0;
 		if (train_group0_size > 0 && train_group1_size > 0)
 			disc = std::abs(Rate(train_value.group0_positives, train_group0_size) - Rate(train_value.group1_positives, train_group1_size));
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::disc_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -108,7 +108,7 @@ namespace STreeD {
 		double disc = 0;
 		if (test_group0_size > 0 && test_group1_size > 0)
 			disc = std::abs(Rate(test_value.group0_positives, test_group0_size) - Rate(test_value.group1_positives, test_group1_size));
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::disc_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
-- 
2.43.0

