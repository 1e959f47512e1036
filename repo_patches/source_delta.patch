From 795ba74cb7f9fa489135a820be22cfcbfc4361ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 01/41] fix: evaluate individuals, not their return value, with
 executor_method="submit"

Submitting `evaluate` returned the individual itself, which was then
set as its own fitness score.
---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 7f6c97ff0046fd70c6e9b4a13c5f34f851cf6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 02/41] fix: keep individuals order when removing a pareto
 front

The order of a set of individuals depends on their addresses, so NSGA-II
runs with the same seed produced different results.
---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..48070e6 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,9 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		removed_inds = set(pareto_front)
+		# keep the order of the individuals, since set order is not reproducible
+		return [ind for ind in source_inds if ind not in removed_inds]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From ebe38749db0a07ade217a177183f05054cd98c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 03/41] fix: prefer lower front rank in
 NSGA2Fitness.better_than

As documented, an individual is better if it has a lower rank.
---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From b2b5c733cef672a20fb1245c0dbad61656d9cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 04/41] fix: record final_generation_ when the run is not
 terminated early

---
 eckity/algorithms/algorithm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..54502a3 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -290,6 +290,9 @@ class Algorithm(Operator, ABC):
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
+        else:
+            # no early termination
+            self.final_generation_ = self.max_generation
 
     def update_gen(self, gen: int) -> None:
         """
-- 
2.43.0


From 2bc4074c1d0dcada3bccdcc044c7b3ba5e11b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 05/41] fix: shut down the executor when an NSGA-II run is
 finished

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..b7a7a69 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -154,6 +154,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0


From d981b3b305a235fe8bac0a21fd231b498a38bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 06/41] fix: do not overwrite the evaluator context in
 SKClassifier.predict

Predicting replaced the training data of the evaluator, and concurrent
predictions could classify the input of one another.
---
 eckity/sklearn_compatible/sk_classifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/sklearn_compatible/sk_classifier.py b/eckity/sklearn_compatible/sk_classifier.py
index b65f3ed..fafa79b 100644
--- a/eckity/sklearn_compatible/sk_classifier.py
+++ b/eckity/sklearn_compatible/sk_classifier.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from sklearn.base import ClassifierMixin
 from sklearn.utils.validation import check_is_fitted
 
@@ -27,7 +29,9 @@ class SKClassifier(SklearnWrapper, ClassifierMixin):
         # Check is fit had been called
         check_is_fitted(self)
 
-        clf_eval: ClassificationEvaluator = (
+        # use a copy of the evaluator, to keep its training data unchanged
+        # and to allow concurrent predictions
+        clf_eval: ClassificationEvaluator = copy(
             self.algorithm.get_individual_evaluator()
         )
 
-- 
2.43.0


From 34e435bf46a6909e12ef3dd81e9497c9e3b3c642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 07/41] fix: unique individual ids when created by several
 threads

---
 eckity/individual.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..493cb52 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -1,4 +1,5 @@
 from copy import deepcopy
+from itertools import count
 
 from eckity.fitness.fitness import Fitness
 
@@ -36,7 +37,8 @@ class Individual:
         The ids of this individual's parents.
     """
 
-    id = 1
+    # drawing from the counter is atomic, so ids are unique across threads
+    _id_counter = count(1)
 
     def __init__(self, fitness: Fitness, update_parents: bool = False):
         self.update_id()
@@ -53,8 +55,7 @@ class Individual:
             self.parents = []
 
     def update_id(self):
-        self.id = Individual.id
-        Individual.id += 1
+        self.id = next(Individual._id_counter)
 
     def set_fitness_not_evaluated(self):
         self.fitness.set_not_evaluated()
-- 
2.43.0


From 2babaae4ad4cc2e519b0f3dcd476292a56a2c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 08/41] fix: swap all vector parts in VectorKPointsCrossover

The cut point value was compared instead of its index, so every part but
the first was skipped or swapped from the wrong position.
---
 eckity/genetic_operators/crossovers/vector_k_point_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..5c3e589 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,4 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            start_idx = xo_points[i + 1] if i + 1 < len(xo_points) else -1
-- 
2.43.0


From cc879119be544085ac0b28363f9a3a46d06773d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 09/41] fix: swapped default bounds of IntVector

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From 2080601c0842ba9251dec261d88b795bdf1f02cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 10/41] fix: pass bloat_weight to the default creators of
 HalfCreator

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..27e664d 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -63,6 +63,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
@@ -72,6 +73,7 @@ class HalfCreator(GPTreeCreator):
                 init_depth=self.init_depth,
                 function_set=self.function_set,
                 terminal_set=self.terminal_set,
+                bloat_weight=self.bloat_weight,
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
-- 
2.43.0


From bc3263d1d739d6e024777c04a93c92a4dea527b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 11/41] fix: keep elites unchanged in SimpleBreeder

The operator sequence was applied on the elites as well, so they did not
survive as they are.
---
 eckity/breeders/simple_breeder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..3ef0f06 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -49,6 +49,7 @@ class SimpleBreeder(Breeder):
                     )
 
             nextgen_population = []
+            elites = []
 
             num_elites = subpopulation.n_elite
             if num_elites > 0:
@@ -56,6 +57,10 @@ class SimpleBreeder(Breeder):
                     num_elites=num_elites,
                     higher_is_better=subpopulation.higher_is_better,
                 )
+                # elites take part in breeding, and also survive as they are
+                elitism_sel.apply_operator(
+                    (subpopulation.individuals, elites)
+                )
                 elitism_sel.apply_operator(
                     (subpopulation.individuals, nextgen_population)
                 )
@@ -69,6 +74,7 @@ class SimpleBreeder(Breeder):
                 subpopulation.get_operators_sequence(),
                 self.selected_individuals,
             )
+            nextgen_population[:len(elites)] = elites
 
             subpopulation.individuals = nextgen_population
 
-- 
2.43.0


From c3e7411700347c73e443e95043dc9a80af812a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 12/41] fix: exclude the executor from the PopulationEvaluator
 state

Once initialized, an algorithm could not be pickled or copied.
---
 eckity/evaluators/population_evaluator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..5bca043 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	def __getstate__(self):
+		# the executor cannot be pickled, and belongs to the algorithm
+		state = self.__dict__.copy()
+		state["executor"] = None
+		return state
-- 
2.43.0


From 5d4fd8df8969037a384828a5a3e60a44be5421e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 13/41] fix: create a separate default breeder for each
 SimpleEvolution instance

---
 eckity/algorithms/simple_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..409ce14 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
-- 
2.43.0


From 8f4396cdf3a0bbb16b6021f73eb72f8bcc78dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:25 +0000
Subject: [PATCH 14/41] fix: usable and separate default components for each
 NSGA2Evolution instance

The default breeder halved the population in each generation, the default
termination checker cannot handle a list of objectives, and all instances
shared the same default components.
---
 .../nsga2_evolution.py                        | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index b7a7a69..cc89d53 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,13 +4,10 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
-from eckity.multi_objective_evolution.nsga2_front_sorting import (
-    NSGA2FrontSorting,
-)
+from eckity.multi_objective_evolution import nsga2_front_sorting
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -20,13 +17,13 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
-        population_evaluator=SimplePopulationEvaluator(),
-        NSGA2FrontSorting=NSGA2FrontSorting(),
+        breeder=None,
+        population_evaluator=None,
+        NSGA2FrontSorting=None,
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
@@ -52,6 +49,15 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
+        if NSGA2FrontSorting is None:
+            NSGA2FrontSorting = nsga2_front_sorting.NSGA2FrontSorting()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From 9788e61f102ddf4fff4180a057f4812dc89284a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 15/41] fix: do not write statistics twice in a resumed run

The statistics of a restored algorithm are already subscribed.
---
 eckity/algorithms/simple_evolution.py               | 5 ++++-
 eckity/multi_objective_evolution/nsga2_evolution.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index 409ce14..313972e 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -163,8 +163,11 @@ class SimpleEvolution(Algorithm):
         Register statistics to `after_generation` event
         """
         super().initialize()
+        subscribed = list(self._get_subscribers("after_generation").values())
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            # a restored algorithm is already subscribed
+            if stat.write_statistics not in subscribed:
+                self.register("after_generation", stat.write_statistics)
 
     @overrides
     def generation_iteration(self, gen: int) -> bool:
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index cc89d53..61e5566 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -132,8 +132,11 @@ class NSGA2Evolution(Algorithm):
         Register statistics to `after_generation` event
         """
         super().initialize()
+        subscribed = list(self._get_subscribers("after_generation").values())
         for stat in self.statistics:
-            self.register("after_generation", stat.write_statistics)
+            # a restored algorithm is already subscribed
+            if stat.write_statistics not in subscribed:
+                self.register("after_generation", stat.write_statistics)
 
     def execute(self, **kwargs):
         """
-- 
2.43.0


From 2c5f929129d04726a1a7ad6d29eefd94b449c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 16/41] fix: handle a list of bounds per cell in bounds check
 and bit vectors

---
 eckity/genetic_encodings/ga/bit_string_vector.py | 10 +++++++---
 eckity/genetic_encodings/ga/vector_individual.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..8ce42e4 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,17 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        if type(self.bounds) == tuple:
+            return randint(self.bounds[0], self.bounds[1])
+        return randint(self.bounds[index][0], self.bounds[index][1])
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        bounds = self.bounds if type(self.bounds) == tuple \
+            else self.bounds[index]
+        return bounds[1] \
+            if self.cell_value(index) == bounds[0] else bounds[0]
 
 # end class bit string vector
diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 506113c5724f290a8830b6796f40c0f71fd8849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 17/41] fix: wrong arguments in the default mut_val_getter of
 VectorNPointMutation

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..71a701b 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From c3b96a10780abd15cfe1b9a0457f7eb187555f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 18/41] fix: return the individuals when a vector mutation
 fails all attempts

---
 .../genetic_operators/mutations/vector_n_point_mutation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 71a701b..995f8c5 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -132,5 +132,10 @@ class VectorNPointMutation(FailableOperator):
         ----------
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
+
+        Returns
+        -------
+        object
+            the given payload
         """
-        pass
+        return payload
-- 
2.43.0


From 15b424c35fa848a49551bb606fb092246e2d7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 19/41] fix: do not place an ERC in an argument of another type

For example, a float ERC could have been chosen as a bool or int argument.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..c6f03e5 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type is self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
-- 
2.43.0


From 9ea979979d50ba07f484629ab0f74687aca7d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 20/41] fix: support constants in the terminal set

Trees with constant terminals, such as ['x', 'y', 1, -1], could not be
executed or shown, although the documentation suggests such terminal sets.
---
 .../genetic_encodings/gp/tree/tree_individual.py  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index c6f03e5..b58faa8 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -269,7 +269,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # only strings are variables, the rest of the terminals are constants
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if isinstance(item, str) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
@@ -499,9 +504,13 @@ class Tree(Individual):
             return typed_add(1.0, 2.0)
         """
         args = (
-            list(self.terminal_set.keys())
+            [k for k in self.terminal_set if isinstance(k, str)]
             if None in self.terminal_set.values()
-            else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
+            else [
+                f"{k}: {v.__name__}"
+                for k, v in self.terminal_set.items()
+                if isinstance(k, str)
+            ]
         )
         ret_type_str = (
             ""
-- 
2.43.0


From 98f8f2fcaa1d5235b9b885098bd7f6b73a3c6bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 21/41] fix: revert all individuals when a vector mutation
 attempt fails

Individuals that preceded the failed one kept the changes of the failed
attempt, in addition to the changes of the next attempts.
---
 .../mutations/vector_n_point_mutation.py           | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 995f8c5..255d827 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,10 +100,9 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
-        for individual in individuals:
-            # clone the individual to revert in case of failure
-            old_individual = individual.clone()
-
+        # clone the individuals to revert in case of failure
+        old_individuals = [individual.clone() for individual in individuals]
+        for individual, old_individual in zip(individuals, old_individuals):
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
             # obtain the mutated values
@@ -118,9 +117,14 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
                 break
 
+        if not succeeded:
+            for individual, old_individual in zip(
+                individuals, old_individuals
+            ):
+                individual.set_vector(old_individual.vector)
+
         self.applied_individuals = individuals
         return succeeded, individuals
 
-- 
2.43.0


From 9fb43cae7fdf3c07ed2345989d8c489646a62967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 22/41] fix: do not truncate a constant tree result when the
 input is an integer array

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index b58faa8..499db7b 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,9 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            # (keep its value, which might not be an integer if X is)
+            dtype = np.result_type(X[:, 0], res)
+            res = np.full_like(X[:, 0], res, dtype=dtype)
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From 89e3e50b1f179469796739c34da9afb32f987bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:24 +0000
Subject: [PATCH 23/41] fix: keep the type of typed constants in ERCMutation

An int constant became a float, and a bool constant became a number.
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 499db7b..f182541 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -332,6 +332,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..e0092bd 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,9 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            value = terminal.value + random.gauss(mu, sigma)
+            # keep the type of the constant in the typed case
+            terminal.value = round(value) if terminal.node_type is int else value
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From 83c2e8e2402063542735d6a3a65c77a9762172a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 24/41] fix: make the t_argmax type picklable

---
 eckity/base/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/types.py b/eckity/base/types.py
index 7bcd016..2f936b2 100644
--- a/eckity/base/types.py
+++ b/eckity/base/types.py
@@ -1 +1 @@
-t_argmax = type("argmax", (int,), {})
+t_argmax = type("t_argmax", (int,), {})
-- 
2.43.0


From f04a28f60449b13c8eeeb6582532f0b558d1748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:35 +0000
Subject: [PATCH 25/41] fix: let argmax2floats mix arrays and constants

---
 eckity/base/typed_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 3ce0c5d..56e9ec5 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -121,7 +121,7 @@ def if_then_else(test: bool, dit: Any, dif: Any) -> float:
 
 
 def argmax2floats(x0: float, x1: float) -> t_argmax:
-    return np.argmax([x0, x1], axis=0)
+    return np.argmax(np.broadcast_arrays(x0, x1), axis=0)
 
 
 def and2ints(x: int, y: int) -> int:
-- 
2.43.0


From b47e40b759d65c96d102a37947464b8a68bc8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:30 +0000
Subject: [PATCH 26/41] fix: allow observers to register and unregister during
 an announcement

---
 eckity/before_after_publisher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..31d3676 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -31,7 +31,8 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        # subscribers may register or unregister during the announcement
+        for callback in list(self._get_subscribers(event_name).values()):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From 831609089522cf794c85e2ae4435cd168df486b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 27/41] fix: compare terminal nodes by value, not by identity

---
 eckity/genetic_encodings/gp/tree/tree_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_node.py b/eckity/genetic_encodings/gp/tree/tree_node.py
index 6cc07f1..a3a78bd 100644
--- a/eckity/genetic_encodings/gp/tree/tree_node.py
+++ b/eckity/genetic_encodings/gp/tree/tree_node.py
@@ -95,7 +95,8 @@ class TerminalNode(TreeNode):
         return (
             super().__eq__(other)
             and isinstance(other, TerminalNode)
-            and self.value is other.value
+            and type(self.value) is type(other.value)
+            and self.value == other.value
         )
 
     def __str__(self):
-- 
2.43.0


From 81c4ab06e19d92886481d4f2793afe2b683bad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:10 +0000
Subject: [PATCH 28/41] fix: keep a pickled or copied sklearn estimator fitted

---
 eckity/sklearn_compatible/sklearn_wrapper.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 832dece..4d73696 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -73,7 +73,9 @@ class SklearnWrapper:
     #     return self.is_fitted_
 
     def get_params(self, deep=True):
-        return self.__getstate__()
+        params = self.__dict__.copy()
+        params.pop('is_fitted_', None)
+        return params
 
     def set_params(self, **parameters):
         self.algorithm.__setstate__(parameters)
@@ -84,10 +86,7 @@ class SklearnWrapper:
         pass
 
     def __getstate__(self):
-        state = self.__dict__.copy()
-        if 'is_fitted_' in state:
-            del state['is_fitted_']
-        return state
+        return self.__dict__.copy()
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From db0a47580263e85f56d10ec5494757539d8d5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:15 +0000
Subject: [PATCH 29/41] fix: pick and replace subtrees by position, not by the
 first equal node

---
 .../genetic_encodings/gp/tree/tree_individual.py  | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index f182541..bfa9abd 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -343,10 +343,10 @@ class Tree(Individual):
         relevant_nodes = self.filter_tree(
             lambda node: node.node_type is None  # untyped case
             or (
-                node_type is None and node != self.root
+                node_type is None and node is not self.root
             )  # typed case with first invocation
             or (
-                node.node_type == node_type and node != self.root
+                node.node_type == node_type and node is not self.root
             )  # typed case with subsequent invocations
         )
         if not relevant_nodes:
@@ -356,7 +356,7 @@ class Tree(Individual):
         return self._get_subtree_by_root(subtree_root)
 
     def _get_subtree_by_root(self, subtree_root: TreeNode) -> List[TreeNode]:
-        start_i = self.tree.index(subtree_root)
+        start_i = self._node_index(subtree_root)
 
         if start_i == 0:
             return self.tree
@@ -364,6 +364,13 @@ class Tree(Individual):
         end_i = self._find_subtree_end([start_i])
         return self.tree[start_i: end_i + 1]
 
+    def _node_index(self, node: TreeNode) -> int:
+        # several nodes of a tree may be equal, so look for this very node
+        for i, tree_node in enumerate(self.tree):
+            if tree_node is node:
+                return i
+        return self.tree.index(node)
+
     def replace_subtree(
         self, old_subtree: List[TreeNode], new_subtree: List[TreeNode]
     ) -> None:
@@ -378,7 +385,7 @@ class Tree(Individual):
         -------
         None
         """
-        start_i = self.tree.index(old_subtree[0])
+        start_i = self._node_index(old_subtree[0])
         end_i = start_i + len(old_subtree)
         left_part = self.tree[:start_i]
         right_part = self.tree[end_i:]
-- 
2.43.0


From dca619dfa8e693c3ca82823002be40855a1807b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 30/41] fix: a failed gauss mutation always falls back to a
 uniform mutation

---
 .../genetic_operators/mutations/vector_random_mutation.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..34ed6c2 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -130,8 +130,9 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
         """
         Handle gauss mutation failure by performing uniform mutation.
         """
+        # the probability of the operator was already drawn
         mut = FloatVectorUniformOnePointMutation(
-            self.probability, self.arity, self.events
+            1.0, self.arity, self.events
         )
         return mut.apply_operator(payload)
 
@@ -188,8 +189,9 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
         """
         Handle gauss mutation failure by performing uniform mutation.
         """
+        # the probability of the operator was already drawn
         mut = FloatVectorUniformNPointMutation(
-            self.n, self.probability, self.arity, self.events
+            self.n, 1.0, self.arity, self.events
         )
         return mut.apply_operator(payload)
 
-- 
2.43.0


From 7d3ea960590817d5048530315c23a58ecff86234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 31/41] fix: selection methods keep a dictionary of events, so
 observers can register and act() works

---
 eckity/genetic_operators/selections/selection_method.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/genetic_operators/selections/selection_method.py b/eckity/genetic_operators/selections/selection_method.py
index 149579f..835be34 100644
--- a/eckity/genetic_operators/selections/selection_method.py
+++ b/eckity/genetic_operators/selections/selection_method.py
@@ -5,9 +5,7 @@ from eckity.event_based_operator import Operator
 
 class SelectionMethod(Operator):
     def __init__(self, events=None, higher_is_better=False):
-        if events is None:
-            events = ["after_selection"]
-        super().__init__(events=events)
+        super().__init__(events=events, event_names=["after_selection"])
         self.higher_is_better = higher_is_better
         self.selected_individuals = None
 
-- 
2.43.0


From a54619b5d7f0efa982915ec35c2d1a9042092953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 32/41] fix: an observer registered without a callback does not
 make the announcement fail

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 31d3676..7c3ed9f 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -2,6 +2,10 @@ BEFORE_OPERATOR_EVENT_NAME = 'before_operator'
 AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 
+def _ignore(sender, data):
+    """Default callback of observers registered without one."""
+
+
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
@@ -20,7 +24,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = _ignore
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From bef1b68dbb8a5b53f6ef7fba8835888599a2cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 33/41] fix: registering never replaces an observer of an
 existing events dictionary

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 7c3ed9f..d6fa538 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -16,7 +16,11 @@ class BeforeAfterPublisher:
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
-        self.customers_id = 0
+        # never reuse the id of an already registered subscriber
+        self.customers_id = 1 + max(
+            (customer for subscribers in self.events.values()
+             for customer in subscribers if isinstance(customer, int)),
+            default=-1)
 
     def _get_subscribers(self, event_name):
         return self.events[event_name]
-- 
2.43.0


From 0c7030d7a033c3235ea4862d216e08452d153805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 34/41] fix: a clone does not carry the selections and
 operators of earlier generations

---
 eckity/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 493cb52..da99c6b 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -63,6 +63,8 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From ce5d1f6ca02e9b686add4fa7cb71c6436c1f0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 35/41] fix: operators given a list of custom event names can
 be observed and acted with

---
 eckity/before_after_publisher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index d6fa538..f4c65e4 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -9,8 +9,10 @@ def _ignore(sender, data):
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
-        if events is None:
+        if not isinstance(events, dict):
             # Initialize events dictionary with event names as keys and subscribers as values
+            # (operators receive a list of their custom event names)
+            ext_events_names.extend(events or [])
             ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
             self.events = {event: {} for event in ext_events_names}
         else:
-- 
2.43.0


From 68b3044f54efadebe909e03cb4cd914e313a564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 36/41] fix: an ERC terminal has the requested type even when
 it equals another terminal

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index bfa9abd..52d139e 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -217,11 +217,9 @@ class Tree(Individual):
 
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
+        # all relevant terminals, including the erc, have the requested type
+        # (typeless in untyped case). An erc may equal a terminal of another
+        # type (e.g. 1 == True), so its type is not looked up by value
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From a15c115b7a50ddf191ffd197e2b12c5d32d8a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 37/41] fix: an events dictionary may hold only the events
 somebody subscribed to

---
 eckity/before_after_publisher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index f4c65e4..a22c133 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -18,6 +18,10 @@ class BeforeAfterPublisher:
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
+            # the dictionary may hold only the events somebody subscribed to
+            for event in [*ext_events_names, BEFORE_OPERATOR_EVENT_NAME,
+                          AFTER_OPERATOR_EVENT_NAME]:
+                self.events.setdefault(event, {})
         # never reuse the id of an already registered subscriber
         self.customers_id = 1 + max(
             (customer for subscribers in self.events.values()
-- 
2.43.0


From bbdb13e950bdbd0b79a445ff4f27f57b2ab89356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:22 +0000
Subject: [PATCH 38/41] fix: add_tree refused well-typed nodes below the first
 level, as it compared the types of other nodes

---
 .../gp/tree/tree_individual.py                | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 52d139e..412e772 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -109,23 +109,24 @@ class Tree(Individual):
 
     def add_tree(self, node: TreeNode) -> None:
         """Add a node to the tree following the defined type constrains"""
-        if (
-            self.size() == 0 and node.node_type == self.root_type
-        ) or self._should_add([0], node):
+        if self.size() == 0 or self._should_add([0], node, self.root_type):
             self.tree.append(node)
         else:
             raise ValueError(f"Could not add node {node} to tree {self.tree}")
 
-    def _should_add(self, pos: int, new_node: TreeNode) -> bool:
+    def _should_add(
+        self, pos: List[int], new_node: TreeNode, node_type: Optional[type]
+    ) -> Optional[bool]:
         """
-        Recursively find the parent function of the new node and check it
-        matches by type to the expected parameter. (pos is a size-1 list
-        so as to pass "by reference" on successive recursive calls).
+        Recursively find the place of the new node and check it matches by
+        type to the parameter expected there (`node_type` is the type expected
+        at `pos`, which is a size-1 list so as to pass "by reference" on
+        successive recursive calls). Return None if there is no such place.
         """
         if (
             pos[0] == self.size()
         ):  # reached the place the new node should be placed
-            return True
+            return new_node.node_type == node_type
 
         node = self.tree[pos[0]]
         res = None
@@ -133,10 +134,8 @@ class Tree(Individual):
             func_types = get_func_types(node.function)
             for i in range(node.n_args):
                 pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
-                    return func_types[i] == new_node.node_type
-                elif res is not None:
+                res = self._should_add(pos, new_node, func_types[i])
+                if res is not None:
                     return res
         return res
 
-- 
2.43.0


From 844ad11bc3ed940483d719272765cba7d3b5eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 39/41] fix: multi-objective statistics crashed on fronts with
 more than two corners

With three objectives a front has up to six individuals of infinite
crowding distance, and before the first selection no individual has a
rank; reporting such a generation must not end the run.
---
 eckity/multi_objective_evolution/moe_best_worst_statistics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index 398c382..e63d88f 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -75,5 +75,4 @@ class MOEBestWorstStatistics(Statistics):
             and indiv.fitness.crowding == float("inf")
         ]
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
-        assert len(result) in [1, 2]
         return result
-- 
2.43.0


From 0639eeb5d38b679ae65806dbd140f09417ad4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:51 +0000
Subject: [PATCH 40/41] fix: trees built without a fitness shared a single
 fitness object

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 412e772..5a03766 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Optional[Fitness] = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,9 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        # every tree manages a fitness state of its own
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From 13a6c1394e823af3d84c70e9f0188286309a2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 41/41] fix: creation probabilities were refused when their
 floating-point sum is not exactly 1

---
 eckity/subpopulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..3f1b716 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -1,5 +1,6 @@
 import logging
 import random
+from math import isclose
 
 import numpy as np
 
@@ -101,7 +102,8 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        # the sum of floats may differ from 1 by a rounding error
+        if not isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0

