From 635a4a46ba1e7c8336d1b7f961db4a0b3f17eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:14 +0000
Subject: [PATCH 01/15] fix: mutation level 0.0 still mutated with probability
 1/1000

determines_mutation compared with <=, so a draw of 0 mutated at every level.
---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..8a3d751 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 5434957bf4efe6ea31f83c77d5cca3df72cb9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:14 +0000
Subject: [PATCH 02/15] fix: CategoricalMutation rejected the documented levels
 weak/normal/strong

check_mutation used a mutation_map that does not exist (AttributeError, also with the
default level); the levels are mapped per genotype length as in BinStringMutation.
---
 baumeva/ga/mutations/categorical_mutation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 8a3d751..464caf2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -91,5 +91,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From 4166cd7a1a16f6e8629de7c88c2a270f7a18b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:14 +0000
Subject: [PATCH 03/15] fix: fitness removed 'optimize' from the caller's
 conditions list

A second run with the same list failed; the fitness now works on its own copy.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 763e1c48137e0115bd0c1a55f177b80940a84aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 04/15] fix: objective function was called without the supplied
 input data

Falsy input data (0, [], ...) was dropped, and multi-objective ranking and the VEGA set-up
called the objective without input data at all.
---
 baumeva/ga/fitness/base_fitness.py  | 2 +-
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/vega.py                     | 8 ++++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..67df7e5 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..a8b9b52 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,12 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is not None:
+            num_objectives = self.conditions.count('optimize')
+        elif self.input_data is not None:
+            num_objectives = len(self.obj_function(self.input_data, [0]*len(self.gens)))
+        else:
+            num_objectives = len(self.obj_function([0]*len(self.gens)))
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From f05a246386c967b725c6c415e1dbf23451b6b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 05/15] fix: conditional multi-objective scores were stored in
 reverse order

The objectives are popped from the back, so the i-th objective met the wrong target value.
---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 67df7e5..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 7ed6004461605dcfd2def47790d0880b541b6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 06/15] fix: VEGA balanced/ranked selection kept only the
 parents of the last objective

Each objective started a new empty parents list, dropping the shares selected before.
---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4185ea7 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,4 +1,5 @@
 from .balanced_selection import BalancedSelection
+from .base_selection import BaseSelection
 from baumeva.ga import MultiGaData
 
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From f32725d2fc045b273692f86c181a2e7f0f4a5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 07/15] fix: VEGA ignored its tournament_size parameter

---
 baumeva/vega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index a8b9b52..dec4ace 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -87,7 +87,8 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives,
+                                            tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 9d42d4ed0b1b93942a480c83ecb230b8e05a2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:36 +0000
Subject: [PATCH 08/15] fix: binary grid could be coarser than the requested
 step

A range that is not a multiple of the step was truncated before choosing the number of bits.
---
 baumeva/ga/populations/binary_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..1b4f182 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -1,3 +1,4 @@
+from math import ceil
 from typing import List, Tuple
 from random import randint
 from .base_population import BasePopulation
@@ -55,7 +56,7 @@ class BinaryPopulation(BasePopulation):
         """
         for gen in self.gens:
             gen_range = abs(gen[1] - gen[0])
-            num_points = int(gen_range / gen[2])
+            num_points = ceil(gen_range / gen[2])
             num_bits, real_num_points = self.get_real_number_of_points(num_points)
             self.real_step.append(gen_range / (2 ** num_bits - 1))
             self.num_bits.append(num_bits)
-- 
2.43.0


From da2e3f73381bb245153541009ab969218f9195d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 09/15] fix: ranked selection mistook a first score of -1 for a
 tie

The sentinel for "no previous score" was a legal score.
---
 baumeva/ga/selections/ranked_selection.py      | 2 +-
 baumeva/ga/selections/vega_ranked_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..1acb1e6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -25,7 +25,7 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..7de4291 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,7 +25,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-- 
2.43.0


From c31875a8d20d7894231e38081fd0cba4c85a769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 10/15] fix: VEGA ranked selection ranked by list position
 instead of the objective's score

The population is ordered by Pareto rank, so each objective needs its own order.
---
 baumeva/ga/selections/vega_ranked_selection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index 7de4291..82c2423 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,21 +25,22 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        order = sorted(ga_data.population, key=lambda ind: ind['score'][self.idx])
         prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        for idx in range(len(order)):
             rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
+            order[idx]['rank'][self.idx] = rank
+            if order[idx]['score'][self.idx] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(order):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
+                        order[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
+                    order[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
+            prev_score = order[idx]['score'][self.idx]
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: MultiGaData) -> None:
-- 
2.43.0


From 20e1b2913770ed46f10e09b4dfd7fb3ffe74ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 11/15] fix: recorded Pareto sets changed in later generations

The history held the live individuals, which survive and are re-ranked.
---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From 434d566261c1d3c6ae374af4bbfe6a5ae5b835ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 12/15] fix: FFGA survivors kept the fitness of an outdated
 rank

---
 baumeva/ga/fitness/ffga_fitness.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..146371d 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,6 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        # ranks of surviving individuals change with the population
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From 6ce04bfaa0edde47ae5d9e64ba2fecae1691aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 13/15] fix: StaticPenalty ignored violated equalities and
 failed on all but single intervals

The != test was inverted, the first interval that did not match raised, and inequalities
used the coefficients of the equalities.
---
 baumeva/ga/penalties/static_penalty.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..f408504 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,23 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
+                if values[i] == 0:
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] <= abs(values[i]) < val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
-                    res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                    if val[0] <= values[i] < val[1]:
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 43798f224cefc23ae0f1c17cc37e42b3bf8581a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 14/15] fix: every generation reseeded the random generator

get_empty_copy, used by selection and crossover, ran the population constructor, which
seeds the generator: with a seed set every generation replayed the same random numbers.
---
 baumeva/ga/populations/binary_gray_population.py | 2 +-
 baumeva/ga/populations/binary_population.py      | 2 +-
 baumeva/ga/populations/cat_population.py         | 2 +-
 baumeva/ga/populations/order_cat_population.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..edaba7d 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -55,4 +55,4 @@ class BinaryGrayPopulation(BinaryPopulation):
 
         :return: An empty instance of BinaryGrayPopulation.
         """
-        return BinaryGrayPopulation()
+        return BinaryGrayPopulation.__new__(BinaryGrayPopulation)
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1b4f182..cf23cf3 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -164,7 +164,7 @@ class BinaryPopulation(BasePopulation):
 
         :return: An empty instance of BinaryPopulation.
         """
-        new_population = BinaryPopulation()
+        new_population = BinaryPopulation.__new__(BinaryPopulation)
         new_population.is_phenotype = True
 
         return new_population
diff --git a/baumeva/ga/populations/cat_population.py b/baumeva/ga/populations/cat_population.py
index 2278b62..5721022 100644
--- a/baumeva/ga/populations/cat_population.py
+++ b/baumeva/ga/populations/cat_population.py
@@ -68,4 +68,4 @@ class CatPopulation(BasePopulation):
 
         :return: An empty instance of CatPopulation.
         """
-        return CatPopulation()
+        return CatPopulation.__new__(CatPopulation)
diff --git a/baumeva/ga/populations/order_cat_population.py b/baumeva/ga/populations/order_cat_population.py
index 49bbd6e..0eb5b39 100644
--- a/baumeva/ga/populations/order_cat_population.py
+++ b/baumeva/ga/populations/order_cat_population.py
@@ -27,4 +27,4 @@ class OrderCatPopulation(CatPopulation):
 
         :return: An empty instance of OrderCatPopulation.
         """
-        return OrderCatPopulation()
+        return OrderCatPopulation.__new__(OrderCatPopulation)
-- 
2.43.0


From dfd49cdafca085a93d0b6832ae9836e1c3d4f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 15/15] fix: balanced selection could pick an individual of
 zero weight

With equal neighbouring cumulative probabilities the nearest-boundary search
returned the first of them, so an individual with fitness 0 (or a share lost in
rounding) took part of the range of its neighbour.
---
 baumeva/ga/selections/balanced_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..45fb0b5 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,3 +1,4 @@
+from bisect import bisect_right
 from random import random
 from copy import deepcopy
 from .base_selection import BaseSelection
@@ -52,8 +53,7 @@ class BalancedSelection(BaseSelection):
         :return: The index of the selected individual.
         """
         rand_value = random()
-        idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        return bisect_right(self.selection_scores, rand_value) - 1
 
     def balanced_selection(self, ga_data: GaData):
         """
-- 
2.43.0

