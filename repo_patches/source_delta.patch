From e69ea7249741a3a0d088e74c340472a47dc9cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 01/12] fix: BaseFitness no longer edits the caller's condition
 list

---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 84c5d13a0d159b2ffd11f83b57a47d8b2385e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 02/12] fix: pass input_data to every objective function call,
 falsy values included

---
 baumeva/ga/fitness/base_fitness.py  | 2 +-
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/vega.py                     | 8 ++++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..67df7e5 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..a8b9b52 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,12 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is not None:
+            num_objectives = self.conditions.count('optimize')
+        elif self.input_data is not None:
+            num_objectives = len(self.obj_function(self.input_data, [0]*len(self.gens)))
+        else:
+            num_objectives = len(self.obj_function([0]*len(self.gens)))
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From 262cd4a391fc6bfcca4bb33928544d0f6c227088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 03/12] fix: CategoricalMutation accepts the named mutation
 levels

---
 baumeva/ga/mutations/categorical_mutation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..32da02e 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,9 +22,7 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
-            else:
+            if self.mutation_lvl not in ['weak', 'normal', 'strong']:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
@@ -91,5 +89,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From 122f9084754bbdbc1048d0dca08cc5c4d67635e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 04/12] fix: StaticPenalty penalises violations with the
 coefficient of their own interval

---
 baumeva/ga/penalties/static_penalty.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..bb842b8 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,23 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
+                if values[i] == 0:
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] < abs(values[i]) < val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
-                    res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
                     if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 5ee264fd13068c8e44e9134e32a0cccee7280176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 05/12] fix: VEGABalancedSelection keeps the parents of every
 objective

---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4c1970c 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,3 +1,4 @@
+from .base_selection import BaseSelection
 from .balanced_selection import BalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 633cfbf6d569f76634209d396de46b5cf7516f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 06/12] fix: rank every objective in its own score order, for
 any scores

---
 baumeva/ga/selections/ranked_selection.py      |  2 +-
 baumeva/ga/selections/vega_ranked_selection.py | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..1acb1e6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -25,7 +25,7 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..4986af4 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,21 +25,22 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        population = sorted(ga_data.population, key=lambda ind: ind['score'][self.idx])
+        prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        for idx in range(len(population)):
             rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
+            population[idx]['rank'][self.idx] = rank
+            if population[idx]['score'][self.idx] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(population):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
+                        population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
+                    population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
+            prev_score = population[idx]['score'][self.idx]
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: MultiGaData) -> None:
-- 
2.43.0


From f010087042f0fcfc9447c65d9c6a3afd41d6f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 07/12] fix: keep objective values in the order the objective
 function returns them

---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 67df7e5..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 83ee1646b808cfaa45d5388c635e5303fe5d970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 08/12] fix: VEGA uses the tournament_size it was given

---
 baumeva/vega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index a8b9b52..dec4ace 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -87,7 +87,8 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives,
+                                            tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 04e23a5f8214aeb724140d77ab20e3a59a921677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 09/12] fix: FFGA scores of kept individuals follow their
 current rank

---
 baumeva/ga/fitness/ffga_fitness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..b104fbc 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,5 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From bc148b2f9282ab38aa0ec0efb72aea96816a0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:20 +0000
Subject: [PATCH 10/12] fix: accept an objective function that returns its only
 value in a sequence

---
 baumeva/ga/fitness/base_fitness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index acffe2c..aa67e11 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -105,11 +105,12 @@ class BaseFitness(ABC):
             return list(values)
         else:
             try:
-                if len(values) > 1:
+                if len(values) != 1:
                     raise Exception(f'Number of returned values from objective function for non-conditional'
                                     f' optimization must be equal 1')
             except TypeError:
                 return values
+            return values[0]
 
     def calc_obj_func(self, genotype: List[Union[int, float]]) -> Union[int, float, list]:
         """
-- 
2.43.0


From 2d0903843aef9fce34da15c1e80756bf8936c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:30 +0000
Subject: [PATCH 11/12] fix: mutation level 0.0 never mutates and a level is
 not exceeded

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 32da02e..7b92faf 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -54,7 +54,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 2db57423d28ca7cb5471cea22e9b78f1bec5ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:20 +0000
Subject: [PATCH 12/12] fix: UniformCrossover gave both children of a pair one
 shared gene list

---
 baumeva/ga/crossovers/uniform_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/crossovers/uniform_crossover.py b/baumeva/ga/crossovers/uniform_crossover.py
index 4d61d34..46b63bc 100644
--- a/baumeva/ga/crossovers/uniform_crossover.py
+++ b/baumeva/ga/crossovers/uniform_crossover.py
@@ -27,7 +27,7 @@ class UniformCrossover(BaseCrossover):
             else:
                 new_gens.append(parent_2[i])
         child_1['genotype'] = new_gens
-        child_2['genotype'] = new_gens
+        child_2['genotype'] = new_gens.copy()
 
         return child_1, child_2
 
-- 
2.43.0

