"""Writes /verif/properties.jsonl (source of truth for the wording of the properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                     "observe_at": list(observe), "hook_needed": None}}
    assert len(title) <= 80, title
    P.append(d)

X = "baumeva/ga/crossovers/"
M = "baumeva/ga/mutations/"
S = "baumeva/ga/selections/"
F = "baumeva/ga/fitness/"
PN = "baumeva/ga/penalties/"
PO = "baumeva/ga/populations/"

prop("C01", "Order crossover always produces valid orderings",
     "Recombining two equally long duplicate-free orderings (length at least 3) with order crossover always gives a child that is a duplicate-free ordering of that same length whose items all come from its two parents, so permutations of the same items give permutations of those items. "
     "Every consecutive pair of selected parents contributes exactly one new, not yet evaluated child (both children when the operator's num_offsprings is set to 2), in pair order. Parents and the current population are left unchanged.",
     ["inputs", "histories"], "all parent pairs, all lengths >= 3, all numbers of pairs, all outcomes of the random cut points and of the coin that picks the returned child",
     "The only test that uses order crossover runs one 9-letter word with one seed and asserts nothing about the children; a wrong cut for one segment position or for parents over different item sets is never observed.",
     [X + "order_crossover.py", X + "base_crossover.py"],
     [("segment of one parent plus the other parent's remaining items", X + "order_crossover.py: OrderCrossover.crossover"),
      ("pairing of parents and child creation", X + "base_crossover.py: BaseCrossover.execute/get_children")])

prop("C02", "Combinatory mutations only rearrange an ordering",
     "Swap, inversion, movement and shift mutation turn any ordering of at least 3 distinct items into an ordering of exactly the same items: same length, nothing lost, duplicated or invented. "
     "Nothing else recorded for the child changes, and no individual other than the new children is touched.",
     ["inputs", "histories"], "all orderings of length >= 3, all numbers of children, all outcomes of the random positions, all mutation levels",
     "Tests only run swap mutation on 9 letters without any assertion; the other three operators are reached only through full runs, whose randomised result hides a lost or duplicated item.",
     [M + "swap_mutation.py", M + "inversion_mutation.py", M + "movement_mutation.py", M + "shift_mutation.py", M + "base_combinatory_mutation.py"],
     [("in-place rearrangements of a child's genotype", M + "*_mutation.py: get_mutation"),
      ("loop over the children", M + "base_combinatory_mutation.py: BaseCombinatoryMutation.execute")])

prop("C03", "Point and uniform crossover inherit every gene from the same position",
     "For one-point, two-point and uniform crossover every child has its parents' length and each gene of the child equals the gene at the same position in one of its two parents. "
     "Every consecutive pair of selected parents contributes exactly one new, not yet evaluated child (both children when the operator's num_offsprings is set to 2), in pair order, whose genes are stored independently of its parents. Parents and the current population are left unchanged.",
     ["inputs", "histories"], "all gene values, all genotype lengths (>= 2 for one-point, >= 3 for two-point, >= 1 for uniform), all numbers of pairs, all random cut points and coins",
     "The tests run full optimisations and never compare a child with its parents, so an off-by-one at a cut or a gene taken from the wrong position goes unnoticed.",
     [X + "one_point_crossover.py", X + "two_point_crossover.py", X + "uniform_crossover.py", X + "base_crossover.py"],
     [("slicing / coin per gene", X + "*_crossover.py: crossover"), ("pairing and child creation", X + "base_crossover.py")])

prop("C04", "Bit and categorical mutation stay inside each gene's alphabet",
     "Bit-string mutation only flips bits ('0' to '1' and back) and keeps the number of bits; categorical mutation only replaces a gene by a different value from that gene's own declared pool (list of values or start/end/step range), leaves genes with a single possible value alone and keeps the number of genes. "
     "Nothing but the genes of the new children changes: pools, parents and the current population stay as they were.",
     ["inputs", "histories"], "all genotypes over the alphabet, all pools (lists of distinct values and ranges), all levels, all random outcomes, all numbers of children",
     "Tests only use one list pool of ten letters and never look at mutated genes; range pools, single-valued pools and mixed pools are never run.",
     [M + "bin_string_mutation.py", M + "categorical_mutation.py"],
     [("flip / choose another value", M + "bin_string_mutation.py, categorical_mutation.py: get_mutation")])

prop("C05", "The mutation level is validated and honoured at its extremes",
     "Every mutation operator accepts exactly the names 'weak', 'normal', 'strong' and floats between 0 and 1 as its level and rejects anything else when it is created. "
     "Whatever the random numbers are, level 0.0 leaves every child unchanged, and level 1.0 applies the mutation to every child (combinatory operators) or to every gene that has an alternative (bit and categorical operators). "
     "A named level acts as the documented rate: 0.03, 0.1, 0.3 for combinatory operators and 0.3, 1, 3 divided by the number of genes for bit and categorical operators.",
     ["inputs", "configurations"], "all constructor arguments, all levels, all random outcomes, all children",
     "Tests use a handful of float levels; the named levels, the boundaries 0 and 1 and the rejection of bad levels are never exercised, and a 1-in-1000 wrong decision is invisible in a run.",
     [M + "base_combinatory_mutation.py", M + "bin_string_mutation.py", M + "categorical_mutation.py", M + "base_mutation.py"],
     [("level validation", M + "*: check_mutation"), ("level translation", M + "*: update_mutation_lvl"), ("threshold test on a random draw", M + "*: determines_mutation")])

prop("C06", "The first generation has the requested size and lies in the search space",
     "Filling a population gives exactly the requested number of individuals: first the user's individuals in the given order, then generated ones that lie in the search space (bit strings of the required length, category values from each gene's own pool, duplicate-free orderings of the requested length within the requested range). "
     "All of them are marked not yet evaluated and feasible and are numbered in order. Supplying more individuals than requested is rejected, and the user's lists are neither changed nor shared with the population.",
     ["inputs", "configurations"], "all population sizes, gene declarations, user populations and random outcomes",
     "Tests start from a few fixed declarations and never check an initial individual; partial user populations and rejected sizes are not run.",
     [PO + "base_population.py", PO + "binary_population.py", PO + "binary_gray_population.py", PO + "cat_population.py", PO + "order_cat_population.py"],
     [("fill loops", PO + "binary_population.py, cat_population.py: fill"), ("random generation", PO + "*: get_generated_individ"), ("size check", PO + "*: set_params")])

prop("C07", "Binary genotypes always decode onto the declared gene grid",
     "For every declaration (low, high, step) with low < high and 0 < step <= high - low, every bit string decodes, gene by gene from that gene's own bits, to low + index * spacing, which lies between low and high; the all-low and all-high indices give exactly low and high (up to rounding). "
     "The number of bits per gene is the smallest that gives at least (high - low)/step intervals when the range is a whole number of steps, so the spacing never exceeds the requested step. Decoding never changes the bit string.",
     ["inputs", "configurations"], "all declarations, numbers of genes and bit strings, for plain and Gray coding (real arithmetic)",
     "Tests decode random individuals of four declarations and never compare the value with the declared range.",
     [PO + "binary_population.py", PO + "binary_gray_population.py"],
     [("bit count search", PO + "binary_population.py: get_real_number_of_points/get_gens_params"), ("decoding", PO + "binary_population.py, binary_gray_population.py: binary_individ_to_float")],
     state=[("idx_bits", "cumulative bit offsets, one more than the number of genes", PO + "binary_population.py")])

prop("C08", "User values survive binary and Gray encoding",
     "Encoding any user individual whose values lie within the declared ranges and decoding it again gives each value back to within half a grid spacing, for plain and for Gray coding; values outside their range and individuals of the wrong length are rejected. "
     "Gray coding is a bijection on the non-negative integers whose decoding inverts its encoding, and neighbouring indices differ in exactly one bit.",
     ["inputs", "configurations"], "all declarations, all in-range values, all non-negative integers (real arithmetic)",
     "No test supplies a user individual to a binary population, and Gray coding is never decoded against a known value.",
     [PO + "binary_population.py", PO + "binary_gray_population.py"],
     [("encoding", PO + "binary_population.py: float_individ_to_binary/index_to_binary"), ("Gray maps", PO + "binary_gray_population.py: get_gray_value/get_index_from_gray")])

prop("C09", "Tournament selection returns pairs of distinct tournament winners",
     "Tournament selection yields exactly int(children_percent * population size parameter) pairs of parents (for the multi-objective variant that number divided among the objectives, the same number for each); the two parents of a pair are different members of the population. "
     "Every parent is an independent copy of a member that scores at least as well as at least tournament size - 1 other members (on the objective in question), so the tournament size - 1 worst never become parents. Tournament sizes below 2 or not below the population size are rejected; the population is unchanged apart from being renumbered.",
     ["inputs", "histories"], "all populations, score assignments, tournament sizes and random samples (partial correctness: whenever selection returns)",
     "Tests never look at the parents that were selected.",
     [S + "tournament_selection.py", S + "vega_tournament_selection.py", S + "base_selection.py"],
     [("winner of a sample", S + "tournament_selection.py, vega_tournament_selection.py: get_best"), ("pair loop with deep copies", S + "tournament_selection.py: tournament")])

prop("C10", "Roulette and ranked selection follow the declared shares",
     "With positive weights, the member chosen for a random number r in [0, 1) is the one whose interval of cumulative weight shares contains r. The weight is the member's score (balanced selection) or its rank (ranked selection): position in ascending score order starting at 1, tied members sharing the average of their positions, for any scores including negative ones. "
     "The two parents of a pair are different members and every parent is an independent copy of a member.",
     ["inputs", "histories"], "all populations with positive weights, all score assignments (ranked: population in ascending order, as the run keeps it), all random numbers (real arithmetic)",
     "The only test of roulette selection is one multi-objective run without assertions; ranked selection is never run.",
     [S + "balanced_selection.py", S + "ranked_selection.py"],
     [("cumulative shares and nearest-boundary lookup", S + "balanced_selection.py: add_probabilities/get_index"), ("average ranks of ties", S + "ranked_selection.py: add_probabilities")])

prop("C11", "Replacement keeps the best individual, all children and the population size",
     "Forming the next generation keeps every child and the best individual of the current population (for multi-objective elitism: every non-dominated individual), and adds only members of the current population; no kept individual is altered. "
     "For single-objective replacement the new population has exactly one more member than the requested population size, whatever duplicates the elite contains, so the best score never gets worse from one generation to the next.",
     ["inputs", "histories"], "all populations, numbers of children up to the requested size, duplicate patterns, transfer strategies and random samples",
     "Tests never check that the best individual survived or how large the population is; elites with duplicate genotypes depend on the seed.",
     ["baumeva/ga/new_generation.py", "baumeva/ga/multi_new_generation.py", PO + "base_population.py"],
     [("elite choice and duplicate replacement", "baumeva/ga/new_generation.py: add_best/add_parents"), ("replacement", "baumeva/ga/new_generation.py: execute; multi_new_generation.py: add_best/execute")])

prop("C12", "The reported best solution is the best ever seen and never degrades",
     "After every update of the run data the reported best score is the maximum of the previously reported one and all scores of the current generation; the best solution is replaced only on a strict improvement, is then an independent copy of the best member stamped with the current generation number, and otherwise stays untouched. "
     "The stagnation counter is reset to 0 exactly on a strict improvement and otherwise grows by one after the first generation; the generation number and each history list grow by exactly one entry (best, middle and worst score of the generation) and earlier entries never change.",
     ["inputs", "histories"], "all score assignments, population sizes >= 1, sorted or unsorted populations, all previous run data",
     "Tests print the best solution but never compare it with the scores seen.",
     ["baumeva/ga/ga_data.py", PO + "base_population.py"],
     [("sorting, history and best update", "baumeva/ga/ga_data.py: GaData.update; base_population.py: sort_by_dict")],
     state=[("best_solution", "best individual so far", "baumeva/ga/ga_data.py"), ("num_generation_no_improve", "stagnation counter", "baumeva/ga/ga_data.py")])

prop("C13", "Every individual is scored once, from its own decoded genes",
     "Evaluating a population with a single objective calls the objective function exactly once for every not yet evaluated individual and never for an evaluated one (multi-objective ranking calls it additionally, to compare members); every call gets that individual's decoded values (its genes where no decoding applies) and the user's extra input whenever one was given. "
     "Afterwards every individual carries its objective value(s) in the order the objective function returned them and the fitness computed from them: 1/(1 + |target - value| + penalty), or minus (value + penalty) without a target; already evaluated individuals keep theirs. Genes and decoded values are in their original places.",
     ["inputs", "configurations"], "all populations (mixed evaluated and new), objective functions, targets, extra inputs including falsy ones, constrained or not, single- and multi-objective with hyperbola fitness",
     "Tests never count objective calls or recompute a fitness; extra input data is never used.",
     [F + "base_fitness.py", F + "hyperbola_fitness.py", F + "multi_fitness.py", F + "vega_hyperbola_fitness.py"],
     [("evaluation loop", F + "base_fitness.py: execute/calc_obj_func/check_input/set_obj_score"), ("fitness formula", F + "hyperbola_fitness.py, vega_hyperbola_fitness.py: get_fitness_score")])

prop("C14", "Constraint violations are flagged and penalised, feasible points are not",
     "In constrained optimisation an individual is marked feasible exactly when every '<=' value is at most 0 and every '!=' value equals 0. "
     "The dynamic and adaptive penalties are never negative, are zero for feasible individuals, are positive for infeasible ones from the second generation on, and grow with every single violation; the static penalty is zero for feasible individuals and otherwise the sum of squares of coefficient times violation, using the coefficient of the interval of that condition's own table that contains the violation. "
     "Unknown condition signs and mismatched numbers of values are rejected.",
     ["inputs", "configurations"], "all constraint values and signs, generations, positive parameters, interval tables (real arithmetic)",
     "Tests only run one inequality with the dynamic penalty; equality constraints, the adaptive and the static penalty are never run.",
     [PN + "base_penalty.py", PN + "dynamic_penalty.py", PN + "adaptive_penalty.py", PN + "static_penalty.py", F + "base_fitness.py"],
     [("violation sums", PN + "*: get_sum_conditional_func/execute"), ("feasibility flag", F + "base_fitness.py: execute")])

prop("C15", "Pareto ranks and the reported front are exact",
     "In multi-objective evaluation every individual's rank is one plus the number of population members that dominate it (no value of the objective function larger and at least one smaller), and the rank-based fitness of every individual is 1/(1 + its current rank). "
     "After every update the reported front consists of independent copies of exactly the members of rank one, and it counts as an improvement exactly when the front differs from the previously reported one.",
     ["inputs", "histories"], "all populations, numbers of objectives, objective values including ties, previous fronts",
     "Tests never recompute dominance; ties and individuals kept from an earlier generation are never compared.",
     [F + "multi_fitness.py", F + "ffga_fitness.py", "baumeva/ga/multi_ga_data.py"],
     [("pairwise dominance", F + "multi_fitness.py: inferior/assign_ranks"), ("rank fitness", F + "ffga_fitness.py"), ("front extraction", "baumeva/ga/multi_ga_data.py: update")])

prop("C16", "A run does the requested generations and stops early only on stagnation",
     "Every ready-made optimiser and the collector evaluate and record at least one and at most the requested number of generations, each made by selection, crossover, mutation, replacement, evaluation and bookkeeping in that order. "
     "A run ends before the requested number only if the best solution has not improved for at least the early-stop number of consecutive generations, and it never continues once that count exceeds the early-stop number; without an early-stop number all generations are run. The run data handed back is the one the generations were recorded in.",
     ["inputs", "configurations", "histories"], "all numbers of generations, early-stop settings and improvement histories, for all five optimisers and the collector",
     "Tests run fixed lengths and never count generations; early stopping is hit or missed by chance.",
     ["baumeva/binary_ga.py", "baumeva/combinatory_ga.py", "baumeva/categorical_ga.py", "baumeva/vega.py", "baumeva/ffga.py", "baumeva/collector_ga.py"],
     [("main loop", "baumeva/*.py: optimize")])

prop("C17", "Optimisers leave their inputs alone and can be run again",
     "Creating fitness objects and running an optimiser never changes the caller's condition list, gene declarations, user population or the optimiser's own settings, so a second run of the same optimiser solves the same task. "
     "The optimisers pass the user's settings (sizes, early stop, mutation level, tournament size where tournaments are used, transfer strategy, child percentage, target, conditions, penalty, extra input) to the parts they build.",
     ["inputs", "configurations", "histories"], "all settings and all repeated runs, for all five optimisers",
     "No test runs an optimiser twice or inspects its arguments afterwards.",
     [F + "base_fitness.py", F + "multi_fitness.py", "baumeva/binary_ga.py", "baumeva/combinatory_ga.py", "baumeva/categorical_ga.py", "baumeva/vega.py", "baumeva/ffga.py"],
     [("task analysis", F + "base_fitness.py, multi_fitness.py: check_task/set_opt_value"), ("wiring", "baumeva/*.py: optimize")])

prop("C18", "A fixed seed makes a run reproducible",
     "When a random seed is configured (any integer, including 0), every random decision of a run is drawn after the generator has been seeded with exactly that value in the same run, and from that generator only, so two runs with the same settings and a deterministic objective function give the same result. "
     "Changing the configured seed takes effect for the next population that is created.",
     ["inputs", "configurations", "histories"], "all seeds, all optimisers and settings",
     "No test runs the same configuration twice; a draw before seeding or an ignored seed value cannot be seen in one run.",
     [PO + "base_population.py", "baumeva/global_generator.py"],
     [("seeding in the population constructor", PO + "base_population.py: __init__"), ("seed holder", "baumeva/global_generator.py")])

prop("C19", "Multi-objective roulette and ranked selection serve every objective",
     "The multi-objective roulette and ranked selections collect int(children_percent * population size parameter / number of objectives) pairs of parents for each objective, in objective order, and keep all of them. "
     "Each objective's pairs are drawn with shares taken from that objective's own scores (roulette) or from ranks in ascending order of that objective's own scores with ties averaged (ranked).",
     ["inputs", "histories"], "all populations with positive weights, numbers of objectives, score assignments and random numbers (real arithmetic)",
     "One test runs the roulette variant without looking at the parents; the ranked variant is never run.",
     [S + "vega_balanced_selection.py", S + "vega_ranked_selection.py", S + "balanced_selection.py"],
     [("per-objective loop", S + "vega_balanced_selection.py: execute"), ("per-objective ranks", S + "vega_ranked_selection.py: add_probabilities/execute")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
