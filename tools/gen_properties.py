#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
G = 'baumeva/ga/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))
NOASSERT = ('The six test scripts contain no assertion: they only show that one seeded or random run does not crash. ')

p('C01', 'The best individual always survives into the next generation',
  'In single-objective replacement (also used by VEGA), whatever the parent-transfer strategy ("best" or "random"), however many duplicates the population holds and however many children were produced, an individual with the highest fitness of the current generation is a member, unchanged, of the generation that replaces it; with "best" transfer and no duplicates, the transferred individuals are the fittest ones; with "random" transfer any individual can be transferred. In multi-objective replacement with "best" transfer, every non-dominated (rank 1) individual of the current generation is.',
  ['inputs', 'histories', 'configurations'], 'all populations (any scores, any duplicates), both transfer strategies, any number of children',
  NOASSERT + 'Losing the elite only shows in rare duplicate/size combinations and never crashes.',
  [G+'new_generation.py', G+'multi_new_generation.py'],
  [('elite slice / sample plus explicit best', G+'new_generation.py NewGeneration.add_best, add_parents, execute'), ('rank-1 prefix', G+'multi_new_generation.py MultiNewGeneration.add_best')],
  observe=['ga_data.population after NewGeneration.execute'])
p('C02', 'The reported best solution is the best ever seen, as a private snapshot',
  'After each generation is recorded, the reported best solution is at least as fit as every individual of that generation and as the previously reported one; it is replaced only by a strictly fitter individual, and it carries the index of the generation in which it was found. It is an independent copy: no later change to the population can alter it.',
  ['inputs', 'histories'], 'every sequence of generations and every score assignment',
  NOASSERT + 'A stale or aliased best solution prints plausible numbers.',
  [G+'ga_data.py', G+'populations/base_population.py'],
  [('sort, compare with strict <, deepcopy', G+'ga_data.py GaData.update'), ('ascending sort by score', G+'populations/base_population.py BasePopulation.sort_by_dict')],
  [('best_solution', 'best individual found so far', G+'ga_data.py GaData')], ['ga_data.best_solution after GaData.update'])
p('C03', 'Stagnation counter, early stop and generation budget are exact',
  'The number of generations without improvement becomes zero whenever a generation improves the reported best solution and grows by exactly one whenever it does not. Every ready-made algorithm and the collector end a run before its generation budget exactly when that number exceeds the early-stop setting (never if early stop is None, for the ready-made algorithms), and evaluate at most the configured number of generations, the initial one included.',
  ['histories', 'configurations'], 'every improvement history, every early_stop and num_generations, all six drivers',
  NOASSERT + 'They use one early_stop value each and never look at where the run stopped.',
  [G+'ga_data.py', 'baumeva/binary_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/categorical_ga.py', 'baumeva/vega.py', 'baumeva/ffga.py', 'baumeva/collector_ga.py'],
  [('counter update', G+'ga_data.py GaData.update, multi_ga_data.py MultiGaData.update'), ('loop bound and break test', 'optimize() of the six drivers')],
  [('num_generation_no_improve', 'generations in a row without improvement', G+'ga_data.py')])
p('C04', 'Every algorithm runs the generation stages completely and in order',
  'Every ready-made algorithm and the collector evaluate and record the filled initial population once before evolving, and then in each generation perform selection, crossover, mutation, replacement, evaluation and recording exactly once each, in that order, on the same run data; nothing is evolved before it is evaluated and nothing evaluated goes unrecorded. The ready-made algorithms return the data of that run, and print the best solution only if printing is enabled.',
  ['histories', 'configurations'], 'every generation of every run of all six drivers',
  NOASSERT + 'Any order of stages that does not crash passes.',
  ['baumeva/binary_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/categorical_ga.py', 'baumeva/vega.py', 'baumeva/ffga.py', 'baumeva/collector_ga.py'],
  [('main loop', 'optimize() of the six drivers')])
p('C05', 'The population size does not drift from generation to generation',
  'Single-objective replacement (also used by VEGA) of a population of at least the configured size by one or more children always yields exactly one individual more than the larger of the configured population size and the number of children: all the children and otherwise only unchanged individuals of the current generation, for both transfer strategies and any duplicates; so with fewer children than the configured size every generation after the first has the configured size plus one. FFGA replacement yields all the children and, with the "best" strategy, exactly the rank-1 individuals of the current generation once each.',
  ['inputs', 'configurations', 'histories'], 'any number of children, any duplicates, both strategies',
  NOASSERT + 'Population length is never inspected.',
  [G+'new_generation.py', G+'multi_new_generation.py'], [('elite count arithmetic', G+'new_generation.py NewGeneration.execute, add_parents, add_best')])
p('C06', 'Crossover yields one fresh, complete, unevaluated child per parent pair',
  'Crossover pairs the selected parents in order (first with second, third with fourth, ...) and produces exactly one child per pair. Every child has all the fields of the individuals of the population, with fitness, objective value and decoded value unset and marked feasible, and shares no list with its parents or with any member of the population; parents and population are left unmodified.',
  ['inputs', 'histories'], 'all parent lists and genotypes, all crossover operators',
  NOASSERT + 'Aliased or half-initialised children do not crash.',
  [G+'crossovers/base_crossover.py', G+'populations/base_population.py'],
  [('get_children / execute', G+'crossovers/base_crossover.py'), ('empty individual', G+'populations/base_population.py get_empty_individ')])
p('C07', 'Selection hands over independent copies of distinct current individuals',
  'Tournament, balanced and ranked selection replace the previous parents by exactly int(children_percent * configured size) pairs; each parent is an independent deep copy of a member of the current population, and the two parents of a pair come from two different members. Selection does not change the genes, decoded values, fitness, objective value or feasibility of the population.',
  ['inputs', 'histories', 'configurations'], 'all populations, scores, tournament sizes, children percentages',
  NOASSERT, [G+'selections/base_selection.py', G+'selections/tournament_selection.py', G+'selections/balanced_selection.py', G+'selections/ranked_selection.py'],
  [('pair loop with idx_individ test and deepcopy', G+'selections/*.py'), ('index reset', G+'populations/base_population.py reset_idx_individ')])
p('C08', 'A tournament is won by its fittest participant',
  'Each tournament draws the configured number of different participants from the whole current population, and the selected individual is a participant with maximal fitness among them (in VEGA, maximal in the objective the tournament is held for). A tournament size below 2, or not smaller than the configured population size, is rejected before anything is selected.',
  ['inputs', 'configurations'], 'all score assignments and tournament sizes',
  NOASSERT + 'Selecting the worst, or ignoring participants, only degrades results.',
  [G+'selections/tournament_selection.py', G+'selections/vega_tournament_selection.py'],
  [('get_best', G+'selections/tournament_selection.py, vega_tournament_selection.py'), ('check_tournament_size', G+'selections/tournament_selection.py')])
p('C09', 'One-point, two-point and uniform crossover keep every gene at its locus',
  'In a child of one-point, two-point or uniform crossover the gene at each position is the gene at the same position of one of its two parents, and the child has exactly the length of its parents. For one-point and two-point crossover the cut points lie strictly inside the genotype, so both parents contribute.',
  ['inputs'], 'all parents of any equal length and every random draw',
  NOASSERT + 'TwoPointCrossover is not run at all; a shifted slice keeps the length and crashes nothing.',
  [G+'crossovers/one_point_crossover.py', G+'crossovers/two_point_crossover.py', G+'crossovers/uniform_crossover.py'],
  [('slices at shared cut points', G+'crossovers/*.py crossover')])
p('C10', 'Order crossover always yields a valid arrangement',
  'If neither parent repeats a gene and both have the same length, every child of order crossover has that same length and repeats no gene, and each of its genes occurs in one of the parents: a contiguous segment of one parent stays in its place and all other genes come from the other parent; this also holds when the two parents use different subsets of values.',
  ['inputs'], 'all duplicate-free parents (same or different value sets) and every random segment',
  NOASSERT + 'One word-search run is made, without looking at intermediate genotypes.',
  [G+'crossovers/order_crossover.py'], [('segment + filtered remainder', G+'crossovers/order_crossover.py crossover')])
p('C11', 'Combinatorial mutations only rearrange the genes of the child',
  'Swap, inversion, movement and shift mutation leave in every child exactly the genes it had (each as often as before), so permutations stay permutations, whatever positions are drawn. They change nothing but the genotypes of the children.',
  ['inputs'], 'all genotypes and every random draw',
  NOASSERT + 'Inversion, movement and shift mutation are never run.',
  [G+'mutations/swap_mutation.py', G+'mutations/inversion_mutation.py', G+'mutations/movement_mutation.py', G+'mutations/shift_mutation.py', G+'mutations/base_combinatory_mutation.py'],
  [('get_mutation', G+'mutations/*_mutation.py')])
p('C12', 'Binary and categorical mutation stay inside each gene\'s own domain',
  'Bit mutation leaves genotypes of unchanged length over "0" and "1" in which each mutated position is flipped; categorical mutation replaces a gene only by a different value taken from the value list or integer range defined for that same position. Neither changes anything but the genotypes of the children.',
  ['inputs', 'configurations'], 'all genotypes, gene definitions (lists and ranges) and draws',
  NOASSERT, [G+'mutations/bin_string_mutation.py', G+'mutations/categorical_mutation.py'],
  [('get_mutation', G+'mutations/bin_string_mutation.py, categorical_mutation.py')])
p('C13', 'Mutation levels mean what is documented and bad levels are rejected',
  'Every mutation operator accepts the levels "weak", "normal" and "strong", whose mutation probabilities increase in that order, and any float from 0 to 1: level 0.0 never mutates anything, level 1.0 always mutates, and in between the chance does not decrease with the level. Any other string, any number outside 0..1 and any other type is rejected when the operator is created.',
  ['inputs', 'configurations'], 'all levels, all draws, all six mutation operators',
  NOASSERT + 'Only three float levels are used.',
  [G+'mutations/base_mutation.py', G+'mutations/base_combinatory_mutation.py', G+'mutations/bin_string_mutation.py', G+'mutations/categorical_mutation.py'],
  [('check_mutation, update_mutation_lvl, determines_mutation', G+'mutations/*.py')])
p('C14', 'The initial population is complete, in bounds and honours user individuals',
  'Filling a population yields exactly the configured number of individuals: first the user-supplied ones, in order and (for categorical and ordered populations) with exactly their genes, then random ones whose genes are drawn from their own definition - full-width bit strings, values from the gene\'s list or inclusive range, or distinct values of the inclusive range, every one of which can be drawn. All have unset fitness and objective value and are marked feasible; more user individuals than the configured size are rejected.',
  ['inputs', 'configurations'], 'all gene definitions, sizes and user populations',
  NOASSERT + 'Only full or absent input populations are tried and the result is not inspected.',
  [G+'populations/cat_population.py', G+'populations/order_cat_population.py', G+'populations/binary_population.py', G+'populations/base_population.py'],
  [('set_params / fill / get_generated_individ', G+'populations/*.py')])
p('C15', 'Binary and Gray codes decode inside the bounds and round-trip exactly',
  'For every gene definition (low, high, step) each bit string decodes to a point of an even grid from low to high inclusive whose spacing is not coarser than the requested step, and encoding a decoded point gives back the same bits, for plain and Gray coding (real arithmetic). With Gray coding neighbouring grid points differ in exactly one bit. User values outside the bounds are rejected.',
  ['inputs', 'configurations'], 'all gene definitions and bit strings',
  NOASSERT + 'Four gene definitions are used and no decoded value is compared with anything.',
  [G+'populations/binary_population.py', G+'populations/binary_gray_population.py'],
  [('grid layout', G+'populations/binary_population.py get_gens_params, get_real_number_of_points'), ('encode/decode', G+'populations/binary_population.py, binary_gray_population.py')])
p('C16', 'A population keeps its coding and settings across generations',
  'For every population type, the parents and children containers made from a population are empty and of the same type, and after a replacement step the new population still has the type, gene definitions, configured size and bit layout of the one it replaced, and is not regarded as sorted; so genotypes are always decoded by the code that produced them.',
  ['histories', 'configurations'], 'all population types, any number of generations',
  NOASSERT + 'Decoding Gray bits with the plain code crashes nothing.',
  [G+'populations/base_population.py', G+'populations/binary_gray_population.py', G+'new_generation.py', G+'multi_new_generation.py'],
  [('get_empty_copy', G+'populations/*.py'), ('shared attribute dictionary', G+'new_generation.py execute')])
p('C17', 'Each individual is scored exactly once, on its own decoded genes',
  'In single-objective evaluation every individual without a fitness gets one objective evaluation on its own decoded genes (the genes themselves for populations without decoding), and its objective value and fitness derive from exactly that evaluation; individuals that already have a fitness are neither evaluated again nor changed. Afterwards genes and decoded values are in their proper places for all individuals.',
  ['inputs', 'histories'], 'all mixtures of new and surviving individuals, all population types',
  NOASSERT, [G+'fitness/base_fitness.py', G+'populations/binary_population.py'],
  [('score is None guard, swap/get_phenotype', G+'fitness/base_fitness.py execute')])
p('C18', 'The objective function is called as documented and its answer is checked',
  'The user\'s objective function is called with (input_data, genes) whenever input data was supplied - also when it is falsy, such as 0 or an empty list - and with (genes) alone when it was not, in single- and multi-objective runs alike. In single-objective runs a conditional task whose function returns a number of values different from the number of conditions is rejected, and so is an unconditional task whose function returns several values.',
  ['inputs', 'configurations'], 'all input_data values and all return shapes',
  NOASSERT + 'input_data is never used by a test.',
  [G+'fitness/base_fitness.py', G+'fitness/multi_fitness.py', 'baumeva/vega.py'],
  [('calc_obj_func / check_input', G+'fitness/base_fitness.py')])
p('C19', 'The feasibility flag says exactly whether all conditions hold',
  'After a conditional evaluation an individual is marked feasible exactly when every "<=" value is at most 0 and every "!=" value equals 0, judged on its own values matched to the conditions in the declared order with the optimized value(s) taken out wherever they stand. Without conditions every individual stays feasible.',
  ['inputs', 'configurations'], 'all condition lists (any position of "optimize") and all values',
  NOASSERT, [G+'fitness/base_fitness.py', G+'fitness/multi_fitness.py'],
  [('condition loop', G+'fitness/base_fitness.py execute'), ('optimize index removal', G+'fitness/base_fitness.py set_opt_value, set_obj_score')])
p('C20', 'Penalties are non-negative, zero when satisfied and never carry over',
  'Every penalty method returns a value that depends only on the current individual\'s condition values (and the generation / best individual where documented), is never negative, is 0 when all conditions hold, and counts the amount of every violated condition: positive values for "<=", non-zero values of either sign for "!=". The static method weighs each violation with the coefficient of the interval [low, high) that contains its amount and rejects an amount outside every interval; the dynamic method penalises the same violation harder in a later generation; the adaptive method, after the first generation, penalises it less while the best individual is feasible than while it is not. A different number of values and conditions, or an unknown condition sign, is rejected.',
  ['inputs', 'histories'], 'all condition lists and values, all earlier calls of the same penalty object',
  NOASSERT + 'StaticPenalty and AdaptivePenalty are never run.',
  [G+'penalties/base_penalty.py', G+'penalties/dynamic_penalty.py', G+'penalties/adaptive_penalty.py', G+'penalties/static_penalty.py'],
  [('sum of violations reset per call', G+'penalties/base_penalty.py execute'), ('sign handling', G+'penalties/*.py get_sum_conditional_func')])
p('C21', 'Fitness ranks better and less penalised solutions higher',
  'With a target value, hyperbola fitness (per objective in VEGA) is 1 at the target without penalty, stays positive, and strictly falls with the distance of the objective value from the target and with the penalty; without a target it strictly falls with the objective value and with the penalty. The penalty computed for an individual always enters its fitness.',
  ['inputs', 'configurations'], 'all objective values, targets and penalties',
  NOASSERT + 'An inverted or penalty-free score only degrades results.',
  [G+'fitness/hyperbola_fitness.py', G+'fitness/vega_hyperbola_fitness.py', G+'fitness/base_fitness.py'],
  [('get_fitness_score', G+'fitness/hyperbola_fitness.py, vega_hyperbola_fitness.py')])
p('C22', 'Multi-objective scores keep objectives and targets aligned',
  'In multi-objective evaluation the stored objective values are the values returned for the objectives, all of them, in the order the objective function returns them, also when conditions stand before or between them. In VEGA the i-th fitness compares the i-th objective with the i-th target.',
  ['inputs', 'configurations'], 'all numbers and positions of objectives and conditions',
  NOASSERT + 'The collector test uses equal targets, which hides permutations.',
  [G+'fitness/multi_fitness.py', G+'fitness/vega_hyperbola_fitness.py'],
  [('set_opt_value / set_obj_score', G+'fitness/multi_fitness.py')])
p('C23', 'Pareto ranks count dominators and the recorded front is exactly rank 1',
  'In multi-objective evaluation an individual\'s rank is one plus the number of individuals of the current population that dominate it (not worse in every returned value, smaller being better, and better in at least one); equal value vectors never dominate each other. FFGA fitness is always 1/(1+current rank), and the recorded Pareto set holds exactly the rank-1 individuals, as copies that later generations cannot alter.',
  ['inputs', 'histories'], 'all populations and value vectors',
  NOASSERT + 'FFGA is never run.',
  [G+'fitness/multi_fitness.py', G+'fitness/ffga_fitness.py', G+'multi_ga_data.py'],
  [('inferior / assign_ranks', G+'fitness/multi_fitness.py'), ('rank-1 prefix of rank-sorted population', G+'multi_ga_data.py update')])
p('C24', 'VEGA gives every objective its own equal share of the parents',
  'Every VEGA selection (tournament, balanced, ranked) selects int(children_percent * configured size / number of objectives) pairs for each objective, in one selection step, judging the share of each objective by that objective\'s own fitness only; the shares of all objectives are kept.',
  ['inputs', 'configurations'], 'any number of objectives and any scores',
  NOASSERT + 'Dropping the shares of all but one objective crashes nothing.',
  [G+'selections/vega_tournament_selection.py', G+'selections/vega_balanced_selection.py', G+'selections/vega_ranked_selection.py'],
  [('loop over objectives', G+'selections/vega_*.py')])
p('C25', 'Every setting of a ready-made algorithm takes effect unchanged',
  'Each parameter given to a ready-made algorithm (BinaryGA, CombinatoryGA, CategoricalGA, VEGA, FFGA) reaches, unchanged, the component documented to use it: sizes, genes and user population the population, Gray option the coding, percentages, generations and early stop (None meaning the number of generations) the run data, objective, target, input data, penalty and conditions the fitness, tournament size the tournament selection (not in FFGA, which has none), mutation level and transfer strategy their operators; a parameter left out takes its documented default. The collector passes on the settings given when the population is set in the same way.',
  ['configurations'], 'all parameter combinations of the five ready-made algorithms and the collector',
  NOASSERT + 'A swallowed parameter falls back to a default and crashes nothing.',
  ['baumeva/binary_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/categorical_ga.py', 'baumeva/vega.py', 'baumeva/ffga.py', 'baumeva/collector_ga.py'],
  [('constructor to component wiring', '__init__ and optimize() of the drivers')])
p('C26', 'With a seed set, a run is fully reproducible and is seeded once',
  'With a seed set beforehand, creating a population seeds the generator with it before any random draw, and every random decision of the library comes from that one generator; no result depends on another source of variation (other generators, time, process ids, object ids, hash order of sets). No stage of the evolution loop seeds the generator again, so generations do not replay the same random sequence.',
  ['histories', 'configurations'], 'every run of every algorithm with any seed',
  NOASSERT + 'Two scripts set a seed but nothing compares two runs.',
  ['baumeva/global_generator.py', G+'populations/base_population.py'],
  [('seed on construction', G+'populations/base_population.py BasePopulation.__init__'), ('only random-module draws', 'all modules')])
p('C27', 'The caller\'s own data is never modified',
  'No list, dictionary or tuple element handed in by the user - conditions, user population and its individuals, gene definitions and value lists, target values, input data, penalty tables, answers of the objective function - is modified by creating or running any component or algorithm.',
  ['inputs', 'histories'], 'all arguments of all public components',
  NOASSERT + 'Arguments are not looked at after a run.',
  [G+'fitness/base_fitness.py', G+'fitness/multi_fitness.py', G+'populations/*.py', 'baumeva/*.py'],
  [('copies of caller data', G+'fitness/base_fitness.py __init__, populations fill')])
p('C28', 'Runs are independent of each other and an algorithm can be run again',
  'No component, run-data object or population shares mutable state with another instance, so one run cannot influence another run in the same process except through the random generator. A ready-made algorithm object is not changed by running it: each run starts from fresh run data, population and operators built from the same settings.',
  ['histories'], 'every sequence of runs and instances in one process',
  NOASSERT + 'No test runs one object twice.',
  [G+'ga_data.py', G+'fitness/base_fitness.py', 'baumeva/*.py'],
  [('per-instance history lists', G+'ga_data.py __init__'), ('components built inside optimize()', 'drivers')])
p('C29', 'The history gets one correct entry per generation',
  'Recording a generation appends, in single-objective runs, exactly one entry to each of the histories of best, median and worst fitness - the highest fitness, the fitness at position len//2 in ascending order, and the lowest fitness of that generation - and advances the generation index by exactly one; earlier entries are never changed. The average score is the mean fitness of the current population.',
  ['histories', 'inputs'], 'every population and every number of generations',
  NOASSERT, [G+'ga_data.py', G+'multi_ga_data.py'], [('update / get_avg_score', G+'ga_data.py, multi_ga_data.py')])
p('C30', 'Proportional and ranked selection weigh individuals as documented',
  'Balanced selection weighs each individual of the current population by its own share of the total fitness (VEGA: of the total of the current objective); ranked selection weighs it by its rank, 1 for the least fit and growing by one per individual, where individuals of equal fitness share the mean of the ranks they span - for any fitness values, including negative ones.',
  ['inputs'], 'all score assignments, including ties and negative scores',
  NOASSERT + 'RankedSelection and VEGARankedSelection are never run.',
  [G+'selections/balanced_selection.py', G+'selections/ranked_selection.py', G+'selections/vega_balanced_selection.py', G+'selections/vega_ranked_selection.py'],
  [('cumulative shares', G+'selections/balanced_selection.py add_probabilities'), ('tie averaging', G+'selections/ranked_selection.py add_probabilities')])
p('C31', 'The search converges and random draws have the intended distribution',
  'Over enough generations the best solution approaches the optimum, and mutation, crossover and selection probabilities match the configured values.',
  ['histories'], 'all runs', 'Statistical statement over unboundedly many runs.',
  ['baumeva/'], [('the algorithms as a whole', 'baumeva/')])
p('C32', 'Selection and replacement loops terminate',
  'Selecting parents and building a generation always terminate, also when almost all individuals are identical or one individual holds all the fitness.',
  ['inputs'], 'all populations', 'Almost-sure termination of rejection loops depends on runtime score values.',
  [G+'selections/', G+'new_generation.py'], [('rejection loops', G+'selections/tournament_selection.py, balanced_selection.py')])
p('C33', 'Decoded points stay within the bounds in floating point',
  'Also in IEEE double arithmetic a decoded gene never exceeds its upper bound and a user value on the grid is stored without error.',
  ['inputs'], 'all gene definitions', 'Needs rounding-error analysis of runtime values.',
  [G+'populations/binary_population.py'], [('decode arithmetic', G+'populations/binary_population.py')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
