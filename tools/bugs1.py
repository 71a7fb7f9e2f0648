"""Planted bugs, first batch (written from the statements in properties.jsonl)."""
E = 'baumeva/ga/'
PRE = '''
import random
from baumeva import *
from baumeva.ga import *


def mk(pop, genotypes, scores, num=None, gens=None, **kw):
    p = pop()
    p.set_params(num_individ=num or len(genotypes), gens=gens or ((0, 9, 1),) * len(genotypes[0]))
    for i, (g, s) in enumerate(zip(genotypes, scores)):
        p.add_dict(genotype=list(g), score=s, obj_score=None if s is None or isinstance(s, list) else -s, idx_individ=i)
    return p


def data(p, cls=GaData, **kw):
    d = cls(num_generations=5, **kw)
    d.population = p
    d.parents = p.get_empty_copy()
    d.children = p.get_empty_copy()
    return d
'''
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[(e[0] if e[0].startswith('baumeva') else E + e[0], e[1], e[2]) for e in edits],
                     demo=PRE + demo))


bug('c01-dup-resample', 'C01', 'duplicate genotypes among the best individuals',
    'when the elites contain duplicates all of them are redrawn at random, so the best individual can be lost',
    [('new_generation.py', "elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))",
      "elites = sample(ga_data.population, num_elites + 1)")], '''
for s in range(200):
    random.seed(s)
    p = mk(CatPopulation, [[i] for i in range(18)] + [[50], [50]], list(range(18)) + [50, 50])
    d = data(p)
    for i in range(15):
        d.children.append({'genotype': [100 + i], 'score': None})
    NewGeneration('best').execute(d)
    assert any(i['score'] == 50 for i in d.population), s
''')

bug('c01-random-tail', 'C01', 'transfer strategy "random" with the unlucky draw',
    'with random transfer the best individual is only kept when it happens to be drawn',
    [('new_generation.py', "            elites.append(ga_data.population[-1])\n",
      "            elites.append(sample(ga_data.population[-2:], 1)[0])\n")], '''
for s in range(100):
    random.seed(s)
    p = mk(CatPopulation, [[i] for i in range(20)], list(range(20)))
    d = data(p)
    for i in range(15):
        d.children.append({'genotype': [100 + i], 'score': None})
    NewGeneration('random').execute(d)
    assert any(i['score'] == 19 for i in d.population), s
''')

bug('c02-shallow-best', 'C02', 'a later change of the genotype list of the member the snapshot was taken from',
    'an improved best solution is a shallow copy that shares its lists with the population',
    [('ga_data.py', """        elif self.best_solution['score'] < self.population[-1]['score']:
            self.best_solution = deepcopy(self.population[-1])
""", """        elif self.best_solution['score'] < self.population[-1]['score']:
            self.best_solution = dict(self.population[-1])
""")], '''
p = mk(CatPopulation, [[1], [2]], [1, 2])
d = data(p)
d.update()
p.append({'genotype': [3, 4], 'score': 5, 'obj_score': -5, 'feasible': True})
p.is_sorted = False
d.update()
p[-1]['genotype'][0] = 77
assert d.best_solution['genotype'] == [3, 4]
''')

bug('c03-vega-stop', 'C03', 'a run of VEGA that stagnates for exactly early_stop generations',
    'VEGA stops one generation too early',
    [('baumeva/vega.py', "ga_data.num_generation_no_improve > ga_data.early_stop", "ga_data.num_generation_no_improve >= ga_data.early_stop")], '''
n = []
class D(MultiGaData):
    pass
import baumeva.vega as v
orig = MultiGaData.update
def upd(self):
    orig(self)
    self.num_generation_no_improve = max(0, self.idx_generation - 2)
    n.append(self.num_generation_no_improve)
MultiGaData.update = upd
g = VEGA(num_generations=30, num_individ=10, gens=((0, 7, 1),), obj_function=lambda x: (x[0], -x[0]), early_stop=3, is_print=False)
g.optimize()
assert n[-1] == 4, n
''')

bug('c03-early-zero', 'C25', 'early_stop=0',
    'early_stop=0 is replaced by the number of generations in CategoricalGA',
    [('baumeva/categorical_ga.py', "early_stop if early_stop is not None else num_generations", "early_stop or num_generations")], '''
random.seed(1)
g = CategoricalGA(num_generations=40, num_individ=10, gens=((0, 3, 1), (0, 3, 1)), obj_function=lambda x: 0, early_stop=0, is_print=False)
d = g.optimize()
assert d.idx_generation <= 3 and d.early_stop == 0, d.idx_generation
''')

bug('c04-unrecorded', 'C04', 'a run that is ended by early stop',
    'CombinatoryGA checks for early stop before recording, so an evaluated generation can go unrecorded',
    [('baumeva/combinatory_ga.py', """            ga_data.update()

            if ga_data.num_generation_no_improve > ga_data.early_stop:
                break
""", """
            if ga_data.num_generation_no_improve > ga_data.early_stop:
                break
            ga_data.update()
""")], '''
random.seed(3)
n = [0, 0]
oe, ou = HyperbolaFitness.execute, GaData.update
def e(self, ga_data):
    n[0] += 1
    oe(self, ga_data)
def u(self):
    n[1] += 1
    ou(self)
HyperbolaFitness.execute, GaData.update = e, u
g = CombinatoryGA(num_generations=60, num_individ=20, gens=(0, 5, 5), obj_function=lambda x: 0, early_stop=2, is_print=False)
g.optimize()
assert n[0] == n[1], n
''')

bug('c05-dup-size', 'C05', 'duplicate genotypes among the elites',
    'refilling the elites after removing a duplicate leaves the generation one too small',
    [('new_generation.py', "sample(ga_data.population, num_elites + 1 - len(elites))", "sample(ga_data.population, num_elites - len(elites))")], '''
random.seed(0)
p = mk(CatPopulation, [[i] for i in range(18)] + [[50], [50]], list(range(18)) + [50, 50])
d = data(p)
for i in range(15):
    d.children.append({'genotype': [100 + i], 'score': None})
NewGeneration('best').execute(d)
assert len(d.population) == 21, len(d.population)
''')

bug('c06-inherit-feasible', 'C06', 'an infeasible first individual of the population',
    'children inherit the feasibility mark of the first individual of the population',
    [('populations/base_population.py', 'emt_ind["feasible"] = True', 'emt_ind["feasible"] = self[0].get("feasible", True)')], '''
random.seed(0)
p = mk(CatPopulation, [[1, 2, 3], [4, 5, 6], [7, 8, 9]], [1, 2, 3])
p[0]['feasible'] = False
d = data(p)
d.parents.extend(dict(i) for i in p[1:3])
OnePointCrossover().execute(d)
assert d.children[0]['feasible'] is True
''')

bug('c07-shallow-parents', 'C07', 'a later change of a parent genotype in place',
    'parents chosen by balanced selection share their genotype list with the population',
    [('selections/balanced_selection.py', "ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)",
      "ga_data.parents.extend(dict(ga_data.population[idx]) for idx in idxs)")], '''
random.seed(0)
p = mk(CatPopulation, [[1, 2], [3, 4], [5, 6], [7, 8]], [1.0, 2.0, 3.0, 4.0])
d = data(p)
BalancedSelection().execute(d)
assert d.parents
for q in d.parents:
    assert all(q['genotype'] is not i['genotype'] for i in d.population)
''')

bug('c08-vega-best', 'C08', 'VEGA tournament for the second objective',
    'the challenger is compared in its objective with the first objective of the current best',
    [('selections/vega_tournament_selection.py', "['score'][self.idx] > best['score'][self.idx]", "['score'][self.idx] > best['score'][0]")], '''
p = mk(CatPopulation, [[1], [2], [3]], [[9, 1], [0, 5], [0, 3]])
d = data(p, MultiGaData)
s = VEGATournamentSelection(num_objectives=2, tournament_size=2)
s.idx = 1
assert s.get_best([0, 1, 2], d)['genotype'] == [2]
''')

bug('c08-last-excluded', 'C08', 'a population larger than the configured size, as after every replacement',
    'participants are drawn from the configured number of individuals only, so the last (fittest) one never takes part',
    [('selections/tournament_selection.py', "idx_total = list(range(len(ga_data.population)))", "idx_total = list(range(ga_data.population.num_individ))")], '''
p = mk(CatPopulation, [[1], [2], [3], [4], [5]], [1, 2, 3, 4, 5], num=4)
seen = set()
for s in range(300):
    random.seed(s)
    d = data(p)
    TournamentSelection(tournament_size=2).execute(d)
    seen |= {i['genotype'][0] for i in d.parents}
assert 5 in seen
''')

bug('c09-cut-end', 'C09', 'the cut point drawn at the end of the genotype',
    'one-point crossover can place the cut behind the last gene and clone a parent',
    [('crossovers/one_point_crossover.py', "randint(1, self.len_individ - 1)", "randint(1, self.len_individ)")], '''
for s in range(200):
    random.seed(s)
    p = mk(CatPopulation, [[1, 2, 3], [4, 5, 6]], [1, 2])
    d = data(p)
    d.parents.extend(dict(i) for i in p)
    OnePointCrossover().execute(d)
    assert d.children[0]['genotype'] not in ([1, 2, 3], [4, 5, 6])
''')

bug('c10-subset', 'C10', 'parents that use different subsets of the values, and the second child',
    'the second child takes all remaining genes, so it is too long when the parents use different values',
    [('crossovers/order_crossover.py', "child_2['genotype'] = new_gens[right_side:right_side + left_side] + segment + new_gens[:right_side]",
      "child_2['genotype'] = new_gens[right_side:] + segment + new_gens[:right_side]")], '''
for s in range(200):
    random.seed(s)
    p = mk(OrderCatPopulation, [[1, 2, 3, 4], [5, 6, 7, 8]], [1, 2])
    d = data(p)
    d.parents.extend(dict(i) for i in p)
    OrderCrossover().execute(d)
    assert len(d.children[0]['genotype']) == 4
''')

bug('c11-inversion-front', 'C11', 'an inverted segment that begins at the first gene',
    'inverting a segment that starts at position 0 loses its genes',
    [('mutations/inversion_mutation.py', """        segment = child['genotype'][idx_segment[0]:idx_segment[1]+1]
        segment.reverse()
""", """        segment = child['genotype'][idx_segment[1]:idx_segment[0]-1:-1]
""")], '''
for s in range(200):
    random.seed(s)
    c = {'genotype': [1, 2, 3, 4, 5]}
    InversionMutation(1.0).get_mutation(c)
    assert sorted(c['genotype']) == [1, 2, 3, 4, 5], c
''')

bug('c12-step', 'C12', 'a gene defined by a range with step above 1',
    'categorical mutation ignores the step of a range gene',
    [('mutations/categorical_mutation.py', "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1, gen_pool[i_gen][2]) if x != child['genotype'][i_gen]])",
      "choice([x for x in range(gen_pool[i_gen][0], gen_pool[i_gen][1]+1) if x != child['genotype'][i_gen]])")], '''
for s in range(200):
    random.seed(s)
    c = {'genotype': [4, 'a']}
    CategoricalMutation(1.0).get_mutation(c, ((0, 9, 2), ['a', 'b']))
    assert c['genotype'][0] in range(0, 10, 2)
''')

bug('c13-negative', 'C13', 'a negative float level', 'categorical mutation accepts negative mutation levels',
    [('mutations/categorical_mutation.py', "if self.mutation_lvl < 0 or self.mutation_lvl > 1:", "if abs(self.mutation_lvl) > 1:")], '''
try:
    CategoricalMutation(-0.5)
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

bug('c14-upper', 'C14', 'an ordered population; the upper value of the range',
    'the upper end of the range of an ordered population is never used, and a full permutation cannot be built',
    [('populations/order_cat_population.py', "sample(range(self.gens[0], self.gens[1]+1), self.gens[2])",
      "sample(range(self.gens[0], max(self.gens[1], self.gens[0] + self.gens[2])), self.gens[2])")], '''
random.seed(0)
seen = set()
for _ in range(300):
    p = OrderCatPopulation()
    p.set_params(num_individ=2, gens=(0, 5, 3))
    p.fill()
    random.seed(_)
    seen |= {x for i in p for x in i['genotype']}
assert seen == set(range(6)), seen
''')

bug('c15-tolerance', 'C15', 'a user value slightly above the upper bound',
    'user values above the upper bound by less than a step are accepted',
    [('populations/binary_population.py', "gen_value > self.gens[gen_idx][1]:", "gen_value > self.gens[gen_idx][1] + self.gens[gen_idx][2]:")], '''
p = BinaryPopulation()
p.set_params(num_individ=2, gens=((0, 7, 1),), input_population=[[7.25]])
try:
    p.fill()
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

bug('c15-gray-odd', 'C15', 'Gray coding with 3 or more bits',
    'decoding a Gray value folds in only one shifted copy',
    [('populations/binary_gray_population.py', """        while gray_value > 0:
            real_value = real_value ^ gray_value
            gray_value = gray_value >> 1
""", """        while gray_value > 0:
            real_value = real_value ^ gray_value
            gray_value = gray_value >> 2 if gray_value > 7 else gray_value >> 1
""")], '''
for v in range(64):
    assert BinaryGrayPopulation.get_index_from_gray(BinaryGrayPopulation.get_gray_value(v)) == v
''')

bug('c16-stays-sorted', 'C16', 'at least as many children as the configured size',
    'a population replaced entirely by children is still regarded as sorted',
    [('new_generation.py', """            self.add_parents(ga_data, num_elites=num_elites)
        else:
            ga_data.children.append(ga_data.population[-1])

        ga_data.population = ga_data.children
        ga_data.population.is_sorted = False
""", """            self.add_parents(ga_data, num_elites=num_elites)
            ga_data.population.is_sorted = False
        else:
            ga_data.children.append(ga_data.population[-1])

        ga_data.population = ga_data.children
""")], '''
p = mk(CatPopulation, [[1], [2], [3]], [1, 3, 2])
d = data(p)
for i in range(3):
    d.children.append({'genotype': [100 + i], 'score': None})
NewGeneration().execute(d)
assert not d.population.is_sorted
''')

bug('c17-zero-again', 'C17', 'an individual whose fitness is exactly 0',
    'individuals with fitness 0 are evaluated again in every generation',
    [('fitness/base_fitness.py', "if individ['score'] is None:", "if not individ['score']:")], '''
n = []
p = mk(CatPopulation, [[1], [2]], [None, None])
d = data(p)
f = HyperbolaFitness(lambda x: n.append(1) or 0)
f.execute(d)
f.execute(d)
assert len(n) == 2, n
''')

bug('c18-first-value', 'C18', 'an unconditional task whose function returns several values',
    'surplus values are silently dropped instead of being rejected',
    [('fitness/base_fitness.py', """                if len(values) > 1:
                    raise Exception(f'Number of returned values from objective function for non-conditional'
                                    f' optimization must be equal 1')
""", """                if len(values) > 1 and self.penalty is not None:
                    raise Exception(f'Number of returned values from objective function for non-conditional'
                                    f' optimization must be equal 1')
                return values[0]
""")], '''
p = mk(CatPopulation, [[1]], [None])
d = data(p)
f = HyperbolaFitness(lambda x: (1, 2))
try:
    f.execute(d)
except Exception:
    pass
else:
    raise SystemExit('accepted')
''')

bug('c19-last-wins', 'C19', 'two or more conditions of which a later one holds and an earlier one is violated',
    'the feasibility mark reflects only the last condition',
    [('fitness/base_fitness.py', """                            if v > 0:
                                individ['feasible'] = False
                        else:
                            if v != 0:
                                individ['feasible'] = False
""", """                            individ['feasible'] = v <= 0
                        else:
                            individ['feasible'] = v == 0
""")], '''
p = mk(CatPopulation, [[1]], [None])
d = data(p)
HyperbolaFitness(lambda x: (1, 5, -1), penalty=DynamicPenalty(), conditions=['optimize', '<=', '<=']).execute(d)
assert p[0]['feasible'] is False
''')

bug('c20-slack', 'C20', 'a satisfied inequality with slack under AdaptivePenalty',
    'the slack of satisfied inequalities is penalised (even power hides the sign)',
    [('penalties/adaptive_penalty.py', "res = max(0, values[i])", "res = values[i]")], '''
a = AdaptivePenalty()
assert a.execute(['<='], [-3], {'feasible': True}, iter_generation=1) == 0
''')

bug('c21-target-zero', 'C21', 'the target value 0', 'a target of 0 is treated as no target',
    [('fitness/hyperbola_fitness.py', "if self.obj_value is not None:", "if self.obj_value:")], '''
f = HyperbolaFitness(lambda x: x[0], obj_value=0)
assert f.get_fitness_score({'obj_score': 0}) == 1
assert f.get_fitness_score({'obj_score': -5}) < 1
''')

bug('c22-target', 'C22', 'VEGA with different target values',
    'every objective is compared with the first target',
    [('fitness/vega_hyperbola_fitness.py', "abs(self.obj_value[i] - individ['obj_score'][i])", "abs(self.obj_value[0] - individ['obj_score'][i])")], '''
f = VEGAHyperbolaFitness(lambda x: (1, 2), obj_value=[1, 2])
assert f.get_fitness_score({'obj_score': [1, 2]}) == [1, 1]
''')

bug('c23-stale-rank', 'C23', 'an individual that survives into a second generation',
    'the rank of a surviving individual is not restarted before counting dominators',
    [('fitness/multi_fitness.py', """        for individ in ga_data.population:
            individ['rank'] = 1

        for i in range""", """        for individ in ga_data.population:
            if individ.get('rank') is None:
                individ['rank'] = 1

        for i in range""")], '''
p = mk(BinaryPopulation, [['0'], ['1']], [None, None], gens=((0, 1, 1),))
for i in p:
    i['phenotype'] = [int(i['genotype'][0])]
d = data(p, MultiGaData)
f = FFGAFitness(lambda x: (x[0], x[0]))
f.assign_ranks(d)
f.assign_ranks(d)
assert [i['rank'] for i in p] == [1, 2], [i['rank'] for i in p]
''')

bug('c24-share', 'C24', 'a population one larger than the configured size, as after every replacement',
    'the share of an objective is computed from the actual instead of the configured population size',
    [('selections/vega_tournament_selection.py', "int(ga_data.children_percent*ga_data.population.num_individ/self.num_objectives)",
      "int(ga_data.children_percent*len(ga_data.population)/self.num_objectives)")], '''
p = mk(CatPopulation, [[1], [2], [3], [4], [5]], [[1, 1]] * 5, num=4)
d = data(p, MultiGaData, children_percent=1.0)
s = VEGATournamentSelection(num_objectives=5, tournament_size=2)
assert s.get_total_num_parents(d) == 0
''')

bug('c25-ffga-percent', 'C25', 'a children percentage other than the default, in FFGA',
    'FFGA ignores children_percent',
    [('baumeva/ffga.py', "children_percent=self.children_percent,", "")], '''
g = FFGA(num_generations=2, num_individ=30, gens=((0, 7, 1),), obj_function=lambda x: (x[0], -x[0]), children_percent=0.5, is_print=False)
assert g.optimize().children_percent == 0.5
''')

bug('c26-set-order', 'C26', 'string genes and a different PYTHONHASHSEED',
    'uniform crossover picks from a set of the two genes, whose order depends on the hash seed',
    [('crossovers/uniform_crossover.py', """            coin = randint(1, 2)
            if coin == 1:
                new_gens.append(parent_1[i])
            else:
                new_gens.append(parent_2[i])
""", """            pair = list({parent_1[i], parent_2[i]})
            new_gens.append(pair[randint(1, 2) % len(pair)])
""")], '''
import os, subprocess, sys
code = """
import random
from baumeva.ga import *
random.seed(5)
c, e = UniformCrossover(), {}
c.len_individ = 12
print(c.crossover(list('abcdefghijkl'), list('mnopqrstuvwx'), {}, {})[0])
"""
out = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(6)}
assert len(out) == 1 and out != {''}, out
''')

bug('c27-answer', 'C27', 'a conditional objective function that returns a list it keeps',
    'the list returned by the objective function is used, and taken apart, directly',
    [('fitness/base_fitness.py', "            return list(values)\n        else:", "            return values if isinstance(values, list) else list(values)\n        else:")], '''
keep = [1, -1]
p = mk(CatPopulation, [[1]], [None])
d = data(p)
HyperbolaFitness(lambda x: keep, penalty=DynamicPenalty(), conditions=['optimize', '<=']).execute(d)
assert keep == [1, -1], keep
''')

bug('c28-shared-history', 'C28', 'two runs in one process',
    'the history of the worst fitness is one list shared by all runs',
    [('ga_data.py', "    historical_worst: list = None\n", "    historical_worst: list = []\n"),
     ('ga_data.py', "        self.historical_worst = []\n", "")], '''
a, b = GaData(3), GaData(3)
assert a.historical_worst is not b.historical_worst
''')

bug('c29-median', 'C29', 'an even number of individuals', 'the median entry is taken one position too low',
    [('ga_data.py', "self.population[int(len(self.population)/2)]['score']", "self.population[int((len(self.population)-1)/2)]['score']")], '''
p = mk(CatPopulation, [[1], [2], [3], [4]], [1, 2, 3, 4])
d = data(p)
d.update()
assert d.historical_mediocre == [3]
''')

bug('c30-top-ties', 'C30', 'equal fitness among the very best individuals',
    'the mean rank is not given to a group of ties at the top of the ranking',
    [('selections/ranked_selection.py', """                if rank == len(ga_data.population):
                    for _idx in range(rank - count, rank):
""", """                if rank == len(ga_data.population):
                    for _idx in range(rank - count, rank - 1):
""")], '''
p = mk(CatPopulation, [[1], [2], [3]], [1, 5, 5])
d = data(p)
RankedSelection().add_probabilities(d)
assert [i['rank'] for i in p] == [1, 2.5, 2.5]
''')
