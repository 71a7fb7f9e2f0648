"""Planted bugs, second batch."""
import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
PRE, E = _b['PRE'], _b['E']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[(E + e[0], e[1], e[2]) for e in edits], demo=PRE + demo))


bug('c05-endless-redraw', 'C05', 'random transfer from a population whose individuals all have the same genotype',
    'the redraw of duplicate parents is no longer limited, so replacement never ends once the population has converged',
    [('new_generation.py', """                loop_counter += 1
                if loop_counter >= len(ga_data.children):
                    break
            elites.append(""", """                loop_counter += 1
            elites.append(""")], '''
import signal
signal.alarm(20)
p = mk(CatPopulation, [[1]] * 12, list(range(12)))
d = data(p)
for i in range(5):
    d.children.append({'genotype': [100 + i], 'score': None})
NewGeneration('random').execute(d)
assert len(d.population) == 13
''')

bug('c01-random-middle', 'C01', 'random transfer, many generations: the last but one individual is never drawn',
    'with random transfer the second best individual is excluded from the draw',
    [('new_generation.py', """            elites = sample(ga_data.population[:-1], num_elites)
            loop_counter = 0
""", """            elites = sample(ga_data.population[:-1] if num_elites >= len(ga_data.population) - 2 else ga_data.population[:-2], num_elites)
            loop_counter = 0
""")], '''
seen = set()
for s in range(400):
    random.seed(s)
    p = mk(CatPopulation, [[i] for i in range(8)], list(range(8)))
    d = data(p)
    for i in range(5):
        d.children.append({'genotype': [100 + i], 'score': None})
    NewGeneration('random').execute(d)
    seen |= {i['score'] for i in d.population}
assert 6 in seen
''')

bug('c20-dynamic-plateau', 'C20', 'more than 50 generations',
    'the dynamic penalty stops growing after generation 50',
    [('penalties/dynamic_penalty.py', "((self.c * iter_generation) ** self.alpha)", "((self.c * min(iter_generation, 50)) ** self.alpha)")], '''
p = DynamicPenalty()
assert p.execute(['<='], [2.0], 80) > p.execute(['<='], [2.0], 60) > p.execute(['<='], [2.0], 40) > 0
''')

bug('c20-adaptive-direction', 'C20', 'adaptive penalty after the first generation',
    'the adaptive penalty grows while the best individual is feasible instead of shrinking',
    [('penalties/adaptive_penalty.py', "lambda_ = (1 / self.betta_1) * lambda_", "lambda_ = self.betta_1 * self.betta_2 * lambda_")], '''
p = AdaptivePenalty()
assert p.execute(['<='], [2.0], {'feasible': True}, 5) < p.execute(['<='], [2.0], {'feasible': False}, 5)
''')

bug('c30-vega-second-ties', 'C30', 'two groups of equal fitness in one objective',
    'after one group of ties the counter starts at zero, so the next group does not share its mean rank',
    [('selections/vega_ranked_selection.py', """(sum(range(idx - count, idx)) + count) / count
                count = 1
""", """(sum(range(idx - count, idx)) + count) / count
                count = 0
""")], '''
p = mk(BinaryPopulation, [['0'], ['1'], ['0'], ['1']], [[1, 1], [1, 2], [2, 3], [2, 4]], gens=((0, 1, 1),))
d = data(p, MultiGaData)
s = VEGARankedSelection(num_objectives=2)
for i in p:
    i['rank'] = [0, 0]
s.idx = 0
s.add_probabilities(d)
assert [i['rank'][0] for i in p] == [1.5, 1.5, 3.5, 3.5], [i['rank'] for i in p]
''')

bug('c10-same-segment', 'C10', 'the second child of a pair is chosen',
    'the second child of order crossover is made from the first parent alone',
    [('crossovers/order_crossover.py', "        segment = parent_2[idx_segment[0]:idx_segment[1]]\n", "        segment = parent_1[idx_segment[0]:idx_segment[1]]\n")], '''
x = OrderCrossover()
x.len_individ = 6
for s in range(50):
    random.seed(s)
    a, b = x.crossover([0, 1, 2, 3, 4, 5], [10, 11, 12, 13, 14, 15], {}, {})
    for c in (a, b):
        assert any(g >= 10 for g in c['genotype']) and any(g < 10 for g in c['genotype']), c
''')

bug('c14-last-code', 'C14', 'a gene whose upper end must be drawn',
    'the highest bit string of a gene is never generated',
    [('populations/binary_population.py', "value=randint(0, self.real_num_points[i])", "value=randint(0, max(1, self.real_num_points[i] - 1))")], '''
seen = set()
for s in range(300):
    random.seed(s)
    p = BinaryPopulation()
    p.set_params(num_individ=2, gens=((0, 3, 1),))
    p.fill()
    seen |= {tuple(i['phenotype']) for i in p}
assert len(seen) == 4, seen
''')

bug('c05-front-twice', 'C05', 'a FFGA population with several individuals of rank 1',
    'FFGA replacement transfers the first individual of the front twice',
    [('multi_new_generation.py', """                elites.append(individ)
            else:
                break

        return elites""", """                elites.append(individ)
            else:
                break

        return elites[:1] + elites if len(elites) > 1 else elites""")], '''
p = mk(BinaryPopulation, [['0'], ['1'], ['1']], [[1, 2], [2, 1], [0, 0]], gens=((0, 1, 1),))
for i, r in zip(p, (1, 1, 3)):
    i['rank'] = r
p.get_gens_params()
d = data(p, MultiGaData)
d.children.append({'genotype': ['0'], 'phenotype': [0], 'score': None})
for i in p:
    i['phenotype'] = None
MultiNewGeneration('best').execute(d)
assert len(d.population) == 3, len(d.population)
''')
