"""Planted bugs, third batch."""
import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugs1.py'))
PRE, E = _b['PRE'], _b['E']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=[(E + e[0], e[1], e[2]) for e in edits], demo=PRE + demo))


bug('c03-front-first', 'C03', 'a Pareto set of unchanged size whose first member stays while another one changes',
    'a change of the Pareto set behind its first member is not counted as an improvement',
    [('multi_ga_data.py', "if self.best_solution['pareto_set'] != pareto_set:",
      "if len(self.best_solution['pareto_set']) != len(pareto_set) or self.best_solution['pareto_set'][0] != pareto_set[0]:")], '''
p = mk(CatPopulation, [[1], [2]], [0.5, 0.5])
for i in p:
    i['rank'] = 1
d = data(p, MultiGaData)
d.update()
p[1]['genotype'], p.is_sorted = [7], False
d.update()
assert d.num_generation_no_improve == 0 and d.best_solution['pareto_set'][1]['genotype'] == [7]
''')

bug('c07-lonely-winner', 'C07', 'balanced selection while one individual holds more than 99 % of the fitness',
    'the pair may then consist of the same individual twice',
    [('selections/balanced_selection.py', "if len(idxs) == 0 or idx != idxs[-1]:",
      "if len(idxs) == 0 or idx != idxs[-1] or self.selection_scores[idx + 1] - self.selection_scores[idx] > 0.99:")], '''
for s in range(5):
    random.seed(s)
    p = mk(CatPopulation, [[1], [2], [3], [4]], [1, 1, 1, 1000])
    d = data(p, children_percent=1.0)
    BalancedSelection().execute(d)
    for i in range(0, len(d.parents), 2):
        assert d.parents[i]['genotype'] != d.parents[i + 1]['genotype']
''')

bug('c08-checked-once', 'C08', 'a tournament operator reused for a smaller population',
    'the tournament size is only checked the first time an operator is used',
    [('selections/tournament_selection.py', "        self.check_tournament_size(num_individ=ga_data.population.num_individ)",
      "        if not getattr(self, 'is_checked', False):\n            self.check_tournament_size(num_individ=ga_data.population.num_individ)\n            self.is_checked = True")], '''
t = TournamentSelection(3)
t.execute(data(mk(CatPopulation, [[i] for i in range(6)], list(range(6)))))
try:
    t.execute(data(mk(CatPopulation, [[i] for i in range(4)], list(range(4)), num=3)))
except Exception as e:
    assert 'tournament' in str(e)
else:
    raise SystemExit(1)
''')

bug('c01-front-cap', 'C01', 'FFGA-style replacement when the Pareto set has outgrown the configured size',
    'the new generation is cut at twice the configured size, losing non-dominated individuals',
    [('multi_new_generation.py', "        self.add_parents(ga_data, num_elites=10)",
      "        self.add_parents(ga_data, num_elites=10)\n        del ga_data.children[2 * ga_data.population.num_individ:]")], '''
p = mk(CatPopulation, [[i] for i in range(9)], [0.5] * 9, num=3)
for i in p:
    i['rank'] = 1
d = data(p, MultiGaData)
d.children.append({'genotype': [100], 'score': None})
MultiNewGeneration('best').execute(d)
assert {i['genotype'][0] for i in d.population} == set(range(9)) | {100}
''')
