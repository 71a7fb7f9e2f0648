"""writes DESIGN.md: the hand-written parts and the table of planted bugs (tools/catches.json, from tools/catch.sh)"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(H + '/tools/catches.json')) if os.path.exists(H + '/tools/catches.json') else {}
rows = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], c.get(i, 'not run')))
t = '## Planted bugs and the checks that catch them\n\n| bug | property | what it breaks | caught by (rule) |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(H + '/DESIGN.md', 'w').write(open(H + '/tools/design_head.md').read() + open(H + '/tools/design_tail.md').read() + t)
