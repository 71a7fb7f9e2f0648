"""runs every planted bug against the check of its property in a scratch clone; writes tools/catches.json"""
import glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(f):
    i = f.split('/')[-2]
    prop = json.load(open(f))['property']
    d = tempfile.mkdtemp(prefix='catch', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/r'], check=True)
        if subprocess.run(['git', '-C', d + '/r', 'apply', os.path.dirname(f) + '/patch.diff']).returncode:
            return i, 'does not apply'
        q = subprocess.run(['timeout', '900', 'python3', H + '/check.py', prop, '--tier', 'quick', '--repo', d + '/r'], capture_output=True, text=True, env={**os.environ, 'VERIF_EVIDENCE': d})
        if q.returncode != 1:
            return i, 'MISSED'
        v = json.load(open(d + '/%s.violation.json' % prop))['violations']
        return i, v[0]['rule']
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    r = dict(ex.map(one, sorted(glob.glob(H + '/seeded/*/meta.json'))))
json.dump(r, open(H + '/tools/catches.json', 'w'), indent=1, sort_keys=True)
print(len(r), [k for k, v in r.items() if v in ('MISSED', 'does not apply')])
