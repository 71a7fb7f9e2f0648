"""Turn bug descriptions (a Python file with a list BUGS) into seeded/<id>/ after confirming
that the change applies, builds, passes the tests and that its demonstration tells it apart.
Usage: plant.py bugs.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
SEEDED = '/verif/seeded'


def sh(cmd, cwd, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def one(bug):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        r = os.path.join(tmp, 'repo')
        sh(f'git clone -q {REPO} {r}', '/')
        out = os.path.join(SEEDED, bug['id'])
        d = os.path.join(tmp, 'd')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python '
                    '"$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        a = sh(f'bash {d}/demo.sh', r, 280)
        if a.returncode:
            return bug['id'], 'demo fails on the unchanged tree: ' + a.stderr[-600:] + a.stdout[-200:]
        for path, old, new in bug['edits']:
            p = os.path.join(r, path)
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], f'{s.count(old)} matches in {path}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', r).stdout
        # only lines of the original repository may be changed
        import re
        f, n = None, 0
        for ln in diff.splitlines():
            if ln.startswith('--- a/'):
                f = ln[6:]
            elif ln.startswith('@@'):
                n = int(re.match(r'@@ -(\d+)', ln).group(1))
            elif ln.startswith('-') and not ln.startswith('---'):
                bl = sh(f'git blame -s -L{n},{n} HEAD -- {f}', r).stdout
                if not bl.startswith('^cc08d23') and not bl.startswith('^'):
                    return bug['id'], f'not an original line: {f}:{n} {ln}'
                n += 1
            elif ln.startswith(' '):
                n += 1
        b = sh(f'bash {d}/demo.sh', r, 280)
        if b.returncode == 0:
            return bug['id'], 'demo passes with the change'
        t = sh('for f in tests/*_test.py tests/multiple_objective/*_test.py; do PYTHONPATH=$PWD timeout 200 '
               '/opt/venv/bin/python $f >/dev/null 2>$f.err || { echo FAIL $f; tail -3 $f.err; }; done', r, 900)
        if 'FAIL' in t.stdout:
            return bug['id'], 'tests fail: ' + t.stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for n in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(d, n), out)
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return bug['id'], 'ok (demo: ' + (b.stderr.strip().splitlines() or ['?'])[-1][:120] + ')'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])['BUGS']
if sys.argv[2:]:
    bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for i, msg in ex.map(one, bugs):
        print(i, msg, flush=True)
