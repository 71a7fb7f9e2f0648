"""Driver: runs the rules of one property over /repo's current source and writes its evidence.

    python3 /verif/check.py C09 [--tier quick|thorough] [--repo /repo]

exit 0: every decided obligation holds; exit 1: at least one violation (VIOLATION line);
exit 2: a public anchor of the property no longer exists (the property cannot be stated)."""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}          # property -> [(name, fn)]
MODULES = ['sa.rules.variation', 'sa.rules.pops', 'sa.rules.select', 'sa.rules.fit', 'sa.rules.multi', 'sa.rules.state', 'sa.rules.drivers', 'sa.rules.runs']


def rule(prop):
    def deco(f):
        RULES.setdefault(prop, []).append((f.__name__, f))
        return f
    return deco


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.rules = {}
        self.violations = []
        self.undecided = {}
        self.engine_errors = []
        self.assumptions = []
        self.scenarios = 0
        self._cur = ''
        self._seen = set()
        self.entered, self.skipped = set(), set()
        self.arm = None

    @property
    def cur(self):
        return self._cur

    @cur.setter
    def cur(self, label):
        """a new scenario begins"""
        self._cur = label
        self.entered.add(label)
        skip = label in self.skipped
        from . import scn
        scn.SKIP[0] = skip
        if skip:
            self.scenarios -= 1
        elif self.arm is not None:
            self.I.steps_from()
            self.arm()

    def reset(self):
        self._cur = ''
        self.entered = set()

    def _cnt(self, r):
        return self.rules.setdefault(r, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})

    def ob(self, r, st, ok, where, detail='', scenario=''):
        c = self._cnt(r)
        c['obligations'] += 1
        if ok is True:
            c['discharged'] += 1
            return True
        if ok is None or (st is not None and st.imprecise):
            c['undecided'] += 1
            why = '; '.join(st.imprecise) if st is not None and st.imprecise else 'not decidable in the domain'
            k = '%s @ %s: %s' % (r, fmt(where), why)
            self.undecided[k] = self.undecided.get(k, 0) + 1
            return None
        c['violated'] += 1
        key = (r, tuple(where) if where else None)
        if key not in self._seen or len([v for v in self.violations if v['rule'] == r]) < 3:
            self._seen.add(key)
            if callable(detail):
                detail = detail()
            self.violations.append({'rule': r, 'file': where[0] if where else None, 'line': where[1] if where else None,
                                    'function': where[2] if where else None, 'detail': detail, 'scenario': scenario or self.cur})
        return False

    def fail(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1


def fmt(where):
    return '%s:%s in %s' % tuple(where) if where else '?'


class TimeUp(BaseException):
    """the wall clock budget of a scenario or a rule is used up"""


# seconds of wall clock: one scenario, one rule, one rule that has already found a violation
BUDGET = {'quick': (60, 420, 60), 'thorough': (600, 3000, 600)}


def run_rule(job):
    """one rule in its own process. A scenario that the analyser cannot finish (budget, unsupported construct) is
    undecided; the rule is entered again with that scenario and the finished ones skipped."""
    idx, prop, tier, repo, verbose = job
    from .interp import Interp, Limit
    from . import scn
    name, fn = RULES[prop][idx]
    rep = Report(prop, tier)
    rep.tag = idx
    missing = []
    stats = {'functions': set(), 'call_sites': set(), 'loops_exact': 0, 'loops_cut': 0, 'cut_sites': set(), 'steps': 0, 'modules': 0, 'unmodelled': set()}
    t0 = time.time()
    scn_s, rule_s, viol_s = BUDGET['thorough' if tier == 'thorough' else 'quick']

    def alarm(*_):
        raise TimeUp()
    signal.signal(signal.SIGALRM, alarm)

    def left():
        return t0 + (viol_s if rep.violations else rule_s) - time.time()

    def arm():
        signal.setitimer(signal.ITIMER_REAL, max(0.05, min(scn_s, left())))
    rep.arm = arm
    while True:
        I = None
        again = True
        scn.SKIP[0] = False
        try:
            arm()
            I = Interp(repo)
            I.load('baumeva')
            if tier == 'thorough':
                I.max_steps *= 20
            rep.I = I
            fn(I, rep, tier)
            again = False
        except scn.Missing as e:
            missing.append(str(e))
            again = False
        except TimeUp:
            rep.fail('%s: time budget exhausted in scenario: %s' % (name, rep.cur or '(set-up)'))
        except scn.SetUp as e:
            rep.ob(prop + '/completes', e.st, False, e.exc.site, '%s raises %s %s on legal input' % (e.what, e.exc.name, e.exc.args or ''))
        except (scn.Undecided, Limit) as e:
            rep.fail('%s: %s' % (name, e))
        except RecursionError:
            rep.fail('%s: recursion limit of the analyser' % name)
        except (SyntaxError, FileNotFoundError) as e:
            missing.append('%s: %s' % (name, e))
            again = False
        except Exception as e:       # analyser defect: reported in the evidence, never turned into an alarm
            if not scn.SKIP[0]:
                rep.engine_errors.append('%s: %s: %s' % (name, type(e).__name__, e))
                rep.fail('%s: analyser error %s: %s' % (name, type(e).__name__, e))
            else:
                again = False
            if verbose:
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if I is not None:
            stats['functions'] |= I.analysed_fns
            stats['call_sites'] |= I.call_sites
            stats['loops_exact'] += I.loops_unrolled
            stats['loops_cut'] += I.loops_cut
            stats['cut_sites'] |= I.cut_sites
            stats['steps'] += I.steps
            stats['modules'] = max(stats['modules'], len(I.modules))
            stats['unmodelled'] |= I.unmodelled
        if not again or not rep.cur or rep.cur in rep.skipped:
            break
        if left() < 1:
            rep.fail('%s: time budget of the rule exhausted after scenario: %s' % (name, rep.cur))
            break
        rep.skipped |= rep.entered
        rep.reset()
    if verbose:
        print('%-40s %.1fs' % (name, time.time() - t0), {k: v for k, v in rep.rules.items()})
    return {'rules': rep.rules, 'violations': [{k: (v if isinstance(v, (int, str, type(None))) else str(v)) for k, v in x.items()} for x in rep.violations],
            'undecided': rep.undecided, 'engine_errors': rep.engine_errors, 'scenarios': rep.scenarios, 'assumptions': rep.assumptions,
            'missing': missing, 'stats': stats}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--rule')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
    t0 = time.time()
    todo = [x for x in RULES.get(a.prop, []) if not a.rule or a.rule == x[0]]
    if not todo:
        print('no rules for', a.prop)
        return 2
    jobs = [(i, a.prop, a.tier, a.repo, a.v) for i in range(len(RULES[a.prop])) if RULES[a.prop][i] in todo]
    nproc = min(len(jobs), 4, os.cpu_count() or 1)
    if nproc > 1:
        import multiprocessing
        with multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
            parts = pool.map(run_rule, jobs, chunksize=1)
    else:
        parts = [run_rule(j) for j in jobs]
    rep = Report(a.prop, a.tier)
    stats = {'functions': set(), 'call_sites': set(), 'loops_exact': 0, 'loops_cut': 0, 'cut_sites': set(), 'steps': 0, 'modules': 0, 'unmodelled': set()}
    missing = []
    for p in parts:
        for k, c in p['rules'].items():
            d = rep._cnt(k)
            for x in c:
                d[x] += c[x]
        rep.violations += p['violations']
        for k, n in p['undecided'].items():
            rep.undecided[k] = rep.undecided.get(k, 0) + n
        rep.engine_errors += p['engine_errors']
        rep.scenarios += p['scenarios']
        rep.assumptions += p['assumptions']
        missing += p['missing']
        for k, v in p['stats'].items():
            if isinstance(v, set):
                stats[k] |= v
            elif k == 'modules':
                stats[k] = max(stats[k], v)
            else:
                stats[k] += v
    known = load_known(a.prop)
    new, old = [], []
    for v in rep.violations:
        (old if any(matches(k, v) for k in known) else new).append(v)
    tot = {k: sum(c[k] for c in rep.rules.values()) for k in ('obligations', 'discharged', 'undecided', 'violated')}
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of /repo\'s current source (never imported or executed): every obligation is '
                           'checked on every abstract final state of the listed entry points; loops over explicit shapes are exact, '
                           'other loops are cut at the stated sites.',
            'obligations': tot['obligations'], 'discharged': tot['discharged'], 'undecided': tot['undecided'],
            'rules': rep.rules, 'undecided_reasons': rep.undecided, 'known_findings': len(old),
            'modules_parsed': stats['modules'], 'functions_analysed': sorted(stats['functions']),
            'call_sites_resolved': len(stats['call_sites']), 'loops_exact': stats['loops_exact'], 'loops_cut': stats['loops_cut'],
            'loop_cut_sites': ['%s:%s %s' % s for s in sorted(stats['cut_sites'])], 'transfer_steps': stats['steps'],
            'unmodelled': sorted(stats['unmodelled']), 'scenarios': rep.scenarios, 'analyser_errors': rep.engine_errors,
        },
        'assumptions': rep.assumptions or ['Python semantics as modelled in sa/; real arithmetic instead of floating point; '
                                           'shape bounds of the scenarios as listed in DESIGN.md'],
        'violations': [{'rule': v['rule'], 'where': '%s:%s in %s' % (v['file'], v['line'], v['function']), 'detail': str(v['detail'])[:2000],
                        'scenario': v['scenario']} for v in new],
        'wall_s': round(time.time() - t0, 3),
    }
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d call sites; %.1fs' % (
        a.prop, tot['obligations'], tot['discharged'], sum(rep.undecided.values()), tot['violated'], len(stats['functions']), len(stats['call_sites']), time.time() - t0))
    for k in sorted(rep.undecided):
        print('  undecided: %s (x%d)' % (k, rep.undecided[k]))
    for v in old:
        print('KNOWN-FINDING: property=%s %s at %s:%s in %s' % (a.prop, v['rule'], v['file'], v['line'], v['function']))
    if new:
        rp = os.path.join(evdir, a.prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': a.prop, 'violations': ev['violations'], 'replay': 'python3 /verif/check.py %s --tier %s' % (a.prop, a.tier)}, f, indent=1)
        for v in new[:20]:
            print('  %s at %s:%s in %s\n     %s\n     scenario: %s' % (v['rule'], v['file'], v['line'], v['function'], str(v['detail'])[:600], v['scenario']))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if missing:
        for m in missing:
            print('ERROR:', m)
        return 2
    return 0


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == prop]


def matches(k, v):
    return k['rule'] == v['rule'] and k['function'] == v['function']
