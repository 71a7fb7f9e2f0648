"""Whole runs: reproducibility (C26), the caller's data (C27), independence of runs (C28)."""
from .common import *
from .drivers import mro_names

TENTH = NF(N.of(Fr(1, 10)).d)


class Table(UserFn):
    """a function of the user whose answers are fixed numbers, one per distinct argument"""

    def __init__(self, n=1, conds=None, form='tuple'):
        self.seen = {}
        self.n, self.conds, self.form = n, conds, form
        UserFn.__init__(self, 'f', self.answer)

    def answer(self, st, key, a):
        k = self.seen.setdefault(repr(key), len(self.seen))
        total = self.n + len(self.conds or ())
        if total == 1:
            return N.const((k * 7 + 3) % 11)
        vals, j = [], 0
        for p in range(total):
            vals.append(N.const((k * (5 + 2 * p) + 3 * p) % 11 - (4 if p >= self.n else 0)))
        return tup(*vals) if self.form == 'tuple' else lst(st, vals, flags=FOREIGN, info='answer of the objective function')


FOREIGN = ('foreign',)


def flist(s, vals, what):
    return lst(s, vals, flags=FOREIGN, info=what)


def gens_of(s, kind, foreign=True):
    mk_ = (lambda v, w: flist(s, v, w)) if foreign else (lambda v, w: lst(s, v))
    if kind == 'cat':
        return mk_([mk_([K('a'), K('b'), K('c')], 'values of a gene'), tup(1, 9, 2), mk_([K('u'), 4, K('v')], 'values of a gene'), tup(0, 4, 1)], 'gene definitions')
    if kind == 'order':
        return tup(0, 5, 5)
    return mk_([tup(0, 7, 1), tup(-1, 1, NF(N.of(Fr(1, 2)).d))], 'gene definitions')


def inputs_of(s, kind, foreign=True):
    mk_ = (lambda v, w: flist(s, v, w)) if foreign else (lambda v, w: lst(s, v))
    rows = {'cat': [[K('a'), 3, K('u'), 1], [K('c'), 5, K('v'), 0]], 'order': [[0, 1, 2, 3, 4], [5, 3, 1, 0, 2]]}.get(kind, [[1, 0], [6, NF(N.of(Fr(1, 2)).d)]])
    return mk_([mk_(r, 'user individual') for r in rows], 'user population')


GA_KIND = {'BinaryGA': 'bin', 'CombinatoryGA': 'order', 'CategoricalGA': 'cat', 'VEGA': 'bin', 'FFGA': 'bin'}
PENS = ('DynamicPenalty', 'AdaptivePenalty', 'StaticPenalty')


def penalty(I, s, name, foreign=True):
    if name is None:
        return s, None
    kw = {}
    if name == 'StaticPenalty':
        fl = FOREIGN if foreign else ()

        def table(rows, what):
            r = Ref(s.alloc(Obj('dict', fields={N.const(i): v for i, v in rows}, flags=frozenset(fl), info=what)))
            return r
        iv = lambda: lst(s, [tup(0, 2), tup(2, 100)], flags=fl, info='penalty intervals')
        co = lambda: lst(s, [3, 8], flags=fl, info='penalty coefficients')
        kw = dict(equality_intervals=table([(1, iv())], 'penalty table'), equality_r_coef=table([(1, co())], 'penalty table'),
                  inequality_intervals=table([(0, iv())], 'penalty table'), inequality_r_coef=table([(0, co())], 'penalty table'))
    (s, p), = ok1(new(I, s, name, **kw), name)
    return s, p


def ga_settings(I, s, name, pen=None, foreign=True, form='tuple', data=True, inputs=True, target=True, G=4, alone=False, **kw):
    kind = GA_KIND[name]
    nobj = 2 if name in ('VEGA', 'FFGA') else 1
    conds = ['<=', '!='] if pen and not alone else None
    fn = Table(nobj, conds, form)
    mk_ = (lambda v, w: flist(s, v, w)) if foreign else (lambda v, w: lst(s, v))
    a = dict(num_generations=G, num_individ=5, gens=gens_of(s, kind, foreign), obj_function=fn.t, children_percent=NF(N.of(Fr(1, 2)).d), early_stop=None, is_print=False)
    if name != 'FFGA':
        a['tournament_size'] = 2
    if inputs:
        a['input_population'] = inputs_of(s, kind, foreign)
    if data:
        a['input_data'] = mk_([mk_([3], 'input data'), 4], 'input data')
        if data == 'dict':
            a['input_data'] = Ref(s.alloc(Obj('dict', fields={K('weights'): mk_([3, 4], 'input data'), K('limit'): N.const(5)}, flags=frozenset(FOREIGN if foreign else ()), info='input data')))
    if target:
        a['obj_value'] = mk_([1, 2], 'target values') if nobj == 2 else N.const(2)
    if pen:
        s, p = penalty(I, s, pen, foreign)
        a['penalty'] = p
    if conds:
        a['conditions'] = mk_([K(c) for c in ['optimize'] * nobj + conds], 'conditions')
    a.update(kw)
    return s, a


VARIANTS = [dict(), dict(pen='DynamicPenalty', data='dict'), dict(inputs=False, data=False, target=False), dict(pen='StaticPenalty', data=False), dict(pen='DynamicPenalty', alone=True, data=False)]


def ga_runs(I, s, name, start=0, **kw):
    """-> [(state, ga, settings, result)]"""
    s, a = ga_settings(I, s, name, **kw)
    out = []
    for s, ga in new(I, s, name, **a):
        if isinstance(ga, Exc):
            out.append((s, None, a, ga))
            continue
        with Resolved(I, start):
            for s2, v in meth(I, s, ga, 'optimize'):
                out.append((s2, ga, a, v))
    return out


# collected algorithms: every component takes part in one of them
COMBOS = [
    ('CatPopulation', 'BalancedSelection', 'TwoPointCrossover', 'CategoricalMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('CatPopulation', 'RankedSelection', 'OnePointCrossover', 'CategoricalMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('OrderCatPopulation', 'RankedSelection', 'OrderCrossover', 'SwapMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('OrderCatPopulation', 'BalancedSelection', 'OrderCrossover', 'InversionMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('OrderCatPopulation', 'TournamentSelection', 'OrderCrossover', 'ShiftMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('BinaryGrayPopulation', 'RankedSelection', 'UniformCrossover', 'BinStringMutation', 'NewGeneration', 'GaData', 'HyperbolaFitness'),
    ('BinaryGrayPopulation', 'VEGABalancedSelection', 'TwoPointCrossover', 'BinStringMutation', 'NewGeneration', 'MultiGaData', 'VEGAHyperbolaFitness'),
    ('BinaryPopulation', 'VEGARankedSelection', 'UniformCrossover', 'BinStringMutation', 'NewGeneration', 'MultiGaData', 'VEGAHyperbolaFitness'),
    ('BinaryGrayPopulation', 'TournamentSelection', 'OnePointCrossover', 'BinStringMutation', 'MultiNewGeneration', 'MultiGaData', 'FFGAFitness'),
]


def combo_runs(I, s, combo, start=0, foreign=True, pen=None, G=3, form='tuple', inputs=True, lvl=None, tp='best', **_):
    pc, sc, xc, mc, nc, gc, fc = combo
    kind = {v: k for k, v in POPCLS.items()}[pc]
    nobj = 1 if gc == 'GaData' else 2
    conds = ['<=', '!='] if pen else None
    mk_ = (lambda v, w: flist(s, v, w)) if foreign else (lambda v, w: lst(s, v))
    fn = Table(nobj, conds, form if foreign or form == 'tuple' else 'tuple')
    kw = dict(obj_function=fn.t)
    if pen:
        s, p = penalty(I, s, pen, foreign)
        kw.update(penalty=p, conditions=mk_([K(c) for c in conds + ['optimize'] * nobj], 'conditions'))
    cur, comp = [s], {}
    for role, c, k in (('fitness', fc, kw), ('selection', sc, dict(num_objectives=2) if sc.startswith('VEGA') else dict(tournament_size=2) if sc == 'TournamentSelection' else {}),
                       ('crossover', xc, {}), ('mutation', mc, {} if lvl is None else dict(mutation_lvl=lvl)), ('new_generation', nc, dict(transfer_parents=tp))):
        (s, o), = ok1(new(I, s, c, **k), c)
        comp[role] = o
    (s, col), = ok1(new(I, s, 'CollectorGA', storage=cls(I, s, gc), **comp), 'CollectorGA')
    a = dict(num_individ=5, num_generations=G, gens=gens_of(s, kind, foreign), children_percent=NF(N.of(Fr(1, 2)).d), early_stop=G)
    if inputs:
        a['input_population'] = inputs_of(s, kind, foreign)
    out = []
    with Resolved(I, start):
        for s, e in meth(I, s, col, 'set_population', cls(I, s, pc), **a):
            if isinstance(e, Exc):
                out.append((s, col, a, e))
                continue
            for s2, v in meth(I, s, col, 'optimize'):
                out.append((s2, col, a, v if isinstance(v, Exc) else attr(I, s2, col, 'ga_data')))
    return out


def all_worlds(tier):
    """(label, class, function for a run)"""
    out = []
    for name in GA_KIND:
        for v in VARIANTS + [dict(mutation_lvl=1.0)] + ([dict(transfer_parents='random')] if name != 'FFGA' else []) + ([dict(pen='AdaptivePenalty', form='list')] if name not in ('VEGA', 'FFGA') else [dict(form='list')]):
            out.append(('%s %s' % (name, v), name, lambda I, s, start, foreign, name=name, v=v: ga_runs(I, s, name, start, foreign=foreign, **v)))
    for c in COMBOS:
        for v in (dict(), dict(lvl=1.0, pen='DynamicPenalty', tp='best' if c[4] != 'NewGeneration' else 'random'), dict(inputs=False, lvl=HALFF)):
            out.append(('CollectorGA %s %s' % (' '.join(c), v), 'CollectorGA', lambda I, s, start, foreign, c=c, v=v: combo_runs(I, s, c, start, foreign, **v)))
    return out


HALFF = NF(N.of(Fr(1, 2)).d)


# ------------------------------------------------------------------ C27
def foreign_writes(st):
    return [e for e in st.events if e[0] == 'write' and e[1] == 'foreign']


def judge_foreign(rep, st, w):
    f = foreign_writes(st)
    rep.ob('C27/the caller\'s objects are not modified', st, not f, f[0][4] if f else w, lambda: '%s modified (%s)' % (f[0][5], f[0][3]))


@rule('C27')
def whole_runs(I, rep, tier):
    for label, name, run in all_worlds(tier):
        for start in (0, 17) if tier == 'quick' else range(0, 300, 17):
            rep.scenarios += 1
            rep.cur = '%s with user-owned lists, resolution %d' % (label, start)
            s = I.new_state()
            w = where(I, s, name, 'optimize')
            for s2, ga, a, r in run(I, s, start, True):
                judge_foreign(rep, s2, w)


@rule('C27')
def populations(I, rep, tier):
    """filling and decoding, for all draws"""
    for kind in POPCLS:
        for inp in (True, False):
            s = I.new_state()
            rep.scenarios += 1
            rep.cur = '%s from user-owned lists%s' % (POPCLS[kind], ' and individuals' if inp else '')
            (s, p), = ok1(new(I, s, POPCLS[kind]), POPCLS[kind])
            w = where(I, s, POPCLS[kind], 'fill')
            kw = dict(input_population=inputs_of(s, kind)) if inp else {}
            cur = [s2 for s2, v in meth(I, s, p, 'set_params', num_individ=3 if inp else 1, gens=gens_of(s, kind), **kw)]
            for m in ('fill', 'get_phenotype', 'swap', 'sort_by_dict', 'reset_idx_individ', 'get_empty_individ', 'is_duplicate'):
                nxt = []
                for s2 in cur:
                    if attr(I, s2, p, m) is None:
                        nxt.append(s2)
                        continue
                    if m == 'sort_by_dict':
                        for i, d in enumerate(elems(s2, p) or ()):
                            setfield(s2, d, 'score', -i)
                    nxt += [s3 for s3, v in meth(I, s2, p, m)]
                cur = nxt if m == 'fill' else nxt[:40]
                if m == 'fill':
                    for s2 in cur:
                        judge_foreign(rep, s2, w)
                    cur = cur[:40]
            for s2 in cur:
                judge_foreign(rep, s2, w)


@rule('C27')
def evaluation(I, rep, tier):
    """evaluation with user-owned conditions, targets, data and answers, opaque values"""
    for cls_, nobj in (('HyperbolaFitness', 1), ('VEGAHyperbolaFitness', 2), ('FFGAFitness', 2)):
        for pen in (None,) + PENS:
            if pen == 'AdaptivePenalty' and nobj == 2:
                continue
            for conds in ((['optimize'] * nobj + ['<=', '!='], ['<=', '!='] + ['optimize'] * nobj) if pen else (None,)):
                for s, pop, inds in population(I, I.new_state(), 'bin', 1, scored=False, evaluated=False):
                    for d in inds:
                        setfield(s, d, 'score', None)
                        setfield(s, d, 'obj_score', None)
                    for s, gd in gadata(I, s, pop, 'GaData' if nobj == 1 else 'MultiGaData'):
                        n = nobj + (2 if pen else 0)
                        if pen is None and nobj == 1:
                            fn = scalar_fn()
                        else:
                            fn = UserFn('f', lambda st, key, a, n=n: lst(st, [objval(key, j) for j in range(n)], flags=FOREIGN, info='answer of the objective function'))
                        kw = dict(obj_function=fn.t, input_data=flist(s, [1], 'input data'))
                        if pen:
                            kw['input_data'] = Ref(s.alloc(Obj('dict', fields={K('limit'): flist(s, [1], 'input data')}, flags=frozenset(FOREIGN), info='input data')))
                        if nobj == 2:
                            kw['obj_value'] = flist(s, [sym('t0', 'num'), sym('t1', 'num')], 'target values')
                        if pen:
                            s, po = penalty(I, s, pen)
                            kw.update(penalty=po, conditions=flist(s, [K(c) for c in conds], 'conditions'))
                        setattrs(I, s, gd, best_solution=dct(s, feasible=False, score=0))
                        rep.scenarios += 1
                        rep.cur = '%s with %s and %s' % (cls_, pen, conds)
                        w = where(I, s, cls_, 'execute')
                        s.events = ()
                        for s2, f in new(I, s, cls_, **kw):
                            if isinstance(f, Exc):
                                continue
                            for s3, v in meth(I, s2, f, 'execute', gd):
                                judge_foreign(rep, s3, w)


@rule('C27')
def mutation(I, rep, tier):
    """categorical mutation reads the user's value lists, for all draws"""
    for s, pop, inds in population(I, I.new_state(), 'cat', 1, gens=None):
        g = gens_of(s, 'cat')
        setattrs(I, s, pop, gens=g)
        for s, gd in gadata(I, s, pop):
            setattrs(I, s, gd, children=pop)
            for d in inds:
                setfield(s, d, 'genotype', lst(s, [K('a'), 3, K('u'), 1]))
            for s, m in ok1(new(I, s, 'CategoricalMutation', mutation_lvl=1.0), 'CategoricalMutation'):
                rep.scenarios += 1
                rep.cur = 'CategoricalMutation over user-owned value lists'
                w = where(I, s, 'CategoricalMutation', 'execute')
                for s2, v in meth(I, s, m, 'execute', gd):
                    judge_foreign(rep, s2, w)


# ------------------------------------------------------------------ C28
def result(I, st, gd):
    """everything a run reports: best solution, histories, population, counters"""
    out = {}
    for k in ('best_solution', 'historical_best', 'historical_mediocre', 'historical_worst', 'population', 'idx_generation', 'num_generation_no_improve'):
        out[k] = full(st, attr(I, st, gd, k))
    return out


def full(st, v):
    """contents of a value, individuals with all their fields"""
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None:
            return v
        if o.segs is not None:
            return ('L', tuple(full(st, g.v) if isinstance(g, One) else g for g in o.segs))
        if o.kind == 'dict':
            return ('D', tuple(sorted(((repr(k), full(st, x)) for k, x in o.fields.items()), key=lambda x: x[0])))
        return ('O', str(o.cls))
    if isinstance(v, Tup):
        return ('T', tuple(full(st, g.v) if isinstance(g, One) else g for g in v.segs))
    return v


def own_state(I, st, o):
    """all attributes of an object, with contents"""
    ob = st.get(o.key)
    f = st.get(ob.ns).fields if ob.ns is not None else ob.fields
    return {k: (v, full(st, v), frozenset(reach_state(st, v))) for k, v in f.items()}


def reach_state(st, v):
    return {(k, full(st, Ref(k))) for k in reach(st, v)}


def diff(a, b):
    return [k for k in a if a.get(k) != b.get(k)]


@rule('C28')
def again(I, rep, tier):
    """an algorithm object run twice with the same random draws gives the same result, and stays as it was"""
    for name in GA_KIND:
        for v in VARIANTS + [dict(pen='AdaptivePenalty'), dict(mutation_lvl=1.0), dict(early_stop=40, inputs=False), dict(early_stop=1, data=False)]:
            if v.get('pen') == 'AdaptivePenalty' and name in ('VEGA', 'FFGA'):
                continue
            s = I.new_state()
            w = where(I, s, name, 'optimize')
            rep.scenarios += 1
            rep.cur = '%s run twice, %s' % (name, v)
            s, a = ga_settings(I, s, name, foreign=False, **v)
            for s, ga in new(I, s, name, **a):
                if isinstance(ga, Exc):
                    continue
                before = own_state(I, s, ga)
                with Resolved(I, 5):
                    first = meth(I, s, ga, 'optimize')
                for s1, g1 in first:
                    if not isinstance(g1, Ref):
                        continue
                    mid = own_state(I, s1, ga)
                    rep.ob('C28/running an algorithm does not change it', s1, not diff(before, mid), w, lambda: 'changed: %s' % diff(before, mid))
                    r1 = result(I, s1, g1)
                    with Resolved(I, 5):
                        second = meth(I, s1, ga, 'optimize')
                    for s2, g2 in second:
                        if isinstance(g2, Exc):
                            rep.ob('C28/an algorithm can be run again', s2, False, g2.site or w, lambda: 'the second run raises %s %s' % (g2.name, g2.args))
                            continue
                        rep.ob('C28/an algorithm can be run again', s2, True, w)
                        rep.ob('C28/each run has run data of its own', s2, g2 != g1 and not (reach(s2, g1) - PERMITTED(I, s2, a)) & reach(s2, g2), w, 'the two runs share objects')
                        r2 = result(I, s2, g2)
                        rep.ob('C28/the same draws give the same result again', s2, r1 == r2, w, lambda: 'differs in %s' % diff(r1, r2))
                        r1b = result(I, s2, g1)
                        rep.ob('C28/a later run does not change an earlier result', s2, r1 == r1b, w, lambda: 'changed: %s' % diff(r1, r1b))


def PERMITTED(I, st, a):
    """objects of the caller, which runs may refer to"""
    acc = set()
    for v in a.values():
        reach(st, v, acc)
    return acc


@rule('C28')
def other_runs(I, rep, tier):
    """a run is not influenced by other runs before it (the draws being equal)"""
    I.max_steps *= 4
    W = all_worlds(tier)
    ref = []
    for label, name, run in W:
        ref.append([result(I, s, g) for s, _, _, g in run(I, I.new_state(), 5, False) if isinstance(g, Ref)])
    for i, (label, name, run) in enumerate(W):
        for step in (0, 1, 23) if tier == 'quick' else range(0, len(W), 2):
            l2, n2, run2 = W[(i + step) % len(W)]
            rep.scenarios += 1
            rep.cur = '%s after a run of %s' % (label, l2)
            w = where(I, I.new_state(), name, 'optimize')
            for s, ga, a, g in run2(I, I.new_state(), 9, False):
                if not isinstance(g, Ref):
                    continue
                earlier = result(I, s, g)
                for s2, ga2, a2, g2 in run(I, s, 5, False):
                    if isinstance(g2, Exc):
                        rep.ob('C28/a run is not influenced by an earlier one', s2, not ref[i], g2.site or w, lambda: 'raises %s %s' % (g2.name, g2.args))
                        continue
                    r = result(I, s2, g2)
                    rep.ob('C28/a run is not influenced by an earlier one', s2, r in ref[i], w, lambda: 'differs in %s' % (diff(r, ref[i][0]) if ref[i] else '?'))
                    rep.ob('C28/a run does not change the result of an earlier one', s2, result(I, s2, g) == earlier, w, lambda: 'changed: %s' % diff(earlier, result(I, s2, g)))


class Alive:
    """a run made step by step, beside other runs"""
    STEPS = ['fitness', 'update'] + ['selection', 'crossover', 'mutation', 'new_generation', 'fitness', 'update'] * 2

    def __init__(self, combo, variant, shift):
        self.combo, self.variant, self.shift = combo, variant, shift
        self.comp, self.gd, self.pop = {}, None, None

    def gens(self, s, kind):
        """other genes for each variant"""
        k = self.variant
        if kind == 'cat':
            return lst(s, [lst(s, [K('a'), K('b'), K('c')][:2 + k]), tup(1, 9 - 2 * k, 2), lst(s, [K('u'), 4, K('v')]), tup(0, 4 + k, 1)])
        if kind == 'order':
            return tup(0, 5 + k, 5)
        return lst(s, [tup(0, 7, 1), tup(-1, 1, HALFF)] if k == 0 else [tup(-3, 12, 1), tup(0, 1, HALFF), tup(2, 9, 1)])

    def setup(self, I, s):
        pc, sc, xc, mc, nc, gc, fc = self.combo
        kind = {v: k for k, v in POPCLS.items()}[pc]
        nobj = 1 if gc == 'GaData' else 2
        kw = dict(obj_function=Table(nobj, ['<=', '!='] if self.variant else None).t, obj_value=N.const(2) if nobj == 1 else lst(s, [1, 2]))
        if self.variant:
            s, p = penalty(I, s, 'DynamicPenalty', False)
            kw.update(penalty=p, conditions=lst(s, [K(c) for c in ['<=', '!='] + ['optimize'] * nobj]))
        else:
            kw['input_data'] = lst(s, [3])
        for role, c, k in (('fitness', fc, kw), ('selection', sc, dict(num_objectives=2) if sc.startswith('VEGA') else dict(tournament_size=2 + self.variant) if sc == 'TournamentSelection' else {}),
                           ('crossover', xc, {}), ('mutation', mc, dict(mutation_lvl=(HALFF, 1.0)[self.variant])), ('new_generation', nc, dict(transfer_parents='best'))):
            (s, o), = ok1(new(I, s, c, **k), c)
            self.comp[role] = o
        (s, self.gd), = ok1(new(I, s, gc, num_generations=4, children_percent=HALFF, early_stop=9), gc)
        (s, self.pop), = ok1(new(I, s, pc), pc)
        (s, _), = ok1(meth(I, s, self.pop, 'set_params', num_individ=5 + self.variant, gens=self.gens(s, kind)), 'set_params')
        return s

    def step(self, I, s, k):
        """-> state; k = -1 fills the population"""
        with Resolved(I, self.shift + 40 * (k + 1)):
            if k < 0:
                res = meth(I, s, self.pop, 'fill')
                for s2, _ in res[:1]:
                    setattrs(I, s2, self.gd, population=self.pop)
            elif self.STEPS[k] == 'update':
                res = meth(I, s, self.gd, 'update')
            else:
                res = meth(I, s, self.comp[self.STEPS[k]], 'execute', self.gd)
        if len(res) != 1:
            raise Stopped(None)
        s2, v = res[0]
        if isinstance(v, Exc):
            raise Stopped(v)
        return s2


class Stopped(Exception):
    pass


@rule('C28')
def side_by_side(I, rep, tier):
    """two runs whose steps alternate give the results they give alone"""
    I.max_steps *= 4
    pairs = [(c, c) for c in COMBOS] + [(COMBOS[i], COMBOS[(i + 1) % len(COMBOS)]) for i in range(len(COMBOS))]
    for c1, c2 in pairs:
        rep.scenarios += 1
        rep.cur = 'runs of %s and %s side by side' % (' '.join(c1), ' '.join(c2))
        w = where(I, I.new_state(), c1[0], 'fill')
        alone = []
        for c, v, sh in ((c1, 0, 3), (c2, 1, 11)):
            r = Alive(c, v, sh)
            s = r.setup(I, I.new_state())
            try:
                for k in range(-1, len(r.STEPS)):
                    s = r.step(I, s, k)
            except Stopped:
                s = None
            alone.append(None if s is None else result(I, s, r.gd))
        if alone[0] is None or alone[1] is None:
            rep.ob('C28/runs side by side do not influence each other', None, None, w)
            continue
        a, b = Alive(c1, 0, 3), Alive(c2, 1, 11)
        s = b.setup(I, a.setup(I, I.new_state()))
        ok = True
        for k in range(-1, len(a.STEPS)):
            try:
                for r in (a, b):
                    s = r.step(I, s, k)
            except Stopped as e:
                x = e.args[0]
                rep.ob('C28/runs side by side do not influence each other', s, False if isinstance(x, Exc) else None, getattr(x, 'site', None) or w, lambda: 'raises %r' % (x,))
                ok = False
                break
        if ok:
            for r, ref in ((a, alone[0]), (b, alone[1])):
                got = result(I, s, r.gd)
                rep.ob('C28/runs side by side do not influence each other', s, got == ref, w, lambda: 'differs in %s' % diff(got, ref))


# ------------------------------------------------------------------ C26
SEED = sym('rnd_seed', 'int')


def seeded(I, s):
    """state in which the user has set the seed"""
    g = I.modules['baumeva'].ns
    gen = s.get(g).fields.get('generator')
    if gen is None:
        raise Missing('baumeva.generator')
    out = [(x, v) for x, v in I.setattr(s, gen, 'rnd_seed', SEED)]
    for x, v in out:
        x.events = ()
    return [x for x, v in out if not isinstance(v, Exc)]


def judge_seeding(rep, st, w, loop=True):
    """one seeding with the user's seed before the first draw, none after it"""
    first = None
    seeds = []
    for k, e in enumerate(st.events):
        if e[0] == 'rand' and e[1] not in ('seed', 'getstate', 'setstate') and first is None:
            first = k
        if e[0] == 'seed':
            seeds.append((k, e))
    before = [e for k, e in seeds if first is None or k < first]
    after = [e for k, e in seeds if first is not None and k > first]
    if first is not None or not loop:
        ok = bool(before) and len(before[-1][1]) >= 1 and same(st, before[-1][1][0], SEED)
        rep.ob('C26/the generator is seeded with the user\'s seed before any draw', st, ok, before[-1][2] if before else w, lambda: 'seeded with %s' % (before[-1][1],) if before else 'no seeding before the first draw')
    if loop:
        rep.ob('C26/the generator is not seeded again', st, not after, after[0][2] if after else w, 'seeded again after draws have been made')


def judge_sources(I, rep, st, w, values):
    """no other source of variation enters the results"""
    other = [e for e in st.events if e[0] == 'rand2' and e[2] not in ('seed', 'setstate', 'getstate')]
    seeded2 = any(e[0] == 'rand2' and e[2] == 'seed' for e in st.events)
    if other:
        rep.ob('C26/every draw comes from the one seeded generator', st, False if other[0][1] == 'rng2' and not seeded2 else None, other[0][3], lambda: '%s of another, unseeded generator' % other[0][2])
    else:
        rep.ob('C26/every draw comes from the one seeded generator', st, True, w)
    ent = [e for e in st.events if e[0] == 'entropy' and (e[1].startswith(('secrets', 'os.urandom', 'numpy.random', 'uuid')))]
    bad = [t for v in values for t in entropy_in(st, v)]
    bad += [t for e in st.events if e[0] == 'seed' for v in e[1] for t in entropy_in(st, v)]
    rep.ob('C26/no result depends on time, identities, hashes or other sources', st, not bad, next((e[3] for e in st.events if e[0] == 'entropy'), w), lambda: 'depends on %s' % bad[0].info['entropy'])


def judge_branches(I, rep, done, w):
    """a decision on another source of variation must not matter: all its outcomes give the same result"""
    br = [e for s, _ in done for e in s.events if e[0] == 'entropy branch']
    if not br:
        return
    res = [result(I, s, g) for s, g in done]
    odd = [k for k, r in enumerate(res) if r != res[0]]
    rep.ob('C26/no result depends on time, identities, hashes or other sources', done[0][0], not odd, br[0][2], lambda: 'a decision on %s changes %s' % (br[0][1], diff(res[0], res[odd[0]])))


def entropy_in(st, v, seen=None):
    seen = set() if seen is None else seen
    out = []
    if isinstance(v, T):
        if v in seen:
            return out
        seen.add(v)
        if v.info and isinstance(v.info, dict) and 'entropy' in v.info:
            out.append(v)
        for a in v.a:
            out += entropy_in(st, a, seen)
    elif isinstance(v, N):
        for t in v.atoms():
            out += entropy_in(st, t, seen)
    elif isinstance(v, Ref):
        if v in seen:
            return out
        seen.add(v)
        o = st.get(v.key)
        if o is None:
            return out
        for x in o.fields.values():
            out += entropy_in(st, x, seen)
        for g in o.segs or ():
            if isinstance(g, One):
                out += entropy_in(st, g.v, seen)
        if o.ns is not None:
            for x in st.get(o.ns).fields.values():
                out += entropy_in(st, x, seen)
    elif isinstance(v, (Tup, StrV)):
        for g in v.segs:
            if isinstance(g, One):
                out += entropy_in(st, g.v, seen)
    elif isinstance(v, (tuple, list)):
        for x in v:
            out += entropy_in(st, x, seen)
    return out


@rule('C26')
def population_seeds(I, rep, tier):
    """creating any population, also without drawing afterwards"""
    for kind in POPCLS:
        for s in seeded(I, I.new_state()):
            rep.scenarios += 1
            rep.cur = '%s created after a seed was set' % POPCLS[kind]
            w = where(I, s, POPCLS[kind], '__init__')
            I.rand_events = True
            for s2, p in runs(rep, 'C26', new(I, s, POPCLS[kind]), w):
                judge_seeding(rep, s2, w, loop=False)
                with Resolved(I):
                    for s3, _ in meth(I, s2, p, 'set_params', 4, gens_of(s2, kind, False)):
                        filled = meth(I, s3, p, 'fill')
                        for s4, v in filled:
                            judge_seeding(rep, s4, w)
                            judge_sources(I, rep, s4, w, [p])
                        br = [e for s4, _ in filled for e in s4.events if e[0] == 'entropy branch']
                        if br:
                            cont = [full(s4, p) for s4, v in filled]
                            rep.ob('C26/no result depends on time, identities, hashes or other sources', filled[0][0], all(x == cont[0] for x in cont), br[0][2], lambda: 'a decision on %s' % br[0][1])
            # a second population starts over
            for s2, p in new(I, s, POPCLS[kind]):
                s2.events = ()
                for s3, p2 in new(I, s2, POPCLS[kind]):
                    judge_seeding(rep, s3, w, loop=False)


@rule('C26')
def run_seeds_once(I, rep, tier):
    for label, name, run in all_worlds(tier):
        for start in (0,) if tier == 'quick' else range(0, 200, 23):
            for s in seeded(I, I.new_state()):
                I.rand_events = True
                rep.scenarios += 1
                rep.cur = '%s after a seed was set' % label
                w = where(I, s, name, 'optimize')
                done = run(I, s, start, False)
                for s2, ga, a, g in done:
                    if isinstance(g, Exc):
                        rep.ob('C26/completes', s2, None, w)
                        continue
                    judge_seeding(rep, s2, w)
                    judge_sources(I, rep, s2, w, [g])
                judge_branches(I, rep, [(s2, g) for s2, _, _, g in done if isinstance(g, Ref)], w)


@rule('C26')
def hash_order(I, rep, tier):
    """the same run with the iteration order of every set of non-integers reversed gives the same result"""
    for label, name, run in all_worlds(tier):
        for start in (0, 23) if tier == 'quick' else range(0, 200, 17):
            rep.scenarios += 1
            rep.cur = '%s with another hash order' % label
            w = where(I, I.new_state(), name, 'optimize')
            fwd = [(s, g) for s, _, _, g in run(I, I.new_state(), start, False) if isinstance(g, Ref)]
            so = [e for s, _ in fwd for e in s.events if e[0] == 'setorder']
            if not so:
                for s, g in fwd:
                    rep.ob('C26/the result does not depend on the hash order of sets', s, True, w)
                continue
            I.setrev = True
            try:
                back = [(s, g) for s, _, _, g in run(I, I.new_state(), start, False) if isinstance(g, Ref)]
            finally:
                I.setrev = False
            if len(fwd) != len(back):
                rep.ob('C26/the result does not depend on the hash order of sets', fwd[0][0], None, w)
                continue
            for (s, g), (s2, g2) in zip(fwd, back):
                a, b = result(I, s, g), result(I, s2, g2)
                rep.ob('C26/the result does not depend on the hash order of sets', s, a == b, so[0][1], lambda: 'differs in %s' % diff(a, b))


@rule('C27')
def long_conditions(I, rep, tier):
    """condition lists of any length, in the order given, stay as they were when a fitness is built"""
    for name in ('HyperbolaFitness', 'VEGAHyperbolaFitness', 'FFGAFitness'):
        for k in (1, 2, 3, 4, 5, 9):
            for at in {0, k // 2, k}:
                s = I.new_state()
                cs = [K('<=' if i % 2 else '!=') for i in range(k)]
                cs.insert(at, K('optimize'))
                if name != 'HyperbolaFitness':
                    cs.append(K('optimize'))
                conds = lst(s, cs)
                fn = scalar_fn()
                w = where(I, s, name, 'execute')
                rep.scenarios += 1
                rep.cur = '%s with %d conditions' % (name, len(cs))
                for s, p in ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty'):
                    for s2, f in runs(rep, 'C27', new(I, s, name, obj_function=fn.t, penalty=p, conditions=conds), w):
                        rep.ob("C27/the caller's objects are not modified", s2, elems(s2, conds) == cs, w, lambda: 'conditions are %s afterwards' % (elems(s2, conds),))
