"""Ready-made algorithms and the collector (C03, C04, C25, C28)."""
from .common import *

STAGES = (('BaseSelection', 'selection'), ('BaseCrossover', 'crossover'), ('BaseMutation', 'mutation'), ('NewGeneration', 'replacement'), ('BaseFitness', 'fitness'))
GENERATION = ['selection', 'crossover', 'mutation', 'replacement', 'fitness', 'update']


def mro_names(st, v):
    o = st.get(v.key) if isinstance(v, Ref) else None
    if o is None or o.cls is None or o.cls.info is None:
        return ()
    return [c.info.name if c.info is not None else c.name for c in o.cls.info.mro]


class Bound(dict):
    """bound parameters, as part of an event"""

    def __hash__(self):
        return hash(tuple(self.items()))


class Summaries:
    """while active: the stages of a generation are replaced by their summaries (an event; recording leaves any counter value it
    could leave), constructors and set_params are recorded with their bound parameters"""

    def __init__(self, I, stop=None):
        """stop: the number of recordings after which there is no more improvement (default: any history)"""
        self.I = I
        self.stop = stop

    def stage(self, I, st, fn, args, kw):
        names = mro_names(st, args[0]) if args else ()
        for b, what in STAGES:
            if b in names:
                gd = args[1] if len(args) > 1 else kw.get('ga_data')
                st.ev('stage', what, gd, args[0], attr(I, st, gd, 'population') if isinstance(gd, Ref) else None, I.site)
                return [(st, NONE)]
        return None

    def update(self, I, st, fn, args, kw):
        if not args or 'GaData' not in mro_names(st, args[0]):
            return None
        gd = args[0]
        n = sum(1 for e in st.events if e[0] == 'stage' and e[1] == 'update' and e[2] == gd)
        t = N.const(0)
        if self.stop is not None:
            t = N.const(max(0, n - self.stop))
        elif n:
            t = fresh('stagnation', 'int')
            set_bounds(t, 0, n)
        st.ev('stage', 'update', gd, t, attr(I, st, gd, 'population'), I.site)
        setattrs(I, st, gd, num_generation_no_improve=t, idx_generation=n + 1)
        if 'MultiGaData' in mro_names(st, gd):
            front = lst(st, [dct(st, genotype=lst(st, [K('0')]), phenotype=lst(st, [0]), obj_score=lst(st, [fresh('objective', 'num'), fresh('objective', 'num')]), rank=1, feasible=True,
                                 score=fresh('score', 'num')) for _ in range(1 + n % 2)])
            setattrs(I, st, gd, best_solution=dct(st, pareto_set=front, idx_generation=n))
        else:
            setattrs(I, st, gd, best_solution=dct(st, score=fresh('score', 'num'), idx_generation=n, feasible=True, genotype=lst(st, [K('0')]), obj_score=fresh('objective', 'num')))
        return [(st, NONE)]

    def fill(self, I, st, fn, args, kw):
        if not args or 'BasePopulation' not in mro_names(st, args[0]):
            return None
        st.ev('stage', 'fill', None, args[0], None, I.site)
        return [(st, NONE)]

    def params(self, I, st, fn, args, kw):
        if not args or 'BasePopulation' not in mro_names(st, args[0]):
            return None
        env = I.bind_args(st, fn.info, args, kw)
        if isinstance(env, Exc):
            return [(st, env)]
        st.ev('params', args[0], Bound((k, v) for k, v in env.items() if v != args[0]), I.site)
        return [(st, NONE)]

    def show_best(self, I, st, fn, args, kw):
        if not args or 'GaData' not in mro_names(st, args[0]):
            return None
        st.ev('stage', 'print', args[0], None, None, I.site)
        return [(st, NONE)]

    def construct(self, I, st, c, args, kw):
        h = I.hooks.pop((c.info.name, '\0new'))
        try:
            res = I.instantiate(st, c, args, kw)
        finally:
            I.hooks[(c.info.name, '\0new')] = h
        init, _ = I.class_lookup(st, c.info.mro, '__init__')
        out = []
        for s, o in res:
            if isinstance(o, Ref):
                env = Bound()
                if isinstance(init, Fn):
                    env = I.bind_args(s, init.info, [o] + list(args), kw)
                    env = Bound() if isinstance(env, Exc) else Bound((k, v) for k, v in env.items() if v != o)
                elif isinstance(init, Partial) and init.fn.name == 'dc.init':
                    names = [f for f in init.args[0].info.dc if f[1]]
                    env = Bound((n[0], v) for n in names for v in [I.class_lookup(s, c.info.mro, n[0])[0]] if v is not None)
                    env.update(zip([n[0] for n in names if not n[2]], args), **kw)
                s.ev('new', c, o, env, I.site)
            out.append((s, o))
        return out

    def __enter__(self):
        I = self.I
        self.saved = dict(I.hooks)
        I.hooks[('*', 'execute')] = self.stage
        I.hooks[('*', 'update')] = self.update
        I.hooks[('*', 'fill')] = self.fill
        I.hooks[('*', 'set_params')] = self.params
        I.hooks[('*', 'print_best_solution')] = self.show_best
        for n in COMPONENTS:
            I.hooks[(n, '\0new')] = self.construct

    def __exit__(self, *a):
        self.I.hooks = self.saved


COMPONENTS = ('GaData', 'MultiGaData', 'BinaryPopulation', 'BinaryGrayPopulation', 'CatPopulation', 'OrderCatPopulation', 'HyperbolaFitness', 'VEGAHyperbolaFitness',
              'FFGAFitness', 'TournamentSelection', 'BalancedSelection', 'RankedSelection', 'VEGATournamentSelection', 'VEGABalancedSelection', 'VEGARankedSelection',
              'OnePointCrossover', 'TwoPointCrossover', 'UniformCrossover', 'OrderCrossover', 'BinStringMutation', 'CategoricalMutation', 'SwapMutation',
              'InversionMutation', 'MovementMutation', 'ShiftMutation', 'NewGeneration', 'MultiNewGeneration')
GAS = ('BinaryGA', 'CombinatoryGA', 'CategoricalGA', 'VEGA', 'FFGA')
MULTI = ('VEGA', 'FFGA')
GA_GENS = {'BinaryGA': lambda: tup(tup(0, 7, 1), tup(-1, 3, NF(N.of(Fr(1, 2)).d))), 'CombinatoryGA': lambda: tup(0, 9, 4), 'CategoricalGA': lambda: tup(tup(0, 3), tup(1, 5))}


def ga_args(I, st, name, G, **kw):
    """(kwargs, the user's function) with every setting opaque"""
    fn = tuple_fn(2) if name in MULTI else scalar_fn()
    lvl = sym('mutation_lvl', 'float')
    set_bounds(lvl, 0, 1)
    pc = sym('children_percent', 'float')
    set_bounds(pc, 0, 1)
    a = dict(num_generations=G, num_individ=sym('num_individ', 'int', 4), gens=GA_GENS.get(name, GA_GENS['BinaryGA'])(), obj_function=fn.t,
             children_percent=pc, early_stop=sym('early_stop', 'int', 0), mutation_lvl=lvl, transfer_parents='best', is_print=False)
    if name != 'FFGA':
        a['tournament_size'] = sym('tournament_size', 'int', 2)
    a.update(kw)
    return a, fn


def run_ga(I, rep, r, name, G, stop=None, **kw):
    """-> (final state, GA object, result, where)"""
    s = I.new_state()
    a, fn = ga_args(I, s, name, G, **kw)
    w = where(I, s, name, 'optimize')
    rep.scenarios += 1
    rep.cur = '%s, num_generations %s%s' % (name, G, ''.join(', %s=%s' % (k, v) for k, v in kw.items() if not isinstance(v, (Ref, Tup))))
    for s, ga in ok1(new(I, s, name, **a), name):
        with Summaries(I, stop):
            res = meth(I, s, ga, 'optimize')
        for s2, v in runs(rep, r, res, w):
            yield s2, ga, v, w, a


def collector(I, rep, r, G, pcls='BinaryPopulation', storage=None, E=None):
    s = I.new_state()
    fn = scalar_fn()
    parts = {}
    rep.scenarios += 1
    rep.cur = 'CollectorGA with %s, num_generations %s' % (pcls, G)
    w = where(I, s, 'CollectorGA', 'optimize')
    for p, c, kw in (('fitness', 'HyperbolaFitness', dict(obj_function=fn.t)), ('selection', 'TournamentSelection', {}), ('crossover', 'UniformCrossover', {}),
                     ('mutation', 'BinStringMutation', {}), ('new_generation', 'NewGeneration', {})):
        (s, o), = ok1(new(I, s, c, **kw), c)
        parts[p] = o
    kw = dict(parts)
    if storage:
        kw['storage'] = cls(I, s, storage)
    (s, col), = ok1(new(I, s, 'CollectorGA', **kw), 'CollectorGA')
    pc = sym('children_percent', 'float')
    set_bounds(pc, 0, 1)
    a = dict(num_individ=sym('num_individ', 'int', 4), num_generations=G, gens=GA_GENS['BinaryGA'](), children_percent=pc, early_stop=sym('early_stop', 'int', 0) if E is None else E,
             input_population=lst(s, [lst(s, [1, 2])]))
    s.events = ()
    with Summaries(I):
        for s, _ in runs(rep, r, meth(I, s, col, 'set_population', cls(I, s, pcls), **a), w):
            mid = attr(I, s, col, 'ga_data')
            for s2, v in runs(rep, r, meth(I, s, col, 'optimize'), w):
                yield s2, col, mid, w, a, parts


def stages(st):
    return [e for e in st.events if e[0] == 'stage' and e[1] != 'print']


def judge_budget(rep, s2, G, E, w, never=False):
    ups = [e for e in stages(s2) if e[1] == 'update']
    n = len(ups)
    rep.ob('C03/at most the configured number of generations is evaluated', s2, len([e for e in stages(s2) if e[1] == 'fitness']) <= G and n <= G, w, lambda: '%d evaluations, %d records for a budget of %d' % (
        len([e for e in stages(s2) if e[1] == 'fitness']), n, G))
    if n == 0 or n > G:
        return
    for j, e in enumerate(ups):
        d = N.of(e[3]) - N.of(E)
        if j < n - 1:
            rep.ob('C03/the run goes on only while the counter does not exceed early stop', s2, decide(s2, -d, False), e[5], lambda: 'continues after generation %d with counter %r > early stop %r' % (j, e[3], E))
        elif n < G:
            if never:
                rep.ob('C03/no early stop without a setting', s2, False, e[5], 'ends after %d of %d generations' % (n, G))
            else:
                rep.ob('C03/the run ends early only when the counter exceeds early stop', s2, decide(s2, d, True), e[5], lambda: 'ends after %d of %d generations with counter %r, early stop %r' % (n, G, e[3], E))


@rule('C03')
def budget(I, rep, tier):
    for name in GAS:
        for G in (1, 2, 3, 5, 26) if tier == 'quick' else (1, 2, 3, 4, 5, 8, 12, 26, 60, 105):
            for s2, ga, v, w, a in run_ga(I, rep, 'C03', name, G):
                judge_budget(rep, s2, G, a['early_stop'], w)
            for s2, ga, v, w, a in run_ga(I, rep, 'C03', name, G, early_stop=None):
                judge_budget(rep, s2, G, N.const(G), w, never=True)
    for G in (1, 2, 3, 5, 26):
        for storage in (None, 'MultiGaData'):
            for s2, col, mid, w, a, parts in collector(I, rep, 'C03', G, storage=storage):
                judge_budget(rep, s2, G, a['early_stop'], w)


def long_runs(I):
    """(budget, early stop, generation of the last improvement): long runs beyond every constant of the source, short through early stop"""
    big = I.constants(27, 10 ** 6)
    return [(G, E, stop) for G in sorted({120, 1001} | {c + 1 for c in big}) for E, stop in ((0, 1), (2, 4))] + [(E + stop + 9, E, stop) for E in sorted({60} | {c + d for c in big if c < 200 for d in (0, 1)}) for stop in (0, 3)]


@rule('C03')
def budget_long(I, rep, tier):
    for name, (G, E, stop) in itertools.product(GAS, long_runs(I)):
        for s2, ga, v, w, a in run_ga(I, rep, 'C03', name, G, stop, early_stop=E):
            judge_budget(rep, s2, G, N.const(E), w)


@rule('C04')
def order_long(I, rep, tier):
    for name, (G, E, stop) in itertools.product(GAS, long_runs(I)):
        for pr in (False, True):
            for s2, ga, v, w, a in run_ga(I, rep, 'C04', name, G, stop, early_stop=E, is_print=pr):
                judge_order(I, rep, s2, w, v)
                judge_print(rep, s2, pr, w)


def judge_order(I, rep, s2, w, result, pop_events=True):
    ev = stages(s2)
    seq = [e[1] for e in ev]
    rep.ob('C04/the initial population is filled once, before anything else', s2, seq[:1] == ['fill'] and seq.count('fill') == 1, w, lambda: ' '.join(seq))
    rest = [e for e in ev if e[1] != 'fill']
    rseq = [e[1] for e in rest]
    rep.ob('C04/the initial population is evaluated and recorded once before evolving', s2, rseq[:2] == ['fitness', 'update'], w, lambda: ' '.join(seq))
    body = rseq[2:]
    ok = len(body) % 6 == 0 and all(body[k:k + 6] == GENERATION for k in range(0, len(body), 6))
    rep.ob('C04/each generation runs selection, crossover, mutation, replacement, evaluation and recording once each in this order', s2, ok, w, lambda: ' '.join(seq))
    gds = {e[2] for e in rest}
    rep.ob('C04/all stages work on the same run data', s2, len(gds) == 1 and isinstance(next(iter(gds)), Ref), w, lambda: '%d run data objects' % len(gds))
    fills = [e for e in ev if e[1] == 'fill']
    if fills and rest:
        rep.ob('C04/the filled population is the one evaluated and evolved', s2, all(e[4] == fills[0][3] for e in rest), w, 'another population')
    comp = {}
    for e in rest:
        if e[1] != 'update':
            comp.setdefault(e[1], set()).add(e[3])
    if len(gds) == 1:
        rep.ob('C04/the data of the run are returned', s2, result == next(iter(gds)), w, lambda: show(s2, result))


@rule('C04')
def order(I, rep, tier):
    for name in GAS:
        for G in (1, 2, 3, 4, 26) if tier == 'quick' else (1, 2, 3, 4, 26, 105):
            for es in ('sym', None):
                for pr in (False, True):
                    if pr and G != 3:
                        continue
                    kw = {} if es else dict(early_stop=None)
                    for s2, ga, v, w, a in run_ga(I, rep, 'C04', name, G, is_print=pr, **kw):
                        judge_order(I, rep, s2, w, v)
                        judge_print(rep, s2, pr, w)
        if name in ('BinaryGA', 'VEGA', 'FFGA'):
            for s2, ga, v, w, a in run_ga(I, rep, 'C04', name, 3, is_gray=True):
                judge_order(I, rep, s2, w, v)
    for G in (1, 2, 3, 4, 26):
        for pcls in ('BinaryPopulation', 'CatPopulation'):
            for storage in (None, 'MultiGaData'):
                for s2, col, mid, w, a, parts in collector(I, rep, 'C04', G, pcls, storage):
                    judge_order(I, rep, s2, w, attr(I, s2, col, 'ga_data'))
                    for e in stages(s2):
                        k = {'replacement': 'new_generation'}.get(e[1], e[1])
                        if k in parts:
                            rep.ob('C04/the collector runs the components it was given', s2, e[3] == parts[k], w, lambda: '%s: %s' % (k, show(s2, e[3])))


def judge_print(rep, s2, pr, w):
    best = [i for i, e in enumerate(s2.events) if e[0] == 'stage' and e[1] == 'print']
    if pr:
        last = max(i for i, e in enumerate(s2.events) if e[0] == 'stage' and e[1] == 'update')
        rep.ob('C04/the best solution is printed when enabled', s2, any(i > last for i in best), w, 'is_print=True prints nothing')
    else:
        rep.ob('C04/nothing is printed when disabled', s2, not best and not any(e[0] == 'print' for e in s2.events), w, 'is_print=False prints')


# ------------------------------------------------------------------ C25
DEFAULTS = dict(obj_value=None, input_data=None, penalty=None, conditions=None, is_gray=False, children_percent=NF(N.of(Fr(95, 100)).d), early_stop=10, input_population=None,
                tournament_size=3, mutation_lvl='normal', transfer_parents='best')
# base class of the component -> {constructor parameter: setting}
USES = {'GaData': dict(num_generations='num_generations', children_percent='children_percent', early_stop='early_stop'),
        'BasePopulation': dict(num_individ='num_individ', gens='gens', input_population='input_population'),
        'BaseFitness': dict(obj_function='obj_function', obj_value='obj_value', input_data='input_data', penalty='penalty', conditions='conditions'),
        'TournamentSelection': dict(tournament_size='tournament_size'), 'VEGATournamentSelection': dict(tournament_size='tournament_size'),
        'BaseMutation': dict(mutation_lvl='mutation_lvl'), 'NewGeneration': dict(transfer_parents='transfer_parents')}
STAGE_BASE = dict((b, w) for b, w in STAGES)
DOC = {'BinaryGA': ('HyperbolaFitness', 'TournamentSelection', 'OnePointCrossover', 'BinStringMutation', 'NewGeneration'),
       'CombinatoryGA': ('HyperbolaFitness', 'TournamentSelection', 'OrderCrossover', None, 'NewGeneration'),
       'CategoricalGA': ('HyperbolaFitness', 'TournamentSelection', None, 'CategoricalMutation', 'NewGeneration'),
       'VEGA': ('VEGAHyperbolaFitness', 'VEGATournamentSelection', None, 'BinStringMutation', None),
       'FFGA': ('FFGAFitness', None, None, 'BinStringMutation', 'MultiNewGeneration')}


def judge_settings(I, rep, s2, name, a, w):
    built = {e[2]: e for e in s2.events if e[0] == 'new'}
    used = {}
    for e in stages(s2):
        if e[1] == 'update':
            used.setdefault('GaData', set()).add(e[2])
        elif e[1] == 'fill':
            used.setdefault('BasePopulation', set()).add(e[3])
        else:
            used.setdefault(dict((y, x) for x, y in STAGES)[e[1]], set()).add(e[3])
    for base, ps in USES.items():
        if base == 'BasePopulation':
            for o in used.get(base, ()):
                pe = [e for e in s2.events if e[0] == 'params' and e[1] == o]
                rep.ob('C25/the population is configured', s2, bool(pe), w, 'set_params is not called')
                for e in pe[-1:]:
                    compare(I, rep, s2, ps, e[2], a, base, e[3])
            continue
        stage = 'BaseSelection' if 'Selection' in base else base
        for o in used.get(stage, ()):
            if base not in mro_names(s2, o):
                if base == {'VEGA': 'VEGATournamentSelection', 'FFGA': None}.get(name, 'TournamentSelection'):
                    rep.ob('C25/%s selects by tournament' % name, s2, False, w, lambda: 'selection is %s' % mro_names(s2, o)[0])
                continue
            e = built.get(o)
            rep.ob('C25/components used in the run are built by it', s2, e is not None, w, lambda: show(s2, o))
            if e is not None:
                compare(I, rep, s2, ps, e[3], a, base, e[4])
    if 'is_gray' in a:
        g = a['is_gray'] in (True, TRUE)
        for o in used.get('BasePopulation', ()):
            rep.ob('C25/the Gray option selects the coding', s2, ('BinaryGrayPopulation' in mro_names(s2, o)) == g, w, lambda: 'is_gray=%s uses %s' % (g, mro_names(s2, o)[0]))
    # settings of the run data stay in force during the run
    for o in used.get('GaData', ()):
        for p, k in USES['GaData'].items():
            v = attr(I, s2, o, p)
            if v is not None:
                rep.ob('C25/%s of the run data is not changed by the run' % p, s2, same_deep(s2, v, wanted(a, k)), w, lambda: '%s is %s' % (p, show(s2, v)))


def wanted(a, k):
    if k == 'early_stop' and a[k] is None:
        return arg(a['num_generations'])
    return arg(a[k])


def compare(I, rep, s2, ps, env, a, base, site):
    for p, k in ps.items():
        if k not in a:
            continue
        got = env.get(p)
        want = wanted(a, k)
        if k == 'early_stop' and a[k] is None and got == NONE:
            want = NONE     # left to the run data, whose attribute is judged below
        rep.ob('C25/%s reaches the %s unchanged' % (k, base), s2, None if got is None and p not in env else same_arg(s2, got, want), site, lambda: '%s: %s instead of %s' % (p, show(s2, got), show(s2, want)))


def items_of(st, v):
    """elements of a list or tuple of known length, else None"""
    segs = v.segs if isinstance(v, Tup) else st.get(v.key).segs if isinstance(v, Ref) and st.get(v.key) is not None else None
    if segs is None or not all(isinstance(g, One) for g in segs):
        return None
    return [g.v for g in segs]


def same_arg(st, a, b):
    """the same setting: equal, or a sequence of equal elements (a defensive copy is the same setting)"""
    x, y = items_of(st, a), items_of(st, b)
    if x is not None and y is not None:
        return len(x) == len(y) and all3(same_arg(st, p, q) for p, q in zip(x, y))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return same_deep(st, a, b)
    if isinstance(b, Tup) or isinstance(a, Tup):
        return a == b or same_deep(st, a, b)
    return same(st, a, b)


def user_world(I, name, pen='DynamicPenalty'):
    """settings that need the heap: (state, kwargs)"""
    s = I.new_state()
    kw = {k: dct(s) for k in ('equality_intervals', 'equality_r_coef', 'inequality_intervals', 'inequality_r_coef')} if pen == 'StaticPenalty' else {}
    (s, po), = ok1(new(I, s, pen, **kw), pen)
    nobj = 2 if name in MULTI else 1
    conds = lst(s, [K(c) for c in ['optimize'] * nobj + ['<=', '!=']])
    ip = lst(s, [lst(s, [1, 2]), lst(s, [2, 1])])
    ov = lst(s, [sym('target0', 'num'), sym('target1', 'num')]) if name in MULTI else sym('target', 'num')
    return s, dict(penalty=po, conditions=conds, input_population=ip, obj_value=ov, input_data=sym('input_data', 'any'))


@rule('C25')
def settings(I, rep, tier):
    for name in GAS:
        for tp in ('best', 'random'):
            for es in ('sym', None):
                for gray in ((False, True) if name in ('BinaryGA', 'VEGA', 'FFGA') else (None,)):
                    for world_ in ('full', 'plain', 'lists'):
                        s, extra = user_world(I, name)
                        if world_ == 'plain':
                            extra = {}
                        elif world_ == 'lists':
                            extra.pop('conditions')
                            extra.pop('penalty')
                            extra['input_data'] = lst(s, [])
                            extra['gens'] = lst(s, GA_GENS.get(name, GA_GENS['BinaryGA'])().items())
                        G = sym('num_generations', 'int', 1) if world_ == 'full' else 2
                        a, fn = ga_args(I, s, name, G, transfer_parents=tp, **extra)
                        if es is None:
                            a['early_stop'] = None
                        if gray is not None:
                            a['is_gray'] = gray
                        rep.scenarios += 1
                        rep.cur = '%s, %s settings, transfer %s, early_stop %s, gray %s' % (name, world_, tp, es, gray)
                        w = where(I, s, name, 'optimize')
                        for s1, ga in runs(rep, 'C25', new(I, s, name, **a), w):
                            with Summaries(I):
                                res = meth(I, s1, ga, 'optimize')
                            for s2, v in runs(rep, 'C25', res, w):
                                judge_settings(I, rep, s2, name, a, w)


@rule('C25')
def subsets(I, rep, tier):
    """every setting also without the others"""
    for name in GAS:
        names = sorted(user_world(I, name)[1])
        for keys in [(k,) for k in names] + list(itertools.combinations(names, 2)) + [tuple(x for x in names if x != k) for k in names]:
            for pen in ('DynamicPenalty', 'AdaptivePenalty', 'StaticPenalty') if 'penalty' in keys and len(keys) == 1 else ('DynamicPenalty',):
                s, extra = user_world(I, name, pen)
                a, fn = ga_args(I, s, name, 2, **{k: extra[k] for k in keys})
                rep.scenarios += 1
                rep.cur = '%s with %s alone%s' % (name, ' and '.join(keys), ' (%s)' % pen if 'penalty' in keys else '')
                w = where(I, s, name, 'optimize')
                for s1, ga in runs(rep, 'C25', new(I, s, name, **a), w):
                    with Summaries(I):
                        res = meth(I, s1, ga, 'optimize')
                    for s2, v in runs(rep, 'C25', res, w):
                        judge_settings(I, rep, s2, name, a, w)


@rule('C25')
def defaults(I, rep, tier):
    """a parameter left out takes its documented default"""
    for name in GAS:
        s = I.new_state()
        a, fn = ga_args(I, s, name, 2)
        a = {k: a[k] for k in ('num_generations', 'num_individ', 'gens', 'obj_function')}
        rep.scenarios += 1
        rep.cur = '%s with defaults' % name
        w = where(I, s, name, 'optimize')
        for s1, ga in runs(rep, 'C25', new(I, s, name, **a), w):
            with Summaries(I):
                res = meth(I, s1, ga, 'optimize')
            for s2, v in runs(rep, 'C25', res, w):
                full = dict({k: x for k, x in DEFAULTS.items() if k != 'is_gray' or name in ('BinaryGA', 'VEGA', 'FFGA')}, **a)
                judge_settings(I, rep, s2, name, full, w)


@rule('C25')
def values(I, rep, tier):
    """falsy and textual values are settings too"""
    for name in GAS:
        for kw in (dict(mutation_lvl='weak'), dict(mutation_lvl='strong'), dict(mutation_lvl=0.0), dict(early_stop=0), dict(obj_value=0), dict(input_data=0), dict(input_data=K('')),
                   dict(children_percent=1.0), dict(mutation_lvl=1.0)):
            if name in MULTI and 'obj_value' in kw:
                continue
            for s2, ga, v, w, a in run_ga(I, rep, 'C25', name, 2, **kw):
                judge_settings(I, rep, s2, name, a, w)


def gens_variants(name):
    q = NF(N.of(Fr(1, 4)).d)
    if name == 'CombinatoryGA':
        return (tup(0, 3, 4), tup(0, 20, 12))
    if name == 'CategoricalGA':
        return (tup(tup(0, 3)), tup(tup(0, 3), tup(1, 5), tup(2, 9), tup(0, 1)))
    return (tup(tup(0, 7, 1)), tup(tup(0, 1, q)), tup(*[tup(j, j + 8, 1) for j in range(6)]), tup(tup(-3, 0, 1), tup(0, 1, 1), tup(0, 100, q)))


@rule('C25')
def genes(I, rep, tier):
    """for any number of genes"""
    for name in GAS:
        for g in gens_variants(name):
            for gray in ((False, True) if name in ('BinaryGA', 'VEGA', 'FFGA') else (None,)):
                kw = {} if gray is None else dict(is_gray=gray)
                for s2, ga, v, w, a in run_ga(I, rep, 'C25', name, 2, gens=g, **kw):
                    judge_settings(I, rep, s2, name, a, w)


def some_tuple(n):
    return UserFn('f', lambda st, key, a: tup(*[objval(key, j) for j in range(n)]))


@rule('C24')
def objectives_counted(I, rep, tier):
    """the ready-made VEGA selects for as many objectives as the problem has"""
    CONDS = (['optimize'] * 2, ['optimize'] * 4, ['optimize', '<=', 'optimize', '!='], ['!=', '<=', 'optimize', 'optimize'], ['optimize', '<=', 'optimize', '<=', '!=', 'optimize'],
             ['optimize', 'optimize', '<=', '<=', '<=', '<='])
    for data in (None, 0, 'sym'):
        for conds, n in [(c, c.count('optimize')) for c in CONDS] + [(None, n) for n in (2, 3, 4, 5, 7)]:
            s = I.new_state()
            kw = dict(obj_function=some_tuple(len(conds) if conds else n).t)
            if data is not None:
                kw['input_data'] = sym('input_data', 'any') if data == 'sym' else data
            if conds:
                (s, po), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                kw.update(conditions=lst(s, [K(c) for c in conds]), penalty=po)
            a, _ = ga_args(I, s, 'VEGA', 2, **kw)
            w = where(I, s, 'VEGA', 'optimize')
            rep.scenarios += 1
            rep.cur = 'VEGA with %s, input data %s' % (conds or '%d objectives' % n, data)
            for s1, ga in runs(rep, 'C24', new(I, s, 'VEGA', **a), w):
                with Summaries(I):
                    res = meth(I, s1, ga, 'optimize')
                for s2, v in runs(rep, 'C24', res, w):
                    built = {e[2]: e for e in s2.events if e[0] == 'new'}
                    for o in {e[3] for e in stages(s2) if e[1] == 'selection'}:
                        k = attr(I, s2, o, 'num_objectives')
                        rep.ob('C24/the selection of VEGA covers every objective', s2, None if k is None else same(s2, k, N.const(n)), built[o][4] if o in built else w,
                               lambda: 'num_objectives is %s for %d objectives' % (show(s2, k), n))


@rule('C25')
def collected(I, rep, tier):
    for pcls in ('BinaryPopulation', 'CatPopulation', 'BinaryGrayPopulation', 'OrderCatPopulation'):
        for storage in (None, 'MultiGaData'):
            for s2, col, mid, w, a, parts in collector(I, rep, 'C25', 2, pcls, storage):
                built = {e[2]: e for e in s2.events if e[0] == 'new'}
                gd = attr(I, s2, col, 'ga_data')
                e = built.get(gd)
                rep.ob('C25/run data are of the requested storage type', s2, e is not None and e[1].info.name == (storage or 'GaData'), w, lambda: show(s2, gd))
                if e is not None:
                    compare(I, rep, s2, USES['GaData'], e[3], a, 'GaData', e[4])
                fills = [x[3] for x in stages(s2) if x[1] == 'fill']
                for o in fills:
                    rep.ob('C25/the population is of the requested type', s2, mro_names(s2, o)[:1] == [pcls], w, lambda: mro_names(s2, o)[0])
                    pe = [x for x in s2.events if x[0] == 'params' and x[1] == o]
                    rep.ob('C25/the population is configured', s2, bool(pe), w, 'set_params is not called')
                    for x in pe[-1:]:
                        compare(I, rep, s2, USES['BasePopulation'], x[2], a, 'BasePopulation', x[3])


# ------------------------------------------------------------------ the algorithm object and the user's function
@rule('C28')
def settings_stay(I, rep, tier):
    """running an algorithm leaves every one of its settings as it was, whatever they are"""
    from .runs import own_state, diff
    for name in GAS:
        for kw in (dict(), dict(mutation_lvl='weak'), dict(mutation_lvl='normal'), dict(mutation_lvl='strong'), dict(mutation_lvl=0.0), dict(mutation_lvl=1.0), dict(early_stop=None),
                   dict(early_stop=0), dict(transfer_parents='random'), dict(children_percent=1.0), dict(is_print=True), dict(num_individ=5), dict(num_individ=150), dict(input_data=0),
                   dict(is_gray=True), dict(tournament_size=2), dict(tournament_size=60)):
            if 'is_gray' in kw and name not in ('BinaryGA', 'VEGA', 'FFGA') or 'tournament_size' in kw and name == 'FFGA':
                continue
            for G in (1, 3):
                s = I.new_state()
                a, fn = ga_args(I, s, name, G, **kw)
                w = where(I, s, name, 'optimize')
                rep.scenarios += 1
                rep.cur = '%s with %s, num_generations %d' % (name, kw or 'any settings', G)
                for s, ga in ok1(new(I, s, name, **a), name):
                    before = own_state(I, s, ga)
                    with Summaries(I, None if G == 1 else 1):
                        res = meth(I, s, ga, 'optimize')
                    for s2, v in runs(rep, 'C28', res, w):
                        after = own_state(I, s2, ga)
                        rep.ob('C28/running an algorithm does not change its settings', s2, not diff(before, after), w, lambda: 'changed: %s' % diff(before, after))


@rule('C18')
def driver_calls(I, rep, tier):
    """calls an algorithm makes to the user's function itself, outside the evaluation of the population"""
    for name in GAS:
        for what in ('absent', 'opaque', 'zero', 'empty list', 'False', 'empty string', 'empty dict', 'list'):
            s = I.new_state()
            kw = {}
            if what != 'absent':
                kw['input_data'] = inp = {'opaque': lambda: sym('input', 'obj'), 'zero': lambda: N.const(0), 'empty list': lambda: lst(s, []), 'False': lambda: FALSE,
                                          'empty string': lambda: K(''), 'empty dict': lambda: dct(s), 'list': lambda: lst(s, [sym('in0', 'num')])}[what]()
            a, fn = ga_args(I, s, name, 2, **kw)
            w = where(I, s, name, 'optimize')
            rep.scenarios += 1
            rep.cur = '%s, input data: %s' % (name, what)
            for s, ga in ok1(new(I, s, name, **a), name):
                with Summaries(I):
                    res = meth(I, s, ga, 'optimize')
                for s2, v in runs(rep, 'C18', res, w):
                    for e in fn.calls(s2):
                        x = e[2]
                        if what == 'absent':
                            rep.ob('C18/called with the genes alone without input data', s2, len(x) == 1 and not e[4], w, lambda: 'called with %s' % (e[3],))
                        else:
                            rep.ob('C18/called with (input_data, genes)', s2, len(x) == 2 and not e[4] and x[0] == inp, w, lambda: 'called with %s' % (e[3],))


@rule('C28')
def collector_again(I, rep, tier):
    """setting the population of a collector again starts from fresh run data and a fresh population"""
    for pcls, storage in (('BinaryPopulation', None), ('BinaryGrayPopulation', 'MultiGaData')):
        for s, col, mid, w, a, parts in collector(I, rep, 'C28', 2, pcls, storage):
            one, pop = attr(I, s, col, 'ga_data'), attr(I, s, mid, 'population')
            s.events = ()
            for change in ({}, dict(num_generations=3)):
                rep.scenarios += 1
                rep.cur = 'CollectorGA with %s, population set again%s' % (pcls, ' with other settings' if change else '')
                with Summaries(I):
                    for s2, _ in runs(rep, 'C28', meth(I, s.clone(), col, 'set_population', cls(I, s, pcls), **dict(a, **change)), w):
                        two = attr(I, s2, col, 'ga_data')
                        ok = isinstance(two, Ref) and two != one
                        rep.ob('C28/a new population starts from fresh run data', s2, ok, w, 'the run data of the earlier run is used again')
                        if not ok:
                            continue
                        rep.ob('C28/a new population starts from fresh run data', s2, attr(I, s2, two, 'population') != pop, w, 'the earlier population is used again')
                        n = to_num(attr(I, s2, two, 'idx_generation'))
                        rep.ob('C28/a new population starts from fresh run data', s2, None if n is None else is_zero(s2, n), w, lambda: 'generation index %r' % n)
                        old = [attr(I, s2, one, k) for k in ('historical_best', 'historical_mediocre', 'historical_worst')]
                        rep.ob('C28/a new population starts from fresh run data', s2, not any(attr(I, s2, two, k) in old for k in ('historical_best', 'historical_mediocre', 'historical_worst')), w,
                               'a history list of the earlier run is used again')
                        for s3, _ in runs(rep, 'C28', meth(I, s2, col, 'optimize'), w):
                            rep.ob('C28/an algorithm can be run again', s3, all(e[2] in (two, None) for e in stages(s3)), w, 'a stage works on the run data of the earlier run')
