"""Single-objective evaluation, conditions, penalties, fitness (C17-C21)."""
from .common import *
from .select import fkeys


def eval_world(I, kind, n, scored, mg=False, glen=4, multi=0, gens=None):
    """population where the members listed in `scored` are already evaluated; the others are as crossover leaves them.
    -> [(st, gd, pop, inds)]"""
    out = []
    for s, pop, inds in population(I, I.new_state(), kind, n, glen=glen, multi=multi, num_individ=max(1, n - 1), gens=gens):
        for i, d in enumerate(inds):
            if kind == 'gray':           # the Gray decoder branches on every bit: one concrete code per individual
                setfield(s, d, 'genotype', lst(s, [K(c) for c in ('0110', '1011', '0001', '1101')[i % 4][:glen]]))
            if i in scored:
                if scored[i] is not None:
                    setfield(s, d, 'score', scored[i])
            else:
                setfield(s, d, 'score', None)
                setfield(s, d, 'obj_score', None)
                setfield(s, d, 'feasible', TRUE)
                if kind in BINARY:
                    setfield(s, d, 'phenotype', None)
        for s, gd in gadata(I, s, pop, 'MultiGaData' if mg else 'GaData'):
            s.events = ()
            out.append((s, gd, pop, inds))
    return out


def decoded(I, st, pop, inds, kind):
    """snapshots of every member's decoded genes (by the population's own decoder)"""
    if kind not in BINARY:
        return [snapshot(st, field(st, d, 'genotype')) for d in inds]
    s = st.clone()
    res = meth(I, s, pop, 'get_phenotype')
    if len(res) != 1 or isinstance(res[0][1], Exc):
        return None
    s = res[0][0]
    return [snapshot(s, field(s, d, 'phenotype')) for d in inds]


CASES = [{}, {0: None}, {1: None}, {0: 0, 2: None}, {0: None, 1: 0, 2: None}, {2: NF({})}]


@rule('C17')
def evaluated_once(I, rep, tier):
    for kind in POPCLS:
        for cond in (False, True):
            for scored, target in itertools.product(CASES, (True, False)):
                if target and (cond or kind == 'gray') and len(scored) < 2:
                    continue
                for s, gd, pop, inds in eval_world(I, kind, 3, scored):
                    fn = tuple_fn(2) if cond else scalar_fn()
                    kw = {}
                    if cond:
                        (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                        kw = dict(penalty=pen, conditions=lst(s, [K('optimize'), K('<=')]))
                    dec = decoded(I, s, pop, inds, kind)
                    rep.scenarios += 1
                    rep.cur = '%s, %s task, already evaluated: %s' % (POPCLS[kind], 'conditional' if cond else 'plain', sorted(scored))
                    w = where(I, s, 'HyperbolaFitness', 'execute')
                    before = {i: {k: snapshot(s, field(s, d, k)) for k in fkeys(kind)} for i, d in enumerate(inds)}
                    for s, f in ok1(new(I, s, 'HyperbolaFitness', obj_function=fn.t, obj_value=sym('target', 'num') if target else None, **kw), 'HyperbolaFitness'):
                        with Penalised(I):
                            res = meth(I, s, f, 'execute', gd)
                        for s2, _ in runs(rep, 'C17', res, w):
                            judge_eval(I, rep, s2, gd, inds, scored, dec, before, fn, kind, w)


def judge_eval(I, rep, s2, gd, inds, scored, dec, before, fn, kind, w):
    now = elems(s2, attr(I, s2, gd, 'population'))
    rep.ob('C17/population keeps its members in order', s2, None if now is None else now == list(inds), w, 'members changed')
    calls = [e[3][-1] if e[3] else None for e in fn.calls(s2)]
    want = [dec[i] for i in range(len(inds)) if i not in scored] if dec is not None else None
    if want is not None:
        rest = list(calls)
        for i in range(len(inds)):
            if i in scored:
                continue
            rep.ob('C17/evaluated on its own decoded genes', s2, dec[i] in rest, w, lambda: 'individual %d: the function is called with %s' % (i, calls))
            if dec[i] in rest:
                rest.remove(dec[i])
        rep.ob('C17/one evaluation per unevaluated individual', s2, len(calls) == len(want), w, lambda: '%d evaluations for %d individuals' % (len(calls), len(want)))
    for i, d in enumerate(inds):
        rep.ob('C17/genes stay in place', s2, snapshot(s2, field(s2, d, 'genotype')) == before[i]['genotype'], w, lambda: 'individual %d: genotype %s' % (i, show(s2, field(s2, d, 'genotype'))))
        if kind in BINARY and dec is not None:
            exp = before[i]['phenotype'] if i in scored else dec[i]
            rep.ob('C17/decoded values in place', s2, snapshot(s2, field(s2, d, 'phenotype')) == exp, w, lambda: 'individual %d: phenotype %s' % (i, show(s2, field(s2, d, 'phenotype'))))
        if i in scored:
            for k in ('score', 'obj_score', 'feasible'):
                rep.ob('C17/evaluated individual keeps its %s' % k, s2, snapshot(s2, field(s2, d, k)) == before[i][k], w, lambda: 'individual %d: %s' % (i, show(s2, field(s2, d, k))))
            continue
        if dec is None:
            continue
        own = objval(dec[i])
        rep.ob('C17/objective value is that of the evaluation', s2, same(s2, field(s2, d, 'obj_score'), own), w,
               lambda: 'individual %d: obj_score %s' % (i, show(s2, field(s2, d, 'obj_score'))))
        sc = to_num(field(s2, d, 'score'))
        rep.ob('C17/every individual gets a fitness', s2, sc is not None, w, lambda: 'individual %d: score %s' % (i, show(s2, field(s2, d, 'score'))))
        if sc is not None:
            ats = collect(sc, set())
            other = [t for t in ats if t.k == 'objv' and t.a[1] != dec[i]]
            old = [t for t in ats if t.k == 'sym' and t.a[0][:2] in ('xs', 'xo')]
            rep.ob('C17/fitness derives from the own evaluation', s2, own in ats and not other and not old, w, lambda: 'individual %d: score %r' % (i, sc))


def concrete_codes(kind, codes):
    """genotypes of individuals given by small numbers: equal numbers, equal genes"""
    if kind in BINARY:
        return [[K(c) for c in format(c % 16, '04b')] for c in codes]
    return [[N.const((c + 3 * j) % 10) for j in range(4)] for c in codes]


@rule('C17')
def equal_genes(I, rep, tier):
    """individuals with the same genes: each still gets an evaluation of its own, also when its genes are those of an
    evaluated individual or of the best solution found so far; and many individuals at once"""
    worlds = [((3, 3, 5, 5), {2: None}), ((5, 3, 5, 3), {0: None, 3: None}), ((5, 5, 5), {}), ((5, 6, 5), {0: None})]
    worlds += [(tuple(range(n)), {i: None for i in range(0, n, 7)}) for n in sorted({12} | {t + d for t in I.thresholds(60) for d in (0, 1)})]
    for kind, cond, (codes, scored), best in itertools.product(POPCLS, (False, True), worlds, (False, True)):
        n = len(codes)
        if n > 4 and (best or cond):
            continue
        for s, gd, pop, inds in eval_world(I, kind, n, scored, gens={'bin': tup(tup(0, 15, 1)), 'gray': tup(tup(0, 15, 1))}.get(kind)):
            for i, (d, g) in enumerate(zip(inds, concrete_codes(kind, codes))):
                setfield(s, d, 'genotype', lst(s, g))
                if i in scored:
                    setfield(s, d, 'feasible', K(i % 2 == 0))
                    if kind in BINARY:
                        setfield(s, d, 'phenotype', None)
            dec = decoded(I, s, pop, inds, kind)
            if dec is None:
                raise Undecided('decoder')
            if kind in BINARY:
                for i in scored:
                    setfield(s, inds[i], 'phenotype', lst(s, list(dec[i][1])))
            if best:
                b = [i for i in range(n) if codes[i] == 5][0]
                f = dict(genotype=lst(s, concrete_codes(kind, [5])[0]), score=sym('best_score', 'num'), obj_score=sym('best_obj', 'num'), feasible=TRUE, idx_generation=1, idx_individ=0)
                if kind in BINARY:
                    f['phenotype'] = lst(s, list(dec[b][1]))
                setattrs(I, s, gd, best_solution=dct(s, **f))
            fn, kw = scalar_fn(), {}
            if best and not cond:           # a penalty without conditions does not make the task conditional
                (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                kw = dict(penalty=pen)
            if cond:
                fn = tuple_fn(2)
                (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                kw = dict(penalty=pen, conditions=lst(s, [K('optimize'), K('<=')]))
            rep.scenarios += 1
            rep.cur = '%s, %s task, individuals (equal numbers, equal genes) %s, already evaluated: %s%s' % (POPCLS[kind], 'conditional' if cond else 'plain', codes, sorted(scored), ', best solution so far has the genes of 5%s' % (', penalty without conditions' if not cond else '') if best else '')
            w = where(I, s, 'HyperbolaFitness', 'execute')
            before = {i: {k: snapshot(s, field(s, d, k)) for k in fkeys(kind)} for i, d in enumerate(inds)}
            for s, f in ok1(new(I, s, 'HyperbolaFitness', obj_function=fn.t, **kw), 'HyperbolaFitness'):
                with Penalised(I):
                    res = meth(I, s, f, 'execute', gd)
                for s2, _ in runs(rep, 'C17', res, w):
                    judge_eval(I, rep, s2, gd, inds, scored, dec, before, fn, kind, w)


def collect(v, acc):
    """atoms a number is computed from (an answer of the user's function is one atom)"""
    if isinstance(v, T):
        if v not in acc:
            acc.add(v)
            if v.k != 'objv':
                for a in v.a:
                    collect(a, acc)
    elif isinstance(v, N):
        for t in v.atoms():
            collect(t, acc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            collect(x, acc)
    elif isinstance(v, (Tup, StrV)):
        collect(v.segs, acc)
    elif isinstance(v, One):
        collect(v.v, acc)
    return acc


class Penalised:
    """while active, the penalty classes answer with one opaque non-negative number determined by the values they are given"""
    NAMES = ('DynamicPenalty', 'AdaptivePenalty', 'StaticPenalty')

    def __init__(self, I, value=None):
        self.I, self.value = I, value

    def hook(self, I, st, fn, args, kw):
        vals = kw.get('values')
        if vals is None and len(args) > 2:
            vals = args[2]
        st.ev('penalty', snapshot(st, vals) if vals is not None else None)
        if self.value is not None:
            return [(st, self.value)]
        t = mk('pen', (snapshot(st, vals),), 'num')
        set_bounds(t, 0)
        return [(st, t)]

    def __enter__(self):
        for n in self.NAMES:
            self.I.hooks[(n, 'execute')] = self.hook

    def __exit__(self, *a):
        for n in self.NAMES:
            self.I.hooks.pop((n, 'execute'), None)


# ------------------------------------------------------------------ C18
@rule('C18')
def call_shape(I, rep, tier):
    for cls_, multi in (('HyperbolaFitness', 0), ('VEGAHyperbolaFitness', 2), ('FFGAFitness', 2)):
        for what in ('absent', 'opaque', 'zero', 'empty list', 'False', 'empty string', 'empty dict', 'list'):
            kind = 'bin'
            for s, gd, pop, inds in eval_world(I, kind, 2, {}, mg=bool(multi)):
                kw = {}
                if what != 'absent':
                    inp = {'opaque': lambda: sym('input', 'obj'), 'zero': lambda: N.const(0), 'empty list': lambda: lst(s, []), 'False': lambda: FALSE,
                           'empty string': lambda: K(''), 'empty dict': lambda: dct(s), 'list': lambda: lst(s, [sym('in0', 'num')])}[what]()
                    kw = dict(input_data=inp)
                dec = decoded(I, s, pop, inds, kind)
                fn = tuple_fn(multi) if multi else scalar_fn()
                if multi:
                    kw['obj_value'] = lst(s, [sym('t%d' % j, 'num') for j in range(multi)])
                rep.scenarios += 1
                rep.cur = '%s, input data: %s' % (cls_, what)
                w = where(I, s, cls_, 'calc_obj_func') if _has(I, s, cls_, 'calc_obj_func') else where(I, s, cls_, 'execute')
                for s, f in ok1(new(I, s, cls_, obj_function=fn.t, **kw), cls_):
                    for s2, _ in runs(rep, 'C18', meth(I, s, f, 'execute', gd), w):
                        cs = fn.calls(s2)
                        rep.ob('C18/the function is called', s2, bool(cs), w, 'never called')
                        for e in cs:
                            a = e[2]
                            if what == 'absent':
                                rep.ob('C18/called with the genes alone without input data', s2, len(a) == 1 and not e[4] and (dec is None or e[3][0] in dec), w, lambda: 'called with %s' % (e[3],))
                            else:
                                rep.ob('C18/called with (input_data, genes)', s2, len(a) == 2 and not e[4] and a[0] == inp and (dec is None or e[3][1] in dec), w, lambda: 'called with %s' % (e[3],))


def _has(I, st, name, m):
    c = scn.cls(I, st, name)
    v, _ = I.class_lookup(st, c.info.mro, m)
    return v is not None


@rule('C18')
def answer_checked(I, rep, tier):
    def answers(st):
        yield 'a number', 1, lambda s, key, a: objval(key)
        for n in (2, 3, 4):
            yield '%d values (tuple)' % n, n, lambda s, key, a, n=n: tup(*[objval(key, j) for j in range(n)])
            yield '%d values (list)' % n, n, lambda s, key, a, n=n: lst(s, [objval(key, j) for j in range(n)])
        yield 'one value in a tuple', '1t', lambda s, key, a: tup(objval(key))
    for conds in (None, ['optimize', '<='], ['<=', 'optimize', '!=']):
        for label, n, ret in answers(None):
            for s, gd, pop, inds in eval_world(I, 'cat', 1, {}):
                fn = UserFn('f', ret)
                kw = {}
                if conds:
                    (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                    kw = dict(penalty=pen, conditions=lst(s, [K(c) for c in conds]))
                rep.scenarios += 1
                rep.cur = 'conditions %s, the function returns %s' % (conds, label)
                w = where(I, s, 'HyperbolaFitness', 'execute')
                for s, f in ok1(new(I, s, 'HyperbolaFitness', obj_function=fn.t, **kw), 'HyperbolaFitness'):
                    res = meth(I, s, f, 'execute', gd)
                    if n == '1t' and not conds:
                        continue
                    if (conds is None and n == 1) or (conds is not None and n == len(conds)):
                        runs(rep, 'C18/correct number of values is accepted', res, w)
                    else:
                        raises(rep, 'C18/wrong number of values is rejected', res, w, 'an answer of %s' % label)


# ------------------------------------------------------------------ C19
CONDS = [['optimize', '<='], ['<=', 'optimize'], ['optimize', '!='], ['optimize', '<=', '!='], ['<=', 'optimize', '!='], ['!=', '<=', 'optimize'], ['<=', '<=', 'optimize', '!=']]
MCONDS = [['optimize', 'optimize', '<='], ['<=', 'optimize', 'optimize'], ['optimize', '<=', 'optimize', '!='], ['!=', 'optimize', '<=', 'optimize']]


def satisfied(st, conds, vals):
    """facts that all conditions hold -> state or None if impossible"""
    s = st.clone()
    for c, v in zip(conds, vals):
        p = to_num(v)
        if c == '<=':
            if not s.assume(-p):
                return None
        elif c == '!=':
            if not s.assume_eq(p) or not s._neq_check(p):
                return None
            if s.lit(('eqn', _canon(p))) is False:
                return None
    return s


def _canon(p):
    from ..interp import Interp
    return Interp.canon_eq(None, p) if False else p


@rule('C19')
def flag(I, rep, tier):
    for cls_, table, mg in (('HyperbolaFitness', CONDS, False), ('VEGAHyperbolaFitness', MCONDS, True), ('FFGAFitness', MCONDS, True)):
        for conds in table:
            if tier == 'quick' and cls_ == 'FFGAFitness' and len(conds) > 3:
                continue
            n = 1
            for s, gd, pop, inds in eval_world(I, 'bin', n, {}, mg=mg):
                fn = tuple_fn(len(conds))
                (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                dec = decoded(I, s, pop, inds, 'bin')
                rep.scenarios += 1
                rep.cur = '%s, conditions %s' % (cls_, conds)
                w = where(I, s, cls_, 'execute')
                for s, f in ok1(new(I, s, cls_, obj_function=fn.t, penalty=pen, conditions=lst(s, [K(c) for c in conds])), cls_):
                    seen = set()
                    for s2, _ in runs(rep, 'C19', meth(I, s, f, 'execute', gd), w):
                        judge_flag(rep, s2, inds, conds, dec, w, seen)
                    rep.ob('C19/both outcomes are possible', None, seen == {True, False}, w, 'only %s' % seen)
    # without conditions
    for cls_, mg in (('HyperbolaFitness', False), ('VEGAHyperbolaFitness', True), ('FFGAFitness', True)):
        for pen in (False, True):
            for s, gd, pop, inds in eval_world(I, 'bin', 2, {}, mg=mg):
                fn = tuple_fn(2) if mg else scalar_fn()
                kw = {}
                if pen:
                    (s, p), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                    kw = dict(penalty=p)
                rep.scenarios += 1
                rep.cur = '%s without conditions%s' % (cls_, ', with a penalty object' if pen else '')
                w = where(I, s, cls_, 'execute')
                for s, f in ok1(new(I, s, cls_, obj_function=fn.t, **kw), cls_):
                    for s2, _ in runs(rep, 'C19', meth(I, s, f, 'execute', gd), w):
                        for d in inds:
                            rep.ob('C19/feasible without conditions', s2, field(s2, d, 'feasible') == TRUE, w, lambda: show(s2, d))


def judge_flag(rep, s2, inds, conds, dec, w, seen):
    for i, d in enumerate(inds):
        fl = field(s2, d, 'feasible')
        vals = [objval(dec[i], j) for j in range(len(conds))]
        cv = [(c, v) for c, v in zip(conds, vals) if c != 'optimize']
        cs, vs = [c for c, _ in cv], [v for _, v in cv]
        if fl == TRUE:
            seen.add(True)
            ok = all(s2.facts.entails(-to_num(v)) and (c == '<=' or s2.facts.entails(to_num(v))) for c, v in cv)
            rep.ob('C19/marked feasible only if all conditions hold', s2, ok, w, lambda: 'feasible with values of %s known only as %s' % (cs, s2.facts.lin))
        elif fl == FALSE:
            seen.add(False)
            rep.ob('C19/marked infeasible only if a condition is violated', s2, satisfied(s2, cs, vs) is None, w,
                   lambda: 'infeasible although %s may all hold' % (cs,))
        else:
            rep.ob('C19/the flag is set', s2, None if fl is not None else False, w, lambda: show(s2, d))


@rule('C19')
def flag_of_each(I, rep, tier):
    """several individuals: flags do not leak from one to the next; an evaluated individual keeps its flag"""
    conds = ['<=', 'optimize', '!=']
    for cls_, mg in (('HyperbolaFitness', False),):
        for s, gd, pop, inds in eval_world(I, 'cat', 3, {1: None}, mg=mg):
            setfield(s, inds[1], 'feasible', FALSE)
            fn = tuple_fn(3)
            (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
            dec = decoded(I, s, pop, inds, 'cat')
            rep.scenarios += 1
            rep.cur = '%s, three individuals, the second already evaluated and infeasible' % cls_
            w = where(I, s, cls_, 'execute')
            for s, f in ok1(new(I, s, cls_, obj_function=fn.t, penalty=pen, conditions=lst(s, [K(c) for c in conds])), cls_):
                seen = set()
                for s2, _ in runs(rep, 'C19', meth(I, s, f, 'execute', gd), w):
                    judge_flag(rep, s2, [inds[0]], conds, [dec[0]], w, seen)
                    judge_flag(rep, s2, [inds[2]], conds, [dec[2]], w, seen)
                    rep.ob('C19/evaluated individual keeps its flag', s2, field(s2, inds[1], 'feasible') == FALSE, w, 'changed')


@rule('C19')
def many_conditions(I, rep, tier):
    """more conditions: all of them hold, or exactly one is violated by a little or a lot, on either side"""
    for cls_, mg, k in itertools.product(('HyperbolaFitness', 'VEGAHyperbolaFitness', 'FFGAFitness'), (None,), sorted({5, 12} | {t + d for t in I.thresholds(40) for d in (0, 1)})):
        mg = cls_ != 'HyperbolaFitness'
        for signs in ('<=', '!=', 'mixed'):
            cs = [signs if signs != 'mixed' else ('!=', '<=', '<=')[j % 3] for j in range(k)]
            conds = list(cs)
            for a in (2, k) if mg else (k // 3,):
                conds.insert(a, 'optimize')
            bad = [None] + (list(range(k)) if k < 10 or tier != 'quick' else sorted({0, 1, k // 2, k - 2, k - 1} | {t for t in I.thresholds(40) if t < k}))
            for b in bad:
                for v in (Fr(3), Fr(-3), Fr(1, 1000000)) if b is not None else (None,):
                    if b is not None and cs[b] == '<=' and v < 0:
                        continue
                    vals = [Fr(0) if c == '!=' else (Fr(-2), Fr(0))[j % 2] for j, c in enumerate(cs)]
                    if b is not None:
                        vals[b] = v
                    it = iter(vals)
                    full = [next(it) if c != 'optimize' else Fr(1 + j) for j, c in enumerate(conds)]
                    for s, gd, pop, inds in eval_world(I, 'cat', 1, {}, mg=mg):
                        if mg:
                            setfield(s, inds[0], 'phenotype', lst(s, [sym('ph', 'num')]))
                        fn = UserFn('f', lambda st, key, a: tup(*[nv(N.of(x)) for x in full]))
                        (s, pen), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                        rep.scenarios += 1
                        rep.cur = '%s, conditions %s, values %s' % (cls_, conds, [str(x) for x in full])
                        w = where(I, s, cls_, 'execute')
                        for s, f in ok1(new(I, s, cls_, obj_function=fn.t, penalty=pen, conditions=lst(s, [K(c) for c in conds])), cls_):
                            with Penalised(I):
                                res = meth(I, s, f, 'execute', gd)
                            for s2, _ in runs(rep, 'C19', res, w):
                                fl = field(s2, inds[0], 'feasible')
                                rep.ob('C19/marked feasible exactly if all conditions hold', s2, fl == K(b is None), w, lambda: 'feasible: %r' % fl)


# ------------------------------------------------------------------ C20
PCONDS = [['<='], ['!='], ['<=', '!='], ['!=', '<='], ['<=', '<='], ['!=', '!=']]


def make_penalty(I, s, name, conds, opaque):
    """-> [(st, penalty)]; opaque: coefficients symbolic and positive"""
    kw = {}
    if opaque is not True and opaque in (1, 3):
        kw = dict(betta=opaque)
    elif name == 'DynamicPenalty' and opaque:
        kw = dict(delta=sym('delta', 'num'), c=sym('c', 'num'))
    elif name == 'AdaptivePenalty' and opaque:
        kw = dict(delta=sym('delta', 'num'))
    for v in kw.values():
        if isinstance(v, T):
            s.assume(N.atom(v), True)
    if name == 'StaticPenalty':
        tabs = {'<=': ({}, {}), '!=': ({}, {})}
        for i, c in enumerate(conds):
            if c not in tabs:
                continue
            a, b = sym('r%d_0' % i, 'num'), sym('r%d_1' % i, 'num')
            s.assume(N.atom(a), True)
            s.assume(N.atom(b) - N.atom(a))
            tabs[c][0][i] = lst(s, [tup(0, 10), tup(10, nv(N.atom(ops.INF)))])
            tabs[c][1][i] = lst(s, [a, b])
        mkd = lambda d: Ref(s.alloc(Obj('dict', fields={N.const(k): v for k, v in d.items()})))
        kw = dict(equality_intervals=mkd(tabs['!='][0]), equality_r_coef=mkd(tabs['!='][1]), inequality_intervals=mkd(tabs['<='][0]), inequality_r_coef=mkd(tabs['<='][1]))
    return ok1(new(I, s, name, **kw), name)


def extra_args(I, s, name, gen, feas):
    if name == 'DynamicPenalty':
        return dict(iter_generation=gen)
    if name == 'AdaptivePenalty':
        return dict(iter_generation=gen, best_individ=dct(s, feasible=feas))
    return {}


VARIANTS = [('DynamicPenalty', TRUE, False), ('DynamicPenalty', TRUE, True), ('AdaptivePenalty', TRUE, False), ('AdaptivePenalty', FALSE, True), ('StaticPenalty', TRUE, False),
            ('DynamicPenalty', TRUE, 3), ('AdaptivePenalty', TRUE, 3)]


@rule('C20')
def amount(I, rep, tier):
    for name, feas, opaque in VARIANTS:
        for conds in PCONDS:
            for gen0 in (False, True):
                if gen0 and name == 'StaticPenalty':
                    continue
                st = I.new_state()
                for s, p in make_penalty(I, st, name, conds, opaque):
                    gen = N.const(0) if gen0 else sym('gen', 'int', 1)
                    vals = [sym('v%d' % i, 'num') for i in range(len(conds))]
                    rep.scenarios += 1
                    rep.cur = '%s%s, conditions %s, best individual feasible: %s' % (name, ' at generation 0' if gen0 else '', conds, feas.v)
                    w = where(I, s, name, 'execute')
                    cv, vv = lst(s, [K(c) for c in conds]), lst(s, vals)
                    snap = (snapshot(s, cv), snapshot(s, vv))
                    for s2, r in runs(rep, 'C20', meth(I, s, p, 'execute', conditionals=cv, values=vv, **extra_args(I, s, name, gen, feas)), w):
                        x = to_num(r)
                        if x is None:
                            rep.ob('C20/a number', s2, None, w)
                            continue
                        rep.ob('C20/arguments are not modified', s2, (snapshot(s2, cv), snapshot(s2, vv)) == snap, w, 'values or conditions changed')
                        rep.ob('C20/never negative', s2, decide(s2, x, False), w, lambda: '%r' % x)
                        sat = [viol(s2, c, v) is False for c, v in zip(conds, vals)]
                        if all(sat):
                            rep.ob('C20/zero when all conditions hold', s2, is_zero(s2, x), w, lambda: '%r' % x)
                        if gen0:
                            continue
                        for i, (c, v) in enumerate(zip(conds, vals)):
                            k = viol(s2, c, v)
                            if k is None or k is False:
                                # a satisfied condition does not count
                                if k is False:
                                    z = nv(subst_n(x, {v: N.const(0)}))
                                    rep.ob('C20/a satisfied condition counts nothing', s2, is_zero(s2, N.of(z) - x), w, lambda: '%r with condition %d satisfied' % (x, i))
                                continue
                            e = sym('more', 'num')
                            s3 = s2.clone()
                            s3.assume(N.atom(e), True)
                            more = subst_n(x, {v: nv(N.atom(v) + N.atom(e).scale(k))})
                            rep.ob('C20/grows with the amount of a violation', s3, decide(s3, more - x), w, lambda: 'condition %d (%s): %r' % (i, c, x))


def penalty_at(I, rep, name, kw, gen, feas, c):
    """-> [(st, penalty of a violation of c by the symbolic amount, where)]"""
    out = []
    s = I.new_state()
    v = sym('amount', 'num')
    s.assume(N.atom(v), True)
    for s, p in ok1(new(I, s, name, **kw), name):
        w = where(I, s, name, 'execute')
        for s2, r in runs(rep, 'C20', meth(I, s, p, 'execute', conditionals=lst(s, [K(c)]), values=lst(s, [v]), **extra_args(I, s, name, N.const(gen), feas)), w):
            out.append((s2, to_num(r), w))
    return out


@rule('C20')
def over_time(I, rep, tier):
    """the dynamic penalty of a violation grows with the generation; the adaptive one is lower while the best individual is feasible"""
    pairs = []
    for kw in ({}, dict(c=2, alpha=1), dict(delta=3, betta=1)):
        for g, h in ((0, 1), (1, 2), (2, 9), (9, 10), (99, 100)):
            pairs.append(('DynamicPenalty', kw, (g, TRUE), (h, TRUE), 'grows with the generation'))
    for kw in ({}, dict(betta_1=NF(N.of(Fr(3, 2)).d), betta_2=NF(N.of(Fr(5, 4)).d)), dict(betta_1=2, betta_2=3), dict(betta_1=3, betta_2=2, delta=2, betta=1)):
        for g in (1, 2, 10):
            pairs.append(('AdaptivePenalty', kw, (g, TRUE), (g, FALSE), 'is lower while the best individual is feasible'))
    for name, kw, a, b, what in pairs:
        for c in ('<=', '!='):
            rep.scenarios += 1
            rep.cur = '%s(%s), "%s" violated, generation %d and %d' % (name, kw, c, a[0], b[0])
            for (s, x, w), (s2, y, _) in itertools.product(penalty_at(I, rep, name, kw, a[0], a[1], c), penalty_at(I, rep, name, kw, b[0], b[1], c)):
                m = s.clone()
                if x is None or y is None or not all(m.assume(q, st_) for q, st_ in s2.facts.lin):
                    continue
                rep.ob('C20/the %s penalty %s' % ('dynamic' if name[0] == 'D' else 'adaptive', what), m, decide(m, y - x), w, lambda: '%r and %r' % (x, y))


def viol(st, c, v):
    """+1/-1: provably violated upwards/downwards; False: provably satisfied; None: open"""
    p = to_num(v)
    if c == '<=':
        if st.facts.entails(p, True):
            return 1
        return False if st.facts.entails(-p) else None
    if st.facts.entails(p, True):
        return 1
    if st.facts.entails(-p, True):
        return -1
    if st.facts.entails(p) and st.facts.entails(-p):
        return False
    if st.facts.entails(p) and st.lit(('eqn', _canon(p))) is False:
        return 1
    return None


@rule('C20')
def every_violation_counts(I, rep, tier):
    """concrete signs: each violated condition alone makes the penalty positive, of either sign for '!='"""
    for name, feas, opaque in VARIANTS:
        for conds in PCONDS + [['<=', '!=', '<=']]:
            for sat in itertools.product((0, 1, -1), repeat=len(conds)):
                if any(c == '<=' and z == -1 for c, z in zip(conds, sat)) and tier == 'quick' and len(conds) > 2:
                    continue
                st = I.new_state()
                for s, p in make_penalty(I, st, name, conds, opaque):
                    vals, need = [], False
                    for i, (c, z) in enumerate(zip(conds, sat)):
                        v = sym('v%d' % i, 'num')
                        if z == 0:
                            if c == '<=':
                                s.assume(-N.atom(v))
                            else:
                                v = N.const(0)
                        else:
                            s.assume(N.atom(v).scale(z), True)
                            need = need or c == '!=' or z == 1
                        vals.append(v)
                    rep.scenarios += 1
                    rep.cur = '%s, conditions %s, violated %s' % (name, conds, sat)
                    w = where(I, s, name, 'execute')
                    gen = sym('gen', 'int', 1)
                    for s2, r in runs(rep, 'C20', meth(I, s, p, 'execute', conditionals=lst(s, [K(c) for c in conds]), values=lst(s, vals), **extra_args(I, s, name, gen, feas)), w):
                        x = to_num(r)
                        if x is None:
                            rep.ob('C20/a number', s2, None, w)
                        elif need:
                            rep.ob('C20/positive when a condition is violated', s2, decide(s2, x), w, lambda: '%r' % x)
                        else:
                            rep.ob('C20/zero when all conditions hold', s2, is_zero(s2, x), w, lambda: '%r' % x)


@rule('C20')
def no_carry_over(I, rep, tier):
    for name, feas, opaque in VARIANTS:
        for conds in (['<=', '!='], ['!=', '<=']):
            st = I.new_state()
            for s, p in make_penalty(I, st, name, conds, opaque):
                w = where(I, s, name, 'execute')
                rep.scenarios += 1
                rep.cur = '%s, conditions %s, one individual after another' % (name, conds)
                a = [sym('a%d' % i, 'num') for i in range(2)]
                b = [sym('b%d' % i, 'num') for i in range(2)]
                g1, g2 = sym('gen1', 'int', 1), sym('gen2', 'int', 1)
                for s2, _ in runs(rep, 'C20', meth(I, s, p, 'execute', conditionals=lst(s, [K(c) for c in conds]), values=lst(s, a), **extra_args(I, s, name, g1, FALSE)), w):
                    for s3, r in runs(rep, 'C20', meth(I, s2, p, 'execute', conditionals=lst(s2, [K(c) for c in conds]), values=lst(s2, b), **extra_args(I, s2, name, g2, feas)), w):
                        x = to_num(r)
                        if x is None:
                            rep.ob('C20/a number', s3, None, w)
                            continue
                        left = [t for t in collect(x, set()) if t in a or t is g1]
                        rep.ob('C20/independent of earlier individuals', s3, not left, w, lambda: 'the second penalty is %r' % x)
                        n = 0
                        for s4, r2 in runs(rep, 'C20', meth(I, s3, p, 'execute', conditionals=lst(s3, [K(c) for c in conds]), values=lst(s3, b), **extra_args(I, s3, name, g2, feas)), w):
                            rep.ob('C20/same values give the same penalty', s4, same(s4, r2, r), w, lambda: '%r then %r' % (r, r2))
                        # and of the first individual's best/feasibility: a fresh object agrees
                        for s5, q in make_penalty(I, s3.clone(), name, conds, opaque):
                            for s6, r3 in runs(rep, 'C20', meth(I, s5, q, 'execute', conditionals=lst(s5, [K(c) for c in conds]), values=lst(s5, b), **extra_args(I, s5, name, g2, feas)), w):
                                rep.ob('C20/a fresh penalty object agrees', s6, same(s6, r3, r), w, lambda: '%r, fresh: %r' % (r, r3))


def static_with(I, s, conds, tables):
    """StaticPenalty with the given interval tables; coefficient k of condition i is the atom r<i>_<k> > 0"""
    tabs = {'<=': ({}, {}), '!=': ({}, {})}
    for i, (c, tab) in enumerate(zip(conds, tables)):
        rs = [sym('r%d_%d' % (i, k), 'num') for k in range(len(tab))]
        for r in rs:
            s.assume(N.atom(r), True)
        tabs[c][0][N.const(i)] = lst(s, [tup(nv(N.of(a)), nv(N.atom(ops.INF)) if b is None else nv(N.of(b))) for a, b in tab])
        tabs[c][1][N.const(i)] = lst(s, rs)
    mkd = lambda d: Ref(s.alloc(Obj('dict', fields=dict(d))))
    kw = dict(equality_intervals=mkd(tabs['!='][0]), equality_r_coef=mkd(tabs['!='][1]), inequality_intervals=mkd(tabs['<='][0]), inequality_r_coef=mkd(tabs['<='][1]))
    return ok1(new(I, s, 'StaticPenalty', **kw), 'StaticPenalty')


TABLES = [((Fr(1, 2), 10), (10, 20), (20, None)), ((0, 1), (1, 5), (5, 9), (9, None)), ((20, None), (Fr(1, 2), 10), (10, 20))]


@rule('C20')
def static_table(I, rep, tier):
    """the violation of a condition is weighed with the coefficient of the interval [low, high) that contains its amount"""
    for conds in (['<='], ['!='], ['<=', '!='], ['!=', '<='], ['<=', '<='], ['!=', '!=']):
        for t1, t2 in itertools.product(TABLES, repeat=2) if len(conds) > 1 else [(t, None) for t in TABLES]:
            tables = [t1, t2][:len(conds)]
            pick = []
            for c, tab in zip(conds, tables):
                o = [('sat', None, 1), ('zero', None, 1)]
                for k in range(len(tab)):
                    o += [('in', k, 1), ('low', k, 1)] + ([('in', k, -1), ('low', k, -1)] if c == '!=' else [])
                pick.append(o)
            combos = list(itertools.product(*pick))
            if len(conds) > 1 and tier == 'quick':
                combos = [q for j, q in enumerate(combos) if j % 5 == 0]
            for q in combos:
                s = I.new_state()
                for s, p in static_with(I, s, conds, tables):
                    vals, used, names = [], set(), []
                    for i, (c, tab, (how, k, sg)) in enumerate(zip(conds, tables, q)):
                        if how == 'sat' and c == '<=':
                            v = sym('v%d' % i, 'num')
                            s.assume(-N.atom(v), True)
                        elif how in ('sat', 'zero') or how == 'low' and not tab[k][0]:
                            v = N.const(0)
                        elif how == 'low':
                            v = nv(N.of(tab[k][0]).scale(sg))
                            used.add('r%d_%d' % (i, k))
                        else:
                            v = sym('v%d' % i, 'num')
                            a = N.atom(v).scale(sg)
                            s.assume(a - N.of(tab[k][0]), True)
                            if tab[k][1] is not None:
                                s.assume(N.of(tab[k][1]) - a, True)
                            used.add('r%d_%d' % (i, k))
                        vals.append(v)
                        names.append({'sat': 'satisfied', 'zero': 'exactly 0'}.get(how) or '%s of interval %d%s' % ({'in': 'inside', 'low': 'lower end'}[how], k, '' if sg > 0 else ', negative'))
                    rep.scenarios += 1
                    rep.cur = 'StaticPenalty, conditions %s, intervals %s, values %s' % (conds, [[tuple(map(str, x)) for x in t] for t in tables], names)
                    w = where(I, s, 'StaticPenalty', 'execute')
                    for s2, r in runs(rep, 'C20', meth(I, s, p, 'execute', conditionals=lst(s, [K(c) for c in conds]), values=lst(s, vals)), w):
                        x = to_num(r)
                        if x is None:
                            rep.ob('C20/a number', s2, None, w)
                        elif not used:
                            rep.ob('C20/zero when all conditions hold', s2, is_zero(s2, x), w, lambda: '%r' % x)
                        else:
                            rep.ob('C20/positive when a condition is violated', s2, decide(s2, x), w, lambda: '%r' % x)
                            got = {n for n in (str(t) for t in collect(x, set())) if n[0] == 'r' and '_' in n}
                            rep.ob('C20/weighed with the coefficient of the interval containing the amount', s2, got == used, w, lambda: 'uses %s instead of %s: %r' % (sorted(got), sorted(used), x))


@rule('C20')
def static_outside(I, rep, tier):
    for c in ('<=', '!='):
        for tab, v in ((((Fr(1, 2), 10), (10, 20)), Fr(1, 4)), (((Fr(1, 2), 10), (10, 20)), 20), (((Fr(1, 2), 10), (10, 20)), 30), (((0, 1), (2, None)), Fr(3, 2)), (((0, 1), (2, None)), 1)):
            for sg in (1, -1) if c == '!=' else (1,):
                s = I.new_state()
                for s, p in static_with(I, s, [c], [tab]):
                    rep.scenarios += 1
                    rep.cur = 'StaticPenalty, condition %s, value %s outside every interval %s' % (c, v * sg, [tuple(map(str, x)) for x in tab])
                    w = where(I, s, 'StaticPenalty', 'execute')
                    raises(rep, 'C20/an amount outside every interval is rejected', meth(I, s, p, 'execute', conditionals=lst(s, [K(c)]), values=lst(s, [nv(N.of(v).scale(sg))])), w, 'a violation of %s' % v)


@rule('C20')
def bad_arguments(I, rep, tier):
    for name, feas, opaque in VARIANTS:
        for conds, nv_ in ((['<='], 2), (['<=', '!='], 1), (['!='], 0), (['!=', '<='], 3)):
            st = I.new_state()
            for s, p in make_penalty(I, st, name, conds, opaque):
                w = where(I, s, name, 'execute')
                rep.scenarios += 1
                rep.cur = '%s: %d conditions, %d values' % (name, len(conds), nv_)
                raises(rep, 'C20/different numbers of values and conditions are rejected',
                       meth(I, s, p, 'execute', conditionals=lst(s, [K(c) for c in conds]), values=lst(s, [sym('v%d' % i, 'num') for i in range(nv_)]), **extra_args(I, s, name, sym('gen', 'int', 1), feas)),
                       w, 'a call with %d values for %d conditions' % (nv_, len(conds)))
        for bad in ('>=', '<', '==', 'optimize', '=', ''):
            for pos in (0, 1):
                conds = ['<=', '<=']
                conds[pos] = bad
                st = I.new_state()
                for s, p in make_penalty(I, st, name, conds, opaque):
                    w = where(I, s, name, 'execute')
                    rep.scenarios += 1
                    rep.cur = '%s: conditions %s' % (name, conds)
                    raises(rep, 'C20/unknown condition signs are rejected',
                           meth(I, s, p, 'execute', conditionals=lst(s, [K(c) for c in conds]), values=lst(s, [sym('v%d' % i, 'num') for i in range(2)]), **extra_args(I, s, name, sym('gen', 'int', 1), feas)),
                           w, 'the sign %r' % bad)


# ------------------------------------------------------------------ C21
def fitness_of(I, rep, r, cls_, mg, target, objs, pen, conds=True):
    """score values of one individual whose objective value(s) are `objs` and whose penalty is `pen`, in a state built by `objs`
    -> [(st, [scores], where)]"""
    out = []
    for s, gd, pop, inds in eval_world(I, 'cat', 1, {}, mg=mg):
        s, tv, ov, pv = target(s), None, None, None
        s, tgt, o, p = s
        vals = list(o) + ([sym('condv', 'num')] if conds else [])
        fn = UserFn('f', lambda st, key, a: tup(*vals) if len(vals) > 1 else vals[0])
        kw = {}
        if conds:
            (s, po), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
            kw = dict(penalty=po, conditions=lst(s, [K('optimize')] * len(o) + [K('<=')]))
        w = where(I, s, cls_, 'get_fitness_score') if _has(I, s, cls_, 'get_fitness_score') else where(I, s, cls_, 'execute')
        if tgt is not None:
            kw['obj_value'] = lst(s, tgt) if mg else tgt[0]
        if mg:
            setfield(s, inds[0], 'phenotype', lst(s, [sym('ph', 'num')]))
        for s, f in ok1(new(I, s, cls_, obj_function=fn.t, **kw), cls_):
            with Penalised(I, p):
                res = meth(I, s, f, 'execute', gd)
            for s2, _ in runs(rep, r, res, w):
                v = field(s2, inds[0], 'score')
                sc = [] if v == NONE else elems(s2, v) if mg else [v]
                out.append((s2, sc, w))
    return out


def world21(tgt_kind, nobj, dist_signs, with_pen):
    """objective values target +/- d_k with d_k >= 0, penalty pen >= 0"""
    def build(s):
        tgt, o = [], []
        for k in range(nobj):
            t = {'sym': lambda: sym('tgt%d' % k, 'num'), 'zero': lambda: N.const(0), 'neg': lambda: N.const(-3), 'none': lambda: None}[tgt_kind]()
            d = sym('d%d' % k, 'num')
            if tgt_kind == 'none':
                o.append(d)
                continue
            if dist_signs[k]:
                s.assume(N.atom(d), True)
            o.append(nv(N.of(t) + N.atom(d).scale(dist_signs[k])))
            tgt.append(t)
        p = sym('pen', 'num') if with_pen else N.const(0)
        if with_pen:
            s.assume(N.atom(p))
        return s, (tgt if tgt_kind != 'none' else None), o, p
    return build


@rule('C21')
def shape(I, rep, tier):
    for cls_, mg, nobj in (('HyperbolaFitness', False, 1), ('VEGAHyperbolaFitness', True, 2)):
        for tk in ('sym', 'zero', 'neg', 'none'):
            for signs in itertools.product((1, -1), repeat=nobj):
                if tk == 'none' and -1 in signs:
                    continue
                for conds in (True, False):
                    if not conds and mg is False and nobj != 1:
                        continue
                    rep.scenarios += 1
                    rep.cur = '%s, target %s, objective value %s the target%s' % (cls_, tk, ['above' if x > 0 else 'below' for x in signs], ', conditional' if conds else '')
                    for s, sc, w in fitness_of(I, rep, 'C21', cls_, mg, world21(tk, nobj, signs, conds), None, None, conds):
                        if sc is None or len(sc) != nobj or any(to_num(x) is None for x in sc):
                            rep.ob('C21/a fitness per objective', s, None if sc is None or (len(sc) == nobj and NONE not in sc) else False, w, lambda: '%s' % (sc,))
                            continue
                        for k in range(nobj):
                            x = to_num(sc[k])
                            d, pen, e = sym('d%d' % k, 'num'), sym('pen', 'num'), sym('more', 'num')
                            s2 = s.clone()
                            s2.assume(N.atom(e), True)
                            if tk != 'none':
                                rep.ob('C21/stays positive', s, decide(s, x), w, lambda: '%r' % x)
                            farther = subst_n(x, {d: nv(N.atom(d) + N.atom(e))})
                            rep.ob('C21/falls strictly with the distance', s2, decide(s2, x - farther), w, lambda: 'objective %d: %r' % (k, x))
                            if conds:
                                worse = subst_n(x, {pen: nv(N.atom(pen) + N.atom(e))})
                                rep.ob('C21/falls strictly with the penalty', s2, decide(s2, x - worse), w, lambda: 'objective %d: %r' % (k, x))


@rule('C21')
def both_sides(I, rep, tier):
    """equal distances on the two sides of the target are equally fit, a larger distance on the other side is less fit"""
    for cls_, mg, nobj in (('HyperbolaFitness', False, 1), ('VEGAHyperbolaFitness', True, 2)):
        for tk in ('sym', 'zero'):
            rep.scenarios += 1
            rep.cur = '%s, target %s, both sides of the target' % (cls_, tk)
            at = fitness_of(I, rep, 'C21', cls_, mg, world21(tk, nobj, (0,) * nobj, True), None, None)
            up = fitness_of(I, rep, 'C21', cls_, mg, world21(tk, nobj, (1,) * nobj, True), None, None)
            dn = fitness_of(I, rep, 'C21', cls_, mg, world21(tk, nobj, (-1,) * nobj, True), None, None)
            for (s, a, w), (s2, b, _) in itertools.product(up, dn):
                if not a or not b or len(a) != nobj or len(b) != nobj:
                    continue
                for k in range(nobj):
                    x, y = to_num(a[k]), to_num(b[k])
                    if x is None or y is None:
                        continue
                    m = s.clone()
                    if not all(m.assume(p, st_) for p, st_ in s2.facts.lin):
                        continue
                    rep.ob('C21/symmetric around the target', m, is_zero(m, x - y), w, lambda: '%r above, %r below' % (x, y))
            at0 = fitness_of(I, rep, 'C21', cls_, mg, world21(tk, nobj, (0,) * nobj, False), None, None, False)
            for (s, a, w) in at + at0:
                for k in range(nobj):
                    x = to_num(a[k]) if a and len(a) == nobj else None
                    if x is None:
                        continue
                    try:
                        one = subst_n(x, {sym('pen', 'num'): N.const(0)})
                    except ZeroDivisionError:
                        rep.ob('C21/1 at the target without penalty', s, False, w, lambda: '%r divides by zero at the target' % x)
                        continue
                    rep.ob('C21/1 at the target without penalty', s, is_zero(I.new_state(), one - 1), w, lambda: '%r at the target' % one)
                    for s2, b, _ in (up + dn if (s, a, w) in at else []):
                        y = to_num(b[k]) if b and len(b) == nobj else None
                        m = s.clone()
                        if y is None or not all(m.assume(p, st_) for p, st_ in s2.facts.lin):
                            continue
                        rep.ob('C21/fittest at the target', m, decide(m, x - y), w, lambda: '%r at the target, %r beside it' % (x, y))


@rule('C21')
def penalty_enters(I, rep, tier):
    """end to end: the penalty returned by the penalty object is in the fitness, for every penalty class"""
    for cls_, mg, nobj in (('HyperbolaFitness', False, 1), ('VEGAHyperbolaFitness', True, 2)):
        for pname in ('DynamicPenalty', 'AdaptivePenalty', 'StaticPenalty'):
            for s, gd, pop, inds in eval_world(I, 'bin', 2, {}, mg=mg):
                n = nobj + 1
                fn = tuple_fn(n)
                dec = decoded(I, s, pop, inds, 'bin')
                for s, po in make_penalty(I, s, pname, ['<='], False):
                    if pname == 'AdaptivePenalty':
                        setattrs(I, s, gd, best_solution=dct(s, feasible=TRUE), idx_generation=3)
                    rep.scenarios += 1
                    rep.cur = '%s with %s' % (cls_, pname)
                    w = where(I, s, cls_, 'execute')
                    for s, f in ok1(new(I, s, cls_, obj_function=fn.t, penalty=po, conditions=lst(s, [K('optimize')] * nobj + [K('<=')])), cls_):
                        with Penalised(I):
                            res = meth(I, s, f, 'execute', gd)
                        for s2, _ in runs(rep, 'C21', res, w):
                            for i, d in enumerate(inds):
                                v = field(s2, d, 'score')
                                sc = elems(s2, v) if mg else [v]
                                for k, x in enumerate(sc or []):
                                    ats = collect(x, set())
                                    pens = [t for t in ats if t.k == 'pen']
                                    own = [t for t in pens if t.a[0] == ('L', (objval(dec[i], n - 1),))]
                                    rep.ob('C21/the penalty of the individual enters its fitness', s2, bool(own) and own == pens, w, lambda: 'individual %d: %r' % (i, x))


CLIENT = """
from baumeva.ga import BasePenalty


class UserPenalty(BasePenalty):
    def get_sum_conditional_func(self, conditionals, values):
        self.sum_conditional = sum(abs(v) for v in values)

    def execute(self, conditionals, values, **kwargs):
        super().execute(conditionals, values)
        self.penalty = 7 * self.sum_conditional
        return self.penalty
"""


@rule('C20')
def asked_by_fitness(I, rep, tier, r='C20'):
    """the penalty in the fitness of an individual is what the method answers for its values, the current generation and the
    best individual so far: the fitness is compared with the method's own answer to a direct question"""
    I.define(I.base_state, 'client', CLIENT)
    for cls_, mg in (('HyperbolaFitness', False), ('VEGAHyperbolaFitness', True), ('FFGAFitness', True)):
        for pname in ('DynamicPenalty', 'AdaptivePenalty', 'StaticPenalty', 'UserPenalty'):
            if mg and pname == 'AdaptivePenalty':
                continue                              # not usable there: the best solution is a set
            for conds in (['optimize', '<=', '!='], ['!=', 'optimize', '<=']):
                if mg:
                    conds = conds + ['optimize']
                cs = [c for c in conds if c != 'optimize']
                for vals in ((3, -2), (3, 0), (-3, 2), (0, 0)):
                    for gen, feas in ((0, None), (1, TRUE), (1, FALSE), (4, TRUE), (4, FALSE)):
                        if feas == TRUE and pname != 'AdaptivePenalty' and gen == 1:
                            continue
                        asked(I, rep, r, cls_, mg, pname, conds, cs, vals, gen, feas)


@rule('C21')
def penalty_of_every_method(I, rep, tier):
    asked_by_fitness(I, rep, tier, 'C21')


def asked(I, rep, r, cls_, mg, pname, conds, cs, vals, gen, feas):
    it, ob = iter(vals), iter((2, 6))
    full = [next(ob if c == 'optimize' else it) for c in conds]
    for target in (None, [5, 1]):
        for s, gd, pop, inds in eval_world(I, 'cat', 1, {}, mg=mg):
            if mg:
                setfield(s, inds[0], 'phenotype', lst(s, [sym('ph', 'num')]))
            best = NONE
            if feas is not None:
                best = dct(s, feasible=feas, score=3, obj_score=1, idx_generation=0, pareto_set=lst(s, []))
            setattrs(I, s, gd, idx_generation=gen, best_solution=best)
            rep.scenarios += 1
            rep.cur = '%s with %s, conditions %s, values %s, generation %d%s%s' % (cls_, pname, conds, full, gen, '' if feas is None else ', best individual %sfeasible' % ('' if feas == TRUE else 'in'), ', target' if target else '')
            w = where(I, s, cls_, 'execute')
            for s, po in make_penalty(I, s, pname, cs, False):
                kw = extra_args(I, s, pname, gen, feas)
                if 'best_individ' in kw:
                    kw['best_individ'] = best
                d = s.clone()
                direct = [(x, v) for x, v in meth(I, d, po, 'execute', conditionals=lst(d, [K(c) for c in cs]), values=lst(d, list(vals)), **kw)]
                if len(direct) != 1 or isinstance(direct[0][1], Exc) or to_num(direct[0][1]) is None:
                    continue                          # judged by the other rules on the methods themselves
                pen = to_num(direct[0][1])
                fn = UserFn('f', lambda st, key, a: tup(*full))
                a = {}
                if target:
                    a['obj_value'] = lst(s, target) if mg else target[0]
                for s, f in ok1(new(I, s, cls_, obj_function=fn.t, penalty=po, conditions=lst(s, [K(c) for c in conds]), **a), cls_):
                    for s2, _ in runs(rep, r, meth(I, s, f, 'execute', gd), w):
                        v = field(s2, inds[0], 'score')
                        if cls_ == 'FFGAFitness':
                            continue
                        sc = elems(s2, v) if mg else [v]
                        for k, x in enumerate(sc or []):
                            x = to_num(x)
                            o = (2, 6)[k]
                            if x is None:
                                rep.ob(r + '/the answer of the method enters the fitness', s2, False if sc[k] == NONE else None, w)
                                continue
                            if target:
                                e = N.const(1 + abs(target[k] - o)) + pen
                                ok = is_zero(s2, x * e - N.const(1))
                            else:
                                ok = is_zero(s2, x + N.const(o) + pen)
                            rep.ob(r + '/the answer of the method enters the fitness', s2, ok, w, lambda: 'fitness %r with objective value %d and penalty %r' % (x, o, pen))
