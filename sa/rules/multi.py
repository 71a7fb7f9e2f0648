"""Multi-objective evaluation (C22, C23)."""
from .common import *
from .fit import eval_world, decoded, Penalised, collect, _has

MC = [None, ['optimize', 'optimize', '<='], ['<=', 'optimize', 'optimize'], ['optimize', '<=', 'optimize'], ['optimize', '<=', 'optimize', '!=', 'optimize'],
      ['<=', 'optimize', '!=', 'optimize'], ['!=', '<=', 'optimize', 'optimize', 'optimize'], ['optimize', '<=', 'optimize', 'optimize', '!=', 'optimize', 'optimize', 'optimize', '<=']]


@rule('C22')
def aligned(I, rep, tier):
    for cls_ in ('VEGAHyperbolaFitness', 'FFGAFitness'):
        for conds in MC:
            for nobj in (tuple(sorted({2, 3, 4, 5, 9} | {t + 1 for t in I.thresholds(40)})) if conds is None else (conds.count('optimize'),)):
                for form in ('tuple', 'list'):
                    n = nobj if conds is None else len(conds)
                    for tgt in (True, False):
                        for s, gd, pop, inds in eval_world(I, 'bin', 1, {}, mg=True):
                            fn = tuple_fn(n, form=form)
                            dec = decoded(I, s, pop, inds, 'bin')
                            kw = {}
                            ts = [sym('tgt%d' % k, 'num') for k in range(nobj)]
                            if tgt:
                                kw['obj_value'] = lst(s, ts)
                            if conds:
                                (s, po), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
                                kw.update(penalty=po, conditions=lst(s, [K(c) for c in conds]))
                            rep.scenarios += 1
                            rep.cur = '%s, conditions %s, %d objectives, %s' % (cls_, conds, nobj, 'targets' if tgt else 'no targets')
                            w = where(I, s, cls_, 'execute')
                            if nobj > 3 or n > 4:       # one side of each target and condition is enough here
                                sgn = 1 if form == 'tuple' else -1
                                for k, j in enumerate(j for j in range(n) if conds is None or conds[j] == 'optimize'):
                                    s.assume((N.of(objval(dec[0], j)) - N.of(ts[k])).scale(sgn), True)
                                for j in range(n):
                                    if conds is not None and conds[j] != 'optimize':
                                        s.assume(N.of(objval(dec[0], j)).scale(sgn), True)
                            for s, f in ok1(new(I, s, cls_, obj_function=fn.t, **kw), cls_):
                                with Penalised(I):
                                    res = meth(I, s, f, 'execute', gd)
                                for s2, _ in runs(rep, 'C22', res, w):
                                    pos = [j for j in range(n) if conds is None or conds[j] == 'optimize']
                                    want = [objval(dec[0], j) for j in pos]
                                    got = elems(s2, field(s2, inds[0], 'obj_score'))
                                    rep.ob('C22/objective values in the order returned', s2, None if got is None else same_list(s2, got, want), w,
                                           lambda: '%s instead of %s' % ([short(x) for x in got], [short(x) for x in want]))
                                    if cls_ != 'VEGAHyperbolaFitness':
                                        continue
                                    sc = elems(s2, field(s2, inds[0], 'score'))
                                    rep.ob('C22/one fitness per objective', s2, None if sc is None else len(sc) == nobj, w, lambda: '%d fitness values' % len(sc))
                                    for k, x in enumerate((sc or [])[:nobj]):
                                        ats = outside_penalty(x, set())
                                        ov = {t for t in ats if t.k == 'objv'}
                                        tv = {t for t in ats if t in ts}
                                        rep.ob('C22/i-th fitness uses the i-th objective and target', s2, ov == {want[k]} and tv == ({ts[k]} if tgt else set()), w,
                                               lambda: 'fitness %d uses %s and %s' % (k, [short(t) for t in ov], tv))


def outside_penalty(v, acc):
    """atoms a fitness is computed from, other than through the penalty"""
    if isinstance(v, T):
        if v not in acc:
            acc.add(v)
            if v.k not in ('objv', 'pen'):
                for a in v.a:
                    outside_penalty(a, acc)
    elif isinstance(v, N):
        for t in v.atoms():
            outside_penalty(t, acc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            outside_penalty(x, acc)
    elif isinstance(v, (Tup, StrV)):
        for g in v.segs:
            if isinstance(g, One):
                outside_penalty(g.v, acc)
    return acc


def match(st, xs, ys):
    """is one list of individuals a rearrangement of the other: True / False / None"""
    if len(xs) != len(ys):
        return False
    left, sure = list(ys), True
    for x in xs:
        e = [(same_ind(st, x, y), k) for k, y in enumerate(left)]
        hit = [k for r, k in e if r] or [k for r, k in e if r is None]
        if not hit:
            return False
        sure = sure and e[hit[0]][0]
        del left[hit[0]]
    return True if sure else None


def same_ind(st, a, b):
    return all3(same_deep(st, field(st, a, k), field(st, b, k)) for k in ('genotype', 'phenotype', 'obj_score', 'score', 'rank'))


def short(t):
    return 'value %d' % t.a[2] if isinstance(t, T) and t.k == 'objv' else repr(t)


# ------------------------------------------------------------------ C23
def weak_orders(n):
    seen = set()
    for c in itertools.product(range(n), repeat=n):
        lv = sorted(set(c))
        if lv == list(range(len(lv))):
            seen.add(c)
    return sorted(seen)


LV = [Fr(-1), Fr(0), Fr(5, 2), Fr(4)]


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def expected_ranks(vecs):
    return [1 + sum(dominates(v, u) for v in vecs) for u in vecs]


def table_fn(dec, vecs, form='tuple'):
    tab = dict(zip(dec, vecs))

    def ret(st, key, a):
        v = [arg_(x) for x in tab.get(key, [0] * len(vecs[0]))]
        return tup(*v) if form == 'tuple' else lst(st, v)
    return UserFn('f', ret)


def arg_(x):
    return N.const(int(x)) if Fr(x).denominator == 1 else NF(N.of(Fr(x)).d)


def rank_world(I, rep, cls_, n, vecs, survivors=(), codes=None, conds=None):
    """codes: genes of the individuals (default: all different); equal genes have equal vectors"""
    scored = {i: None for i in survivors}
    big = dict(glen=7, gens=tup(tup(0, 127, 1))) if n > 8 else {}
    for s, gd, pop, inds in eval_world(I, 'bin', n, scored, mg=True, **big):
        for i, d in enumerate(inds):       # distinct codes, so that the answer depends on the individual
            c = i if codes is None else codes[i]
            setfield(s, d, 'genotype', lst(s, [K(c) for c in (format(c + 1, '07b') if big else format(2 * c + 1, '04b'))]))
            setfield(s, d, 'phenotype', None)
        dec = decoded(I, s, pop, inds, 'bin')
        if dec is None or len(set(dec)) < (n if codes is None else len(set(codes))):
            raise Undecided('decoder')
        for i, d in enumerate(inds):
            if i in scored:
                setfield(s, d, 'rank', 7)
                setfield(s, d, 'score', NF(N.of(Fr(1, 8)).d))
                setfield(s, d, 'phenotype', lst(s, list(dec[i][1])))
                setfield(s, d, 'obj_score', lst(s, [arg_(x) for j, x in enumerate(vecs[i]) if conds is None or conds[j] == 'optimize']))
                setfield(s, d, 'feasible', K(conds is None or all(x <= 0 if c == '<=' else x == 0 for c, x in zip(conds, vecs[i]) if c != 'optimize')))
        kw = {}
        if conds is not None:
            (s, po), = ok1(new(I, s, 'DynamicPenalty'), 'DynamicPenalty')
            kw = dict(penalty=po, conditions=lst(s, [K(c) for c in conds]))
        fn = table_fn(dec, vecs, 'list' if n == 2 else 'tuple')
        rep.scenarios += 1
        rep.cur = '%s, value vectors %s%s%s%s' % (cls_, [[str(x) for x in v] for v in vecs], ', survivors %s' % (survivors,) if survivors else '',
                                                  ', genes (equal numbers, equal genes) %s' % (codes,) if codes else '', ', conditions %s' % conds if conds else '')
        w = where(I, s, cls_, 'assign_ranks') if _has(I, s, cls_, 'assign_ranks') else where(I, s, cls_, 'execute')
        for s, f in ok1(new(I, s, cls_, obj_function=fn.t, **kw), cls_):
            with Penalised(I):
                res = meth(I, s, f, 'execute', gd)
            for s2, _ in runs(rep, 'C23', res, w):
                yield s2, gd, inds, w


def ranks_ok(I, rep, cls_, n, vecs, survivors=(), record=False, codes=None, conds=None):
    vecs = [tuple(map(Fr, v)) for v in vecs]
    exp = expected_ranks(vecs)
    for s2, gd, inds, w in rank_world(I, rep, cls_, n, vecs, survivors, codes, conds):
        for i, d in enumerate(inds):
            r = to_num(field(s2, d, 'rank'))
            rep.ob('C23/rank is one plus the number of dominators', s2, None if r is None else (r.is_const() and r.cval() == exp[i]), w,
                   lambda: 'individual %d: rank %r instead of %d' % (i, r, exp[i]))
            if cls_ == 'FFGAFitness':
                x = to_num(field(s2, d, 'score'))
                rep.ob('C23/FFGA fitness is 1/(1+rank)', s2, (False if field(s2, d, 'score') == NONE else None) if x is None else (x.is_const() and x.cval() == Fr(1, 1 + exp[i])), w,
                       lambda: 'individual %d of rank %d: fitness %r' % (i, exp[i], x))
        if record:
            recorded(I, rep, s2, gd, inds, [i for i in range(n) if exp[i] == 1])


def recorded(I, rep, s, gd, inds, front):
    w = where(I, s, 'MultiGaData', 'update')
    for s2, _ in runs(rep, 'C23', meth(I, s, gd, 'update'), w):
        judge_front(I, rep, s2, gd, inds, front, w)


def judge_front(I, rep, s2, gd, inds, front, w):
    b = attr(I, s2, gd, 'best_solution')
    ps = field(s2, b, 'pareto_set') if isinstance(b, Ref) else None
    hist = elems(s2, attr(I, s2, gd, 'historical_best'))
    popk = set()
    for d in inds:
        reach(s2, d, popk)
    for what, v in (('recorded Pareto set', ps), ('history of Pareto sets', hist[-1] if hist else None)):
        m = elems(s2, v) if v is not None else None
        if m is None:
            rep.ob('C23/%s' % what, s2, None, w)
            continue
        rep.ob('C23/%s is exactly rank 1' % what, s2, match(s2, m, [inds[i] for i in front]), w, lambda: '%s (%d members) is not the %d rank-1 individuals' % (what, len(m), len(front)))
        rep.ob('C23/%s is a copy' % what, s2, not any(reach(s2, d) & popk for d in m), w, '%s shares individuals with the population' % what)


@rule('C23')
def ranks_two_objectives(I, rep, tier):
    """all orderings of three individuals in two values"""
    W = weak_orders(3)
    for a, b in itertools.product(W, W):
        vecs = [(LV[a[i]], LV[b[i]]) for i in range(3)]
        ranks_ok(I, rep, 'FFGAFitness', 3, vecs, record=(a <= b))


@rule('C23')
def ranks_more(I, rep, tier):
    for a, b, c in itertools.product(weak_orders(2), repeat=3):
        vecs = [(LV[a[i]], LV[b[i]], LV[c[i]]) for i in range(2)]
        for cls_ in ('FFGAFitness', 'VEGAHyperbolaFitness'):
            ranks_ok(I, rep, cls_, 2, vecs)
    W = weak_orders(3)
    for k, (a, b) in enumerate(itertools.product(W, W)):
        if k % 7 == 0 or tier != 'quick':
            vecs = [(LV[a[i]], LV[b[i]]) for i in range(3)]
            ranks_ok(I, rep, 'VEGAHyperbolaFitness', 3, vecs)
    # four individuals, and survivors that carry the rank and fitness of an older generation
    for vecs in ([(0, 3), (1, 2), (2, 1), (3, 0)], [(0, 0), (1, 1), (2, 2), (3, 3)], [(3, 3), (2, 2), (1, 1), (0, 0)], [(0, 1), (1, 0), (1, 1), (0, 1)], [(1, 1)] * 4, [(0, 2), (2, 0), (1, 1), (2, 2)]):
        for cls_ in ('FFGAFitness', 'VEGAHyperbolaFitness'):
            ranks_ok(I, rep, cls_, 4, [tuple(map(Fr, v)) for v in vecs], record=cls_ == 'FFGAFitness')
        for sv in ((0,), (1, 3), (0, 1, 2, 3)):
            ranks_ok(I, rep, 'FFGAFitness', 4, [tuple(map(Fr, v)) for v in vecs], sv, record=True)


@rule('C23')
def ranks_equal_genes(I, rep, tier):
    """individuals with the same genes and values, evaluated in this generation or earlier"""
    for codes, vecs in (((0, 0, 1), [(1, 1), (1, 1), (2, 2)]), ((0, 1, 0, 1), [(1, 2), (2, 1), (1, 2), (2, 1)]), ((0, 0, 0), [(3, 0)] * 3), ((2, 0, 2, 0), [(0, 0), (1, 1), (0, 0), (1, 1)])):
        for sv in ((), (0,), (0, 1), tuple(range(len(codes)))):
            for cls_ in ('FFGAFitness', 'VEGAHyperbolaFitness'):
                ranks_ok(I, rep, cls_, len(codes), vecs, sv, record=cls_ == 'FFGAFitness', codes=codes)


@rule('C23')
def ranks_conditional(I, rep, tier):
    """conditional tasks: every returned value counts, also for individuals evaluated in an earlier generation"""
    for conds, vecs in ((['optimize', 'optimize', '<='], [(1, 1, 5), (1, 1, 2), (2, 2, -1), (0, 3, 0)]), (['<=', 'optimize', 'optimize'], [(-1, 1, 1), (0, 1, 1), (3, 0, 1), (3, 2, 2)]),
                        (['optimize', '!=', 'optimize'], [(1, 0, 1), (1, -2, 1), (1, 4, 1), (2, 0, 0)])):
        for sv in ((), (0,), (1, 2), (0, 1, 2, 3)):
            for cls_ in ('FFGAFitness', 'VEGAHyperbolaFitness'):
                ranks_ok(I, rep, cls_, 4, vecs, sv if cls_ == 'FFGAFitness' else (), record=cls_ == 'FFGAFitness', conds=conds)


@rule('C23')
def ranks_large(I, rep, tier):
    """more individuals and more values, beyond every threshold of the source"""
    thr = I.thresholds(70)
    for n in sorted({6, 12} | {t + 2 for t in thr}):
        chain = [(Fr(i), Fr(i)) for i in range(n)]
        for vecs in ([chain[0]] + chain[:0:-1], [(Fr(i), Fr(n - i)) for i in range(n)], [(Fr((5 * i) % 7), Fr((3 * i) % 5)) for i in range(n)]):
            ranks_ok(I, rep, 'FFGAFitness', n, vecs, record=True)
    for k in sorted({4, 5} | {t + d for t in thr if t <= 20 for d in (0, 1)}):
        for j in (0, k // 2, k - 1):
            low = tuple(Fr(1 if i == j else 2) for i in range(k))
            mix = tuple(Fr(3 if i == j else 1) for i in range(k))
            for vecs in ([(Fr(2),) * k, low, mix], [low, (Fr(2),) * k, (Fr(2),) * k]):
                ranks_ok(I, rep, 'FFGAFitness', 3, vecs)


@rule('C23')
def front(I, rep, tier):
    """recording: any arrangement of ranks, any previous record; sets recorded earlier stay as they were"""
    for rk in ((1,), (1, 1, 1), (2, 1, 1), (3, 1, 2), (1, 3, 2), (2, 3, 1), (1, 2, 1, 4), (2, 2, 2, 1)) + tuple((3,) + (1,) * (t + 1) + (2,) for t in I.thresholds(200) + [12]):
        for prev in ('none', 'other', 'same'):
            if len(rk) > 50 and prev != 'none':
                continue
            for s, pop, inds in population(I, I.new_state(), 'bin', len(rk), glen=2, num_individ=max(1, len(rk) - 1)):
                for i, d in enumerate(inds):
                    setfield(s, d, 'rank', rk[i])
                for s, gd in gadata(I, s, pop, 'MultiGaData'):
                    w = where(I, s, 'MultiGaData', 'update')
                    rep.scenarios += 1
                    rep.cur = 'ranks %s, previous record: %s' % (rk, prev)
                    old = None
                    if prev == 'other':
                        d0 = dct(s, genotype=lst(s, [K('1'), K('0')]), phenotype=lst(s, [sym('oldph', 'num')]), score=sym('olds', 'num'), obj_score=lst(s, [sym('oldo', 'num')]), rank=1, feasible=True, idx_individ=0)
                        setattrs(I, s, gd, best_solution=dct(s, pareto_set=lst(s, [d0]), idx_generation=0))
                        hist = attr(I, s, gd, 'historical_best')
                        s.mut(hist.key).segs = (One(lst(s, [d0])),)
                        old = snapshot(s, hist)
                    elif prev == 'same':
                        res = [x for x, _ in ok1(meth(I, s, gd, 'update'), 'update')]
                        s = res[0]
                        setattrs(I, s, pop, is_sorted=False)
                        old = snapshot(s, attr(I, s, gd, 'historical_best'))
                        members = elems(s, pop)
                        # the individuals live on and are changed by later generations
                        for d in members:
                            setfield(s, d, 'rank', 2)
                            setfield(s, d, 'score', sym('later_score', 'num'))
                        setfield(s, members[0], 'rank', 1)
                        rep.ob('C23/recorded sets do not change later', s, snapshot(s, attr(I, s, gd, 'historical_best')) == old, w, 'a recorded Pareto set changed with the population')
                        fr = [inds.index(members[0])]
                    fr = fr if prev == 'same' else [i for i in range(len(rk)) if rk[i] == 1]
                    for s2, _ in runs(rep, 'C23', meth(I, s, gd, 'update'), w):
                        judge_front(I, rep, s2, gd, inds, fr, w)
                        if old is not None:
                            h = snapshot(s2, attr(I, s2, gd, 'historical_best'))
                            rep.ob('C23/earlier recorded sets are kept', s2, h[0] == 'L' and h[1][:len(old[1])] == old[1], w, 'an earlier entry changed')


@rule('C23')
def front_duplicates(I, rep, tier):
    """individuals that are equal in everything all belong to the set"""
    for codes, rk in (((0, 0), (1, 1)), ((0, 1, 0), (1, 2, 1)), ((2, 0, 1, 0, 0), (1, 1, 2, 1, 1)), ((0, 0, 1, 1), (2, 2, 1, 1))):
        for s, pop, inds in population(I, I.new_state(), 'bin', len(rk), glen=2, num_individ=max(1, len(rk) - 1)):
            for i, d in enumerate(inds):
                c = codes[i]
                for k, v in dict(genotype=lst(s, [K(x) for x in format(c, '02b')]), phenotype=lst(s, [N.const(c)]), score=NF(N.of(Fr(1, 1 + rk[i])).d),
                                 obj_score=lst(s, [N.const(c), N.const(-c)]), feasible=TRUE, rank=rk[i], idx_individ=c).items():
                    setfield(s, d, k, v)
            for s, gd in gadata(I, s, pop, 'MultiGaData'):
                w = where(I, s, 'MultiGaData', 'update')
                rep.scenarios += 1
                rep.cur = 'individuals (equal numbers are equal in everything) %s, ranks %s' % (codes, rk)
                for s2, _ in runs(rep, 'C23', meth(I, s, gd, 'update'), w):
                    judge_front(I, rep, s2, gd, inds, [i for i in range(len(rk)) if rk[i] == 1], w)
