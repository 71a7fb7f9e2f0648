"""Run data and replacement (C01, C02, C03 counter, C05, C29)."""
from .common import *
from .fit import _has

HALF = NF(N.of(Fr(1, 2)).d)


def can(st, cons):
    """may all of p > 0 / p >= 0 (given as (p, strict)) hold together on this path"""
    s = st.clone()
    return all(s.assume(p, strict) for p, strict in cons)


def fittest(st, scores, i):
    """is individual i fittest on this path: True / False / None"""
    d = [N.of(scores[i]) - N.of(x) for k, x in enumerate(scores) if k != i]
    if all(st.facts.entails(p) for p in d):
        return True
    return None if can(st, [(p, False) for p in d]) else False


def in_population(st, new_, d, snap):
    """members of the new population equal to the old individual d, as it was"""
    return [m for m in new_ if isinstance(m, Ref) and (m == d or same_members(st, m, snap)) and unchanged(st, m, snap)]


FIELDS = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'rank')


def content(st, d):
    return {k: snapshot(st, field(st, d, k)) for k in FIELDS if k in (ind_fields(st, d) or ())}


def unchanged(st, m, snap):
    return content(st, m) == snap


def same_members(st, m, snap):
    return unchanged(st, m, snap)


def codes(part, width):
    """genotypes of the individuals: equal exactly where the partition puts them together"""
    return [format(p, '0%db' % width) for p in part]


def partitions(n):
    out = []
    for c in itertools.product(range(n), repeat=n):
        m = 0
        for x in c:
            if x > m:
                break
            m = max(m, x + 1)
        else:
            out.append(c)
    return out


def add_children(I, st, pop, c, kind, like):
    """children container holding c complete unevaluated individuals"""
    for s, ch in ok1(meth(I, st, pop, 'get_empty_copy'), 'get_empty_copy')[:1]:
        refs = []
        for i in range(c):
            d = dct(s, **{k: None for k in ind_fields(s, like)})
            if kind in BINARY:
                g = [K(x) for x in format(8 + i, '04b')]
            else:
                g = [gene('c%d_%d' % (i, j)) for j in range(4)]
            setfield(s, d, 'genotype', lst(s, g))
            setfield(s, d, 'feasible', True)
            refs.append(d)
        s.mut(ch.key).segs = tuple(One(r) for r in refs)
        s.events = ()
        return s, ch, refs
    raise Undecided('get_empty_copy')


def replacement(I, rep, kind, n, m, c, tp, part, order, r, multi=0):
    """a population of n (configured size m) with the given duplicates, c children; order 'sorted': s0 <= s1 <= ...;
    'unsorted': opaque scores in any order; 'recorded': the generation is recorded first, at any generation index. -> (state, gd, inds, snapshots, scores, children)"""
    for s, pop, inds in population(I, I.new_state(), kind, n, num_individ=m, multi=multi):
        for i, d in enumerate(inds):
            if kind in BINARY:
                g = [K(x) for x in format(part[i], '04b')]
            else:
                g = [gene('pg%d_%d' % (part[i], j)) for j in range(4)]
            setfield(s, d, 'genotype', lst(s, g))
        sc = [field(s, d, 'score') for d in inds]
        if kind not in BINARY:
            for a, b in itertools.combinations(sorted(set(part)), 2):
                ops.opq_ne(s, gene('pg%d_0' % a), gene('pg%d_0' % b))
        if order == 'sorted' and not multi:
            for a, b in zip(sc, sc[1:]):
                s.assume(N.of(b) - N.of(a))
            setattrs(I, s, pop, is_sorted=True)
        elif order in ('mixed', 'recorded'):
            for i, d in enumerate(inds):
                setfield(s, d, 'score', (7 * i + 3) % n if n % 7 else (5 * i + 3) % n)
            sc = [field(s, d, 'score') for d in inds]
        s, ch, refs = add_children(I, s, pop, c, kind, inds[0])
        for s, gd in gadata(I, s, pop):
            setattrs(I, s, gd, children=ch)
            snaps = [content(s, d) for d in inds]
            csn = [content(s, d) for d in refs]
            rep.scenarios += 1
            rep.cur = '%s of %d (configured size %d) with equal genotypes %s, %s, %d children, transfer "%s"' % (POPCLS[kind], n, m, list(part), order, c, tp)
            w = where(I, s, 'NewGeneration', 'execute')
            for s, ng in ok1(new(I, s, 'NewGeneration', transfer_parents=tp), 'NewGeneration'):
                rec = runs(rep, r, meth(I, s, gd, 'update'), w) if order == 'recorded' else [(s, None)]
                for s2, _ in [x for s1, _ in rec for x in runs(rep, r, meth(I, s1, ng, 'execute', gd), w)]:
                    yield s2, gd, inds, snaps, sc, refs, csn, w


def beyond(I, hi=64):
    """population shapes on either side of every threshold of the source"""
    out = []
    for t in I.thresholds(hi):
        out += [(t + 2, t + 1, 2), (t + 2, t + 1, t), (t, t, 2)]
    return out


def survivors(st, new_, inds, snaps):
    """index of the old individuals found unchanged in the new population"""
    return [i for i, d in enumerate(inds) if any(isinstance(x, Ref) and unchanged(st, x, snaps[i]) for x in new_)]


def judge_best(I, rep, s2, gd, inds, snaps, sc, w):
    new_ = elems(s2, attr(I, s2, gd, 'population'))
    if new_ is None:
        rep.ob('C01/best individual survives', s2, None, w)
        return
    sv = survivors(s2, new_, inds, snaps)
    if any(fittest(s2, sc, i) for i in sv):
        ok = True
    else:
        lost = [i for i in range(len(inds)) if i not in sv]
        ok = False if any(can(s2, [(N.of(sc[i]) - N.of(sc[k]), True) for k in sv]) for i in lost) else None
    rep.ob('C01/best individual survives', s2, ok, w, lambda: 'kept: individuals %s; fittest may be another one' % sv)


SHAPES = [(3, 3, 2), (4, 4, 2), (4, 3, 2), (4, 3, 1), (3, 3, 3), (3, 2, 3), (4, 4, 3), (5, 4, 3), (5, 4, 2)]


@rule('C01')
def best_survives(I, rep, tier):
    for tp in ('best', 'random'):
        for n, m, c in SHAPES:
            if n == 5 and (tier == 'quick' or tp == 'random'):
                parts = [tuple(range(5)), (0, 1, 1, 0, 2), (0, 0, 1, 2, 2)]
            else:
                parts = partitions(n)
            if m - c <= 0:
                parts = parts[-1:] + parts[:1]
            for part in parts:
                for x in replacement(I, rep, 'bin', n, m, c, tp, part, 'sorted', 'C01'):
                    s2, gd, inds, snaps, sc, refs, csn, w = x
                    judge_best(I, rep, s2, gd, inds, snaps, sc, w)
                    if tp == 'best' and len(set(part)) == n:
                        judge_elite(I, rep, s2, gd, inds, snaps, sc, w)


def judge_elite(I, rep, s2, gd, inds, snaps, sc, w):
    """no individual that was dropped is fitter than one that was transferred"""
    new_ = elems(s2, attr(I, s2, gd, 'population'))
    if new_ is None:
        return
    sv = survivors(s2, new_, inds, snaps)
    out = [i for i in range(len(inds)) if i not in sv]
    bad = [(i, k) for i in out for k in sv if can(s2, [(N.of(sc[i]) - N.of(sc[k]), True)])]
    rep.ob('C01/the transferred individuals are the fittest', s2, not bad, w, lambda: 'individual %d is dropped although fitter than %d, which is kept' % bad[0])


@rule('C01')
def random_reaches_all(I, rep, tier):
    """with "random" transfer no individual of the current generation is excluded from the draw"""
    for kind in ('bin', 'cat'):
        for n, m, c in ((4, 4, 2), (4, 3, 2), (3, 3, 2)):
            got, st, imp, w = set(), None, None, None
            for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, kind, n, m, c, 'random', tuple(range(n)), 'sorted', 'C01'):
                new_ = elems(s2, attr(I, s2, gd, 'population'))
                if new_ is None or s2.imprecise:
                    imp = s2
                else:
                    got |= set(survivors(s2, new_, inds, snaps))
                st = s2
            if st is not None:
                rep.ob('C01/random transfer can keep any individual', imp or st, None if imp else len(got) == n, w, lambda: 'only individuals %s of %d are ever transferred' % (sorted(got), n))


@rule('C01')
def best_survives_large(I, rep, tier):
    """larger populations, one resolution of the draws"""
    for tp in ('best', 'random'):
        for kind in ('bin', 'cat'):
            for n, m, c in ((12, 12, 3), (13, 12, 11), (16, 15, 7), (16, 15, 20), (13, 12, 1)):
                for part in (tuple(range(n)), tuple(i // 2 for i in range(n)), (0,) * n, tuple(max(0, i - n // 2) for i in range(n)), tuple(min(i, n // 2) for i in range(n))):
                    I.setup = True
                    try:
                        for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, kind, n, m, c, tp, part, 'sorted', 'C01'):
                            judge_best(I, rep, s2, gd, inds, snaps, sc, w)
                            if tp == 'best' and len(set(part)) == n:
                                judge_elite(I, rep, s2, gd, inds, snaps, sc, w)
                    finally:
                        I.setup = False
        for n, m, c in [(9, 8, 3), (20, 19, 10)] + beyond(I):
            for order in ('sorted', 'mixed'):
                for part in (tuple(range(n)), tuple(i // 2 for i in range(n))):
                    I.setup = True
                    try:
                        for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, 'bin', n, m, c, tp, part, order, 'C01'):
                            judge_best(I, rep, s2, gd, inds, snaps, sc, w)
                            if tp == 'best' and len(set(part)) == n:
                                judge_elite(I, rep, s2, gd, inds, snaps, sc, w)
                    finally:
                        I.setup = False


@rule('C01')
def best_survives_unsorted(I, rep, tier):
    for tp in ('best', 'random'):
        for kind in ('bin', 'cat', 'order', 'gray'):
            for n, m, c in ((3, 3, 2), (4, 3, 2), (3, 2, 3)):
                for part in ((0, 1, 2, 3)[:n], (0, 1, 0, 1)[:n], (0, 0, 0, 0)[:n]):
                    if n == 4 and (kind != 'bin' or part == (0, 1, 0, 1)) and tier == 'quick':
                        continue
                    for x in replacement(I, rep, kind, n, m, c, tp, part, 'unsorted', 'C01'):
                        s2, gd, inds, snaps, sc, refs, csn, w = x
                        judge_best(I, rep, s2, gd, inds, snaps, sc, w)


@rule('C01')
def best_survives_recorded(I, rep, tier):
    """record the generation, then replace it"""
    for tp in ('best', 'random'):
        for kind in ('bin', 'cat'):
            for n, m, c in ((3, 3, 2), (4, 3, 2), (6, 5, 3), (9, 8, 2)):
                for part in (tuple(range(n)), tuple(i // 2 for i in range(n))):
                    I.setup = True
                    try:
                        for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, kind, n, m, c, tp, part, 'recorded', 'C01'):
                            judge_best(I, rep, s2, gd, inds, snaps, sc, w)
                            if tp == 'best' and len(set(part)) == n:
                                judge_elite(I, rep, s2, gd, inds, snaps, sc, w)
                    finally:
                        I.setup = False


@rule('C01')
def vega_best(I, rep, tier):
    """VEGA replaces with the same class; fitness is a list there, the order the population's own one (lexicographic)"""
    for tp in ('best', 'random'):
        for n, m, c in ((3, 3, 2), (4, 3, 2)):
            for perm, rec in [(q, r) for q in itertools.permutations(range(n)) for r in (False, True)]:
                for s, pop, inds in population(I, I.new_state(), 'bin', n, num_individ=m, multi=2):
                    for i, d in enumerate(inds):
                        setfield(s, d, 'score', lst(s, [perm[i] // 2, perm[i]]))
                        setfield(s, d, 'genotype', lst(s, [K(x) for x in format(i, '04b')]))
                    s, ch, refs = add_children(I, s, pop, c, 'bin', inds[0])
                    for s, gd in gadata(I, s, pop, 'MultiGaData'):
                        setattrs(I, s, gd, children=ch)
                        if rec:
                            for i, d in enumerate(inds):
                                setfield(s, d, 'rank', 1 + (i % 2))
                            setattrs(I, s, pop, is_sorted=False)
                        snaps = [content(s, d) for d in inds]
                        rep.scenarios += 1
                        rep.cur = 'list scores in order %s, transfer "%s"%s' % (list(perm), tp, ', after recording' if rec else '')
                        w = where(I, s, 'NewGeneration', 'execute')
                        if rec:
                            s = (runs(rep, 'C01', meth(I, s, gd, 'update'), w) or [(None, None)])[0][0]
                            if s is None:
                                continue
                        for s, ng in ok1(new(I, s, 'NewGeneration', transfer_parents=tp), 'NewGeneration'):
                            for s2, _ in runs(rep, 'C01', meth(I, s, ng, 'execute', gd), w):
                                new_ = elems(s2, attr(I, s2, gd, 'population'))
                                sv = None if new_ is None else survivors(s2, new_, inds, snaps)
                                rep.ob('C01/best individual survives', s2, None if sv is None else perm.index(n - 1) in sv, w, lambda: 'kept: individuals %s of scores %s' % (sv, perm))


@rule('C01')
def front_survives(I, rep, tier):
    """multi-objective: any arrangement of ranks, recorded, selected from and replaced"""
    for rk in tuple((1,) * (t + 1) + (2, 3) for t in I.thresholds(40)) + ((1,) * 3, (1, 2, 2), (2, 1, 3), (2, 1, 1), (3, 2, 1), (1, 3, 1), (4, 1, 2, 1), (2, 2, 1, 1), (1, 1, 1, 1), (2, 1, 4, 1, 1), (1,) * 13 + (3, 2, 4)):
        for pc, ni in ((HALF, max(1, len(rk) - 1)), (NF(N.of(Fr(95, 100)).d), max(1, len(rk) - 1)), (NF(N.of(Fr(95, 100)).d), max(2, len(rk) // 4))):
            for s, pop, inds in population(I, I.new_state(), 'bin', len(rk), num_individ=ni):
                for i, d in enumerate(inds):
                    setfield(s, d, 'rank', rk[i])
                    setfield(s, d, 'score', NF(N.of(Fr(1, 1 + rk[i])).d))
                    setfield(s, d, 'genotype', lst(s, [K(x) for x in format(0 if i == 2 else i, '04b')]))
                snaps = [content(s, d) for d in inds]
                for s, gd in gadata(I, s, pop, 'MultiGaData', children_percent=pc):
                    rep.scenarios += 1
                    rep.cur = 'ranks %s, configured size %d' % (rk, ni)
                    w = where(I, s, 'MultiNewGeneration', 'execute')
                    for s, ng in ok1(new(I, s, 'MultiNewGeneration', transfer_parents='best'), 'MultiNewGeneration'):
                        for s, sel in ok1(new(I, s, 'BalancedSelection'), 'BalancedSelection'):
                            for s, x in ok1(new(I, s, 'OnePointCrossover'), 'OnePointCrossover'):
                                I.setup = True
                                try:
                                    ss = [s]
                                    for o, name in ((gd, 'update'), (sel, 'execute'), (x, 'execute'), (ng, 'execute')):
                                        ss = [s3 for s2 in ss for s3, _ in runs(rep, 'C01', meth(I, s2, o, name, *(() if name == 'update' else (gd,))), w)]
                                finally:
                                    I.setup = False
                                for s2 in ss:
                                    new_ = elems(s2, attr(I, s2, gd, 'population'))
                                    fr = [i for i in range(len(rk)) if rk[i] == 1]
                                    keep = None if new_ is None else [i for i in fr if any(unchanged_but_decoded(s2, m, snaps[i]) for m in new_)]
                                    rep.ob('C01/every rank-1 individual survives', s2, None if keep is None else keep == fr, w, lambda: 'kept %s of the rank-1 individuals %s' % (keep, fr))


def unchanged_but_decoded(st, m, snap):
    a = content(st, m)
    return all(a.get(k) == snap[k] for k in snap if k not in ('phenotype',))


# ------------------------------------------------------------------ C05
def judge_size(I, rep, s2, gd, inds, snaps, refs, csn, m, c, w):
    pop = attr(I, s2, gd, 'population')
    new_ = elems(s2, pop)
    want = max(m, c) + 1
    rep.ob('C05/size is the larger of configured size and children, plus one', s2, None if new_ is None else len(new_) == want, w, lambda: '%d individuals instead of %d' % (len(new_), want))
    if new_ is None:
        return
    left = list(new_)
    lost = 0
    for d, sn in zip(refs, csn):
        hit = [x for x in left if x == d or (isinstance(x, Ref) and content(s2, x) == sn)]
        if hit:
            left.remove(hit[0])
        else:
            lost += 1
    rep.ob('C05/every child is a member', s2, not lost, w, lambda: '%d children are missing' % lost)
    strange = [x for x in left if not (isinstance(x, Ref) and any(content(s2, x) == sn for sn in snaps))]
    rep.ob('C05/all others are unchanged individuals of the current generation', s2, not strange, w, lambda: show(s2, strange[0]))
    rep.ob('C05/configured size is kept', s2, attr(I, s2, pop, 'num_individ') == arg(m), w, lambda: show(s2, attr(I, s2, pop, 'num_individ')))


@rule('C05')
def size(I, rep, tier):
    for tp in ('best', 'random'):
        for n, m, c in SHAPES + [(2, 2, 1), (3, 2, 1), (3, 3, 4), (5, 4, 1)]:
            parts = partitions(n) if n < 5 else [tuple(range(5)), (0, 1, 1, 0, 2), (0, 0, 1, 2, 2)]
            if n >= 5 and m - c >= 3:
                parts = parts[:1]
            if m - c <= 0:
                parts = parts[-1:] + parts[:1]
            for part in parts:
                for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, 'bin', n, m, c, tp, part, 'sorted', 'C05'):
                    judge_size(I, rep, s2, gd, inds, snaps, refs, csn, m, c, w)


@rule('C05')
def size_large(I, rep, tier):
    """larger populations, one resolution of the draws"""
    for tp in ('best', 'random'):
        for kind in ('bin', 'cat'):
            for n, m, c in ((12, 12, 3), (13, 12, 11), (16, 15, 7), (16, 15, 14), (16, 15, 20), (13, 12, 1)):
                for part in (tuple(range(n)), tuple(i // 2 for i in range(n)), (0,) * n):
                    I.setup = True
                    try:
                        for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, kind, n, m, c, tp, part, 'sorted', 'C05'):
                            judge_size(I, rep, s2, gd, inds, snaps, refs, csn, m, c, w)
                    finally:
                        I.setup = False
        for n, m, c in [(9, 8, 3), (20, 19, 10)] + beyond(I):
            for part in (tuple(range(n)), tuple(i // 2 for i in range(n))):
                I.setup = True
                try:
                    for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, 'bin', n, m, c, tp, part, 'mixed', 'C05'):
                        judge_size(I, rep, s2, gd, inds, snaps, refs, csn, m, c, w)
                finally:
                    I.setup = False


@rule('C05')
def size_unsorted(I, rep, tier):
    for tp in ('best', 'random'):
        for kind in ('order', 'gray'):
            for n, m, c in ((3, 3, 2), (3, 2, 1), (3, 2, 3)):
                for part in partitions(n):
                    for s2, gd, inds, snaps, sc, refs, csn, w in replacement(I, rep, kind, n, m, c, tp, part, 'unsorted', 'C05'):
                        judge_size(I, rep, s2, gd, inds, snaps, refs, csn, m, c, w)


@rule('C05')
def front_and_children(I, rep, tier):
    """multi-objective replacement: all the children and each rank-1 individual once ('best'), or all the children and
    individuals of the current generation ('random')"""
    for tp, rk in [('best', x) for x in ((1,), (1, 1, 1), (1, 2, 2), (1, 1, 2, 5), (1, 1, 1, 1, 2, 2, 3, 4), (1,) * 12 + (2, 3), (1,) + (2,) * 12)] + [('random', (1, 1, 1) + (2,) * 12), ('random', (1,) * 12)]:
        for c, ni in ((1, len(rk) - 1), (4, len(rk) - 1), (20, len(rk) - 1), (1, len(rk) // 4)):
            for s, pop, inds in population(I, I.new_state(), 'bin', len(rk), num_individ=max(1, ni)):
                for i, d in enumerate(inds):
                    setfield(s, d, 'rank', rk[i])
                    setfield(s, d, 'score', NF(N.of(Fr(1, 1 + rk[i])).d))
                    setfield(s, d, 'genotype', lst(s, [K(x) for x in format(i, '04b')]))
                s, ch, refs = add_children(I, s, pop, c, 'bin', inds[0])
                for s, gd in gadata(I, s, pop, 'MultiGaData'):
                    setattrs(I, s, gd, children=ch)
                    snaps = [content(s, d) for d in inds]
                    csn = [content(s, d) for d in refs]
                    rep.scenarios += 1
                    rep.cur = 'ranks %s, %d children, transfer "%s", configured size %d' % (rk, c, tp, max(1, ni))
                    w = where(I, s, 'MultiNewGeneration', 'execute')
                    for s, ng in ok1(new(I, s, 'MultiNewGeneration', transfer_parents=tp), 'MultiNewGeneration'):
                        I.setup = True
                        try:
                            res = runs(rep, 'C05', meth(I, s, ng, 'execute', gd), w)
                        finally:
                            I.setup = False
                        for s2, _ in res:
                            new_ = elems(s2, attr(I, s2, gd, 'population'))
                            if new_ is None:
                                rep.ob('C05/members', s2, None, w)
                                continue
                            left, lost = list(new_), 0
                            for d, sn in zip(refs, csn):
                                hit = [x for x in left if x == d or (isinstance(x, Ref) and content(s2, x) == sn)]
                                if hit:
                                    left.remove(hit[0])
                                else:
                                    lost += 1
                            rep.ob('C05/every child is a member', s2, not lost, w, lambda: '%d children are missing' % lost)
                            src = [next((i for i, sn in enumerate(snaps) if isinstance(x, Ref) and unchanged_but_decoded(s2, x, sn)), None) for x in left]
                            rep.ob('C05/all others are unchanged individuals of the current generation', s2, None not in src, w, lambda: show(s2, left[src.index(None)]))
                            if tp == 'best':
                                rep.ob('C05/the others are the rank-1 individuals, once each', s2, sorted(x for x in src if x is not None) == [i for i in range(len(rk)) if rk[i] == 1], w,
                                       lambda: 'individuals %s of ranks %s' % (src, rk))


# ------------------------------------------------------------------ recording: C02, C29, C03
def chains(st, scores):
    """(state, ascending order) for every order of the scores possible on this path"""
    n = len(scores)
    if n > 4:
        p = tuple(range(n))
        if all(N.of(x).is_const() for x in scores):
            p = tuple(sorted(p, key=lambda i: N.of(scores[i]).cval()))
        s = st.clone()
        if all(s.facts.entails(N.of(scores[b]) - N.of(scores[a])) for a, b in zip(p, p[1:])):
            return [(s, p)]
        raise Undecided('order of %d scores' % n)
    out = []
    for p in itertools.permutations(range(n)):
        s = st.clone()
        if all(s.assume(N.of(scores[b]) - N.of(scores[a])) for a, b in zip(p, p[1:])):
            out.append((s, p))
    return out


def record_world(I, rep, r, kind, n, order, prev, cls_='GaData'):
    """one update() of run data with arbitrary earlier contents"""
    for s, pop, inds in population(I, I.new_state(), kind, n, num_individ=max(1, n - 1)):
        sc = [field(s, d, 'score') for d in inds]
        if order.startswith('sorted'):
            for a, b in zip(sc, sc[1:]):
                s.assume(N.of(b) - N.of(a))
            setattrs(I, s, pop, is_sorted=True)
        if order == 'mixed':
            for i, d in enumerate(inds):
                setfield(s, d, 'score', (7 * i + 3) % n if n % 7 else (5 * i + 3) % n)
            sc = [field(s, d, 'score') for d in inds]
        if order.endswith('infeasible'):
            for d in inds[-2:]:
                setfield(s, d, 'feasible', False)
        snaps = [content(s, d) for d in inds]
        for s, gd in gadata(I, s, pop, cls_, fresh_=not prev):
            pre = {}
            pre['idx'] = N.const(0)
            pre['stag'] = N.const(0)
            pre['best'] = None
            if prev:
                pre['idx'] = N.of(sym('idx_generation', 'int', 1))
                pre['stag'] = N.of(sym('stagnation', 'int', 0))
                flds = ind_fields(s, inds[0])
                b = dct(s, **{k: sym('old_' + k, 'num') for k in flds})
                setfield(s, b, 'genotype', lst(s, [K('1'), K('0')]))
                setfield(s, b, 'feasible', prev != 'infeasible')
                setfield(s, b, 'idx_generation', sym('old_idx', 'int', 0))
                setattrs(I, s, gd, idx_generation=nv(pre['idx']), num_generation_no_improve=nv(pre['stag']), best_solution=b)
                pre['best'] = b
                pre['bsnap'] = dict(content(s, b), idx_generation=field(s, b, 'idx_generation'))
                pre['bscore'] = field(s, b, 'score')
                for h in HIST:
                    if prev == 'long':      # any number of earlier entries
                        s.mut(attr(I, s, gd, h).key).segs = (Sl(mkbase('old ' + h, sym('entries', 'int', 2), 'num'), 0, sym('entries', 'int', 2)),)
                    else:
                        s.mut(attr(I, s, gd, h).key).segs = (One(sym(h + '0', 'num')), One(sym(h + '1', 'num')))
            pre['hist'] = {h: elems(s, attr(I, s, gd, h)) for h in HIST}
            pre['hsegs'] = {h: segs(s, attr(I, s, gd, h)) for h in HIST}
            rep.scenarios += 1
            rep.cur = 'update() on a %s %s of %d, %s' % (order, POPCLS[kind], n, 'with a previous%s best' % (' ' + prev if prev is not True else '') if prev else 'first generation')
            w = where(I, s, cls_, 'update')
            for s2, _ in runs(rep, r, meth(I, s, gd, 'update'), w):
                yield s2, gd, pop, inds, sc, snaps, pre, w


HIST = ('historical_best', 'historical_mediocre', 'historical_worst')


def same_snap(st, a, b):
    """equality of two content dicts under the facts of the path"""
    if set(a) != set(b):
        return False
    return all3(True if a[k] == b[k] else same_snapv(st, a[k], b[k]) for k in a)


def same_snapv(st, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x[:1] != y[:1] or len(x) < 2 or len(x[1]) != len(y[1]):
            return False
        return all3(same_snapv(st, p, q) for p, q in zip(x[1], y[1]))
    if isinstance(x, tuple) or isinstance(y, tuple):
        return False
    return same(st, x, y)


def carries(st, b, idx):
    """does the solution carry this generation index"""
    f = ind_fields(st, b)
    if f is not None and 'idx_generation' not in f:
        return False
    x = field(st, b, 'idx_generation')
    if x == NONE:
        return False
    return None if to_num(x) is None else is_zero(st, N.of(x) - idx)


def judge_record(I, rep, s2, gd, pop, inds, sc, snaps, pre, w):
    b = attr(I, s2, gd, 'best_solution')
    if not isinstance(b, Ref) or ind_fields(s2, b) is None:
        rep.ob('C02/a best solution is reported', s2, False if isinstance(b, K) else None, w, lambda: show(s2, b))
        return
    got = content(s2, b)
    gi = field(s2, b, 'idx_generation')
    for s3, p in chains(s2, sc):
        i = p[-1]
        if pre['best'] is None:
            cases = [(s3, True)]
        else:
            d = N.of(sc[i]) - N.of(pre['bscore'])
            cases = []
            up = s3.clone()
            if up.assume(d, True):
                cases.append((up, True))
            if s3.assume(-d):
                cases.append((s3, False))
        for s4, improved in cases:
            if improved:
                # any fittest member of the generation will do
                cand = [k for k in range(len(sc)) if same(s4, sc[k], sc[i])]
                ok = any3(same_snap(s4, got, snaps[k]) for k in cand)
                rep.ob('C02/a strictly fitter generation replaces the best solution by its fittest individual', s4, ok, w, lambda: 'reported: %s' % show(s4, b))
                rep.ob('C02/best solution carries the generation it was found in', s4, carries(s4, b, pre['idx']), w, lambda: 'idx_generation %s' % (gi and show(s4, gi)))
            else:
                ok = same_snap(s4, dict(got, idx_generation=gi), pre['bsnap'])
                rep.ob('C02/best solution is kept unless a strictly fitter individual appears', s4, ok, w, lambda: 'reported: %s' % show(s4, b))
    keys = reach(s2, pop)
    rep.ob('C02/best solution is an independent copy', s2, not (reach(s2, b) & keys), w, 'shares objects with the population')


def any3(it):
    r = False
    for x in it:
        if x is True:
            return True
        if x is None:
            r = None
    return r


WORLDS = [('bin', n, 'sorted', p) for n in (1, 2, 3, 4, 7) for p in (False, True)] + [(k, 3, 'unsorted', p) for k in ('bin', 'cat', 'order', 'gray') for p in (False, True)] + \
         [('bin', 4, 'unsorted', p) for p in (False, True)] + \
         [('cat', 3, 'sorted infeasible', p) for p in (False, True, 'infeasible')] + [('cat', 3, 'sorted', 'infeasible')]


def big_worlds(I):
    return [('bin', n, 'mixed', p) for n in [12] + [t + d for t in I.thresholds(64) for d in (0, 1)] for p in (False, True)]


@rule('C02')
def best_ever(I, rep, tier):
    for kind, n, order, prev in WORLDS + big_worlds(I):
        for x in record_world(I, rep, 'C02', kind, n, order, prev):
            judge_record(I, rep, *x)


@rule('C29')
def history(I, rep, tier):
    for kind, n, order, prev in WORLDS + [('cat', 8, 'sorted', True), ('cat', 5, 'sorted', True), ('cat', 3, 'sorted', 'long')] + big_worlds(I):
        for s2, gd, pop, inds, sc, snaps, pre, w in record_world(I, rep, 'C29', kind, n, order, prev):
            ix = to_num(attr(I, s2, gd, 'idx_generation'))
            rep.ob('C29/generation index advances by one', s2, None if ix is None else is_zero(s2, ix - pre['idx'] - N.const(1)), w, lambda: 'index %r' % ix)
            for h, pos in zip(HIST, (n - 1, n // 2, 0)):
                e = elems(s2, attr(I, s2, gd, h))
                if prev == 'long':
                    g, o = segs(s2, attr(I, s2, gd, h)), pre['hsegs'][h]
                    if g is None:
                        rep.ob('C29/' + h, s2, None, w)
                        continue
                    dl = segs_len(g) - segs_len(o) - N.const(1)
                    rep.ob('C29/%s gets exactly one entry' % h, s2, is_zero(s2, dl), w, lambda: '%r entries added to a history of %r' % (dl + N.const(1), segs_len(o)))
                    if is_zero(s2, dl):
                        rep.ob('C29/earlier entries of %s are kept' % h, s2, True if g[:-1] == o and isinstance(g[-1], One) else None if any(not isinstance(x, Sl) for x in g[:-1]) else False, w, lambda: 'history %s became %s' % (o, g))
                    continue
                if e is None:
                    rep.ob('C29/' + h, s2, None, w)
                    continue
                old = pre['hist'][h]
                rep.ob('C29/%s gets exactly one entry' % h, s2, len(e) == len(old) + 1, w, lambda: '%d entries added' % (len(e) - len(old)))
                rep.ob('C29/earlier entries of %s are kept' % h, s2, same_list(s2, e[:len(old)], old), w, lambda: '%s became %s' % (old, e))
                if len(e) != len(old) + 1:
                    continue
                for s3, p in chains(s2, sc):
                    v = to_num(e[-1])
                    ok = None if v is None else is_zero(s3, v - N.of(sc[p[pos]]))
                    rep.ob('C29/%s is the score at position %s in ascending order' % (h, ('len-1', 'len//2', '0')[HIST.index(h)]), s3, ok, w,
                           lambda: '%r where the scores ascend as %s' % (v, [sc[k] for k in p]))


@rule('C29')
def average(I, rep, tier):
    for cls_ in ('GaData', 'MultiGaData'):
        for n in (1, 2, 3, 5, 8):
            for s, pop, inds in population(I, I.new_state(), 'bin', n, num_individ=max(1, n - 1)):
                for s, gd in gadata(I, s, pop, cls_):
                    rep.scenarios += 1
                    rep.cur = 'average of %d' % n
                    w = where(I, s, cls_, 'get_avg_score')
                    tot = N({})
                    for d in inds:
                        tot = tot + N.of(field(s, d, 'score'))
                    for s2, v in runs(rep, 'C29', meth(I, s, gd, 'get_avg_score'), w):
                        x = to_num(v)
                        rep.ob('C29/average is the mean fitness', s2, None if x is None else is_zero(s2, x - tot * N.const(Fr(1, n))), w, lambda: repr(x))


@rule('C03')
def counter(I, rep, tier):
    for kind, n, order, prev in WORLDS + big_worlds(I):
        for s2, gd, pop, inds, sc, snaps, pre, w in record_world(I, rep, 'C03', kind, n, order, prev):
            c = to_num(attr(I, s2, gd, 'num_generation_no_improve'))
            for s3, p in chains(s2, sc):
                i = p[-1]
                if pre['best'] is None:
                    rep.ob('C03/first generation counts as an improvement', s3, None if c is None else is_zero(s3, c), w, lambda: 'counter %r' % c)
                    continue
                d = N.of(sc[i]) - N.of(pre['bscore'])
                up = s3.clone()
                if up.assume(d, True):
                    rep.ob('C03/an improvement resets the counter', up, None if c is None else is_zero(up, c), w, lambda: 'counter %r after an improvement' % c)
                if s3.assume(-d):
                    rep.ob('C03/no improvement adds exactly one', s3, None if c is None else is_zero(s3, c - pre['stag'] - N.const(1)), w, lambda: 'counter %r without an improvement' % c)


@rule('C02')
def multi_best(I, rep, tier):
    multi_counter(I, rep, tier, 'C02')


@rule('C03')
def multi_counter(I, rep, tier, r='C03'):
    """the recorded Pareto set stays or changes (in value, membership or size)"""
    for rk in ((1,), (1, 1), (2, 1), (1, 2, 1), (1, 1, 1)):
        for change in ('same', 'genotype', 'objective', 'larger', 'smaller', 'last genotype', 'last objective', 'one smaller, one larger'):
            if change[:4] in ('last', 'one ') and rk.count(1) < 2:
                continue
            for s, pop, inds in population(I, I.new_state(), 'bin', len(rk), glen=2, num_individ=max(1, len(rk) - 1)):
                for i, d in enumerate(inds):
                    setfield(s, d, 'rank', rk[i])
                    setfield(s, d, 'score', NF(N.of(Fr(1, 1 + rk[i])).d))
                    setfield(s, d, 'genotype', lst(s, [K(x) for x in format(i, '02b')]))
                    setfield(s, d, 'obj_score', lst(s, [i, 2]))
                    setfield(s, d, 'phenotype', lst(s, [i]))
                for s, gd in gadata(I, s, pop, 'MultiGaData', fresh_=True):
                    w = where(I, s, 'MultiGaData', 'update')
                    rep.scenarios += 1
                    rep.cur = 'Pareto set of ranks %s, then: %s' % (rk, change)
                    for s, _ in ok1(meth(I, s, gd, 'update'), 'update'):
                        c = to_num(attr(I, s, gd, 'num_generation_no_improve'))
                        rep.ob(r + '/first generation counts as an improvement', s, None if c is None else is_zero(s, c), w, lambda: 'counter %r' % c)
                        pb = attr(I, s, gd, 'best_solution')
                        if r == 'C02':
                            rep.ob(r + '/best solution carries the generation it was found in', s, carries(s, pb, N.const(0)), w, 'first generation')
                        st = N.of(sym('stagnation', 'int', 0))
                        ix = N.of(sym('idx_generation', 'int', 1))
                        setattrs(I, s, gd, num_generation_no_improve=nv(st), idx_generation=nv(ix))
                        setattrs(I, s, pop, is_sorted=False)
                        mem = elems(s, pop)
                        f = next(d for d in mem if to_num(field(s, d, 'rank')) == N.const(1))
                        if change[:4] in ('last', 'one '):
                            f = [d for d in mem if to_num(field(s, d, 'rank')) == N.const(1)][-1]
                        if change == 'one smaller, one larger':
                            d2 = dct(s, **{k: field(s, f, k) for k in ind_fields(s, f)})
                            setfield(s, d2, 'obj_score', lst(s, [-5, 9]))
                            s.mut(pop.key).segs = s.get(pop.key).segs + (One(d2),)
                            setfield(s, f, 'rank', 2)
                        elif change.endswith('genotype'):
                            setfield(s, f, 'genotype', lst(s, [K('1'), K('1')]))
                        elif change.endswith('objective'):
                            setfield(s, f, 'obj_score', lst(s, [-1, 2]))
                        elif change == 'larger':
                            d2 = dct(s, **{k: field(s, f, k) for k in ind_fields(s, f)})
                            setfield(s, d2, 'obj_score', lst(s, [-5, 9]))
                            s.mut(pop.key).segs = s.get(pop.key).segs + (One(d2),)
                        elif change == 'smaller':
                            if rk.count(1) < 2:
                                continue
                            setfield(s, f, 'rank', 2)
                        for s2, _ in runs(rep, r, meth(I, s, gd, 'update'), w):
                            c = to_num(attr(I, s2, gd, 'num_generation_no_improve'))
                            g = to_num(attr(I, s2, gd, 'idx_generation'))
                            pb = attr(I, s2, gd, 'best_solution')
                            if r == 'C02':
                                rep.ob(r + '/best solution carries the generation it was found in', s2, carries(s2, pb, N.const(0) if change == 'same' else ix), w, lambda: show(s2, field(s2, pb, 'idx_generation')))
                            if change == 'same':
                                rep.ob(r + '/no improvement adds exactly one', s2, None if c is None else is_zero(s2, c - st - N.const(1)), w, lambda: 'counter %r without an improvement' % c)
                            else:
                                rep.ob(r + '/an improvement resets the counter', s2, None if c is None else is_zero(s2, c), w, lambda: 'counter %r after an improvement' % c)
                            rep.ob(r + '/generation index advances by one', s2, None if g is None else is_zero(s2, g - ix - N.const(1)), w, lambda: 'index %r' % g)
