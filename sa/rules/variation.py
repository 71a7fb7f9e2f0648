"""Crossover and mutation (C06, C09, C10, C11, C12, C13)."""
from contextlib import nullcontext

from .common import *

LOCUS = ['OnePointCrossover', 'TwoPointCrossover', 'UniformCrossover']
ALLX = LOCUS + ['OrderCrossover']
COMB = ['SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation']


def crossover_world(I, kind, npar, glen, npop=None, genes=None, feas=False, extra=False, midrun=True):
    """-> [(st, gd, pop, inds, parents, prefs)]; the parents' genes are opaque (or the given lists)"""
    out = []
    npop = npop or max(2, npar)
    for s, pop, inds in population(I, I.new_state(), kind, npop, glen=glen, num_individ=max(1, npop - 1)):
        if genes is not None:
            for d, g in zip(inds, genes):
                setfield(s, d, 'genotype', lst(s, g))
        if feas is not False:
            for n, d in enumerate(inds):
                setfield(s, d, 'feasible', FALSE if feas in (n % 2, 2) else TRUE)
        if extra:       # a field some selections and fitness functions add
            for n, d in enumerate(inds):
                setfield(s, d, 'rank', N.const(n + 1))
        for s, par, prefs in parents_pop(I, s, pop, inds[:npar]):
            for s, gd in gadata(I, s, pop):
                setattrs(I, s, gd, parents=par)
                if midrun:      # the last replacement has made the children the population
                    setattrs(I, s, gd, children=pop)
                out.append((s, gd, pop, inds, par, prefs))
    return out


def kinds_for(x):
    return ['order'] if x == 'OrderCrossover' else ['bin', 'gray', 'cat']


def run_cross(I, rep, x, kind, npar, glen, r, genes=None, feas=False, fixed=None, **kw):
    for s, gd, pop, inds, par, prefs in crossover_world(I, kind, npar, glen, genes=genes, feas=feas, **kw):
        rep.scenarios += 1
        rep.cur = '%s on a %s population, %d parents, %d genes%s' % (x, kind, npar, glen, '' if genes is None else ' ' + repr(genes)[:80])
        for s, c in ok1(new(I, s, x), x):
            w = where(I, s, x, 'execute')
            pre = (snapshot(s, pop), snapshot(s, par))
            prekeys = reach(s, pop) | reach(s, par)
            pg = [elems(s, field(s, p, 'genotype')) for p in prefs]
            with Resolved(I, fixed or 0) if fixed is not None else nullcontext():
                res = meth(I, s, c, 'execute', gd)
            for s2, _ in runs(rep, r, res, w):
                ch = attr(I, s2, gd, 'children')
                yield s2, gd, pop, par, inds, prefs, pg, ch, (None if ch is None else elems(s2, ch)), pre, prekeys, w


@rule('C09')
def locus(I, rep, tier):
    lens = (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6)
    for x in LOCUS:
        for glen in ((2,) if x != 'TwoPointCrossover' else ()) + lens + tuple(t + 1 for t in I.thresholds(30 if x != 'UniformCrossover' else 9)):
            for kind in kinds_for(x):
                loci(I, rep, x, kind, glen)


@rule('C09')
def long_genotypes(I, rep, tier):
    """long genotypes (some resolutions of the draws)"""
    for x in LOCUS:
        for glen in [12] + [t + 2 for t in I.thresholds(110)]:
            for k in range(6):
                loci(I, rep, x, kinds_for(x)[k % 3], glen, fixed=101 * k)


def loci(I, rep, x, kind, glen, **kw):
    cut = {'OnePointCrossover': 1, 'TwoPointCrossover': 2}.get(x)
    for s, gd, pop, par, inds, prefs, pg, ch, kids, pre, pk, w in run_cross(I, rep, x, kind, 2, glen, 'C09', **kw):
        if kids is None:
            rep.ob('C09/children', s, None, w)
            continue
        for k in kids:
            g = elems(s, field(s, k, 'genotype'))
            if g is None:
                rep.ob('C09/genotype is a list of genes', s, False, w, lambda: 'child genotype is %s' % show(s, field(s, k, 'genotype')))
                continue
            rep.ob('C09/child has the length of its parents', s, len(g) == glen, w, lambda: 'child %s of parents of length %d' % (g, glen))
            src = []
            good = len(g) == glen
            for i, v in enumerate(g[:glen]):
                o = [j for j in (0, 1) if same(s, v, pg[j][i])]
                src.append(o)
                good = good and bool(o)
            rep.ob('C09/each gene comes from the same position of a parent', s, good, w, lambda: 'child %s of parents %s and %s' % (g, pg[0], pg[1]))
            if cut and good:
                rep.ob('C09/both parents contribute', s, any(0 in o for o in src) and any(1 in o for o in src), w,
                       lambda: 'child %s is a copy of one parent' % (g,))
                sw = sum(1 for a, b in zip(src, src[1:]) if a != b)
                rep.ob('C09/at most %d cut point(s)' % cut, s, sw <= cut, w, lambda: 'child %s of %s and %s' % (g, pg[0], pg[1]))
                if cut == 2:
                    rep.ob('C09/both cut points lie inside the genotype', s, bool(set(src[0]) & set(src[-1])), w,
                           lambda: 'child %s of %s and %s ends in the other parent' % (g, pg[0], pg[1]))


@rule('C09')
def locus_reused(I, rep, tier):
    """one operator object used on populations of different genotype lengths"""
    for x in LOCUS:
        for l1, l2 in ((3, 5), (5, 3)):
            (s, gd, pop, inds, par, prefs), = crossover_world(I, 'cat', 2, l1)[:1]
            rep.scenarios += 1
            rep.cur = '%s used on genotypes of length %d and then %d' % (x, l1, l2)
            for s, c in ok1(new(I, s, x), x):
                w = where(I, s, x, 'execute')
                for s, _ in runs(rep, 'C09', meth(I, s, c, 'execute', gd), w)[:2]:
                    for s, pop2, inds2 in population(I, s, 'cat', 2, glen=l2, tag='y'):
                        for s, par2, prefs2 in parents_pop(I, s, pop2, inds2):
                            for s, gd2 in gadata(I, s, pop2):
                                setattrs(I, s, gd2, parents=par2)
                                pg = [elems(s, field(s, p, 'genotype')) for p in prefs2]
                                for s2, _ in runs(rep, 'C09', meth(I, s, c, 'execute', gd2), w):
                                    for k in elems(s2, attr(I, s2, gd2, 'children')) or []:
                                        g = elems(s2, field(s2, k, 'genotype'))
                                        rep.ob('C09/child has the length of its parents', s2, None if g is None else len(g) == l2, w, lambda: 'child %s of parents of length %d' % (g, l2))
                                        rep.ob('C09/each gene comes from the same position of a parent', s2,
                                               None if g is None else all(same(s2, v, pg[0][i]) or same(s2, v, pg[1][i]) for i, v in enumerate(g[:l2])), w,
                                               lambda: 'child %s of parents %s and %s' % (g, pg[0], pg[1]))
                                        if x != 'UniformCrossover' and g is not None and len(g) == l2:
                                            rep.ob('C09/both parents contribute', s2, not same_list(s2, g, pg[0]) and not same_list(s2, g, pg[1]), w,
                                                   lambda: 'child %s is a copy of one parent' % (g,))


@rule('C06')
def one_fresh_child(I, rep, tier):
    combos = [(0, 3, False), (2, 4, 0), (4, 3, 1)] + ([(6, 3, 2), (4, 4, 0), (4, 3, False)] if tier == 'thorough' else [])
    for x in ALLX:
        for kind in kinds_for(x):
            for npar, glen, feas in combos:
                if x == 'UniformCrossover' and npar == 6:
                    continue
                genes = None
                if x == 'OrderCrossover':
                    base = list(range(glen))
                    genes = [[(v * (i % 2 * 2 - 1) + i) % glen for v in base] for i in range(max(2, npar))]
                fresh_children(I, rep, x, kind, npar, glen, genes, feas, extra=npar == 2, midrun=npar == 4)


@rule('C06')
def twins(I, rep, tier):
    """pairs of two members with equal genes"""
    for x in ALLX:
        for kind in kinds_for(x):
            g = [2, 0, 1] if kind not in BINARY else [K('1'), K('0'), K('1')]
            fresh_children(I, rep, x, kind, 2, 3, [list(g), list(g)], False)


@rule('C06')
def many_pairs(I, rep, tier):
    """many parents (one resolution of the draws)"""
    for x in ALLX:
        for kind in kinds_for(x)[:1] if tier == 'quick' else kinds_for(x):
            for npar in [18] + sorted({2 * q for t in I.thresholds(110) for q in (t // 2 + 1, t + 1) if q <= 56}):
                glen = 6
                genes = [[(v * (1 if i % 2 else 5) + i) % glen for v in range(glen)] for i in range(npar)]
                if kind in BINARY:
                    genes = [[K('01'[(i >> v) & 1]) for v in range(glen)] for i in range(npar)]
                fresh_children(I, rep, x, kind, npar, glen, genes, False, fixed=0)


def fresh_children(I, rep, x, kind, npar, glen, genes, feas, **kw):
    for s, gd, pop, par, inds, prefs, pg, ch, kids, pre, pk, w in run_cross(I, rep, x, kind, npar, glen, 'C06', genes, feas, **kw):
        if kids is None:
            rep.ob('C06/children', s, None, w)
            continue
        rep.ob('C06/one child per pair', s, len(kids) == npar // 2, w, lambda: '%d children of %d parents' % (len(kids), npar))
        rep.ob('C06/parents and population unmodified', s, (snapshot(s, pop), snapshot(s, par)) == pre, w,
               lambda: 'population %s parents %s' % (show(s, pop), show(s, par)))
        rep.ob('C06/same population object', s, attr(I, s, gd, 'population') == pop, w, 'ga_data.population replaced')
        keys = ind_fields(s, inds[0])
        lists = set()
        for n, k in enumerate(kids):
            fk = ind_fields(s, k)
            rep.ob('C06/child has every field', s, fk is not None and set(fk) == set(keys), w, lambda: 'child %s' % show(s, k))
            for f in ('score', 'obj_score', 'phenotype'):
                if f in keys:
                    rep.ob('C06/%s of a child is unset' % f, s, field(s, k, f) == NONE, w, lambda: 'child %s' % show(s, k))
            rep.ob('C06/child marked feasible', s, field(s, k, 'feasible') == TRUE, w, lambda: 'child %s' % show(s, k))
            ks = reach(s, k)
            rep.ob('C06/child shares nothing with parents or population', s, not (ks & pk), w, lambda: 'child %s shares a list or dict' % show(s, k))
            rep.ob('C06/children share nothing', s, not ks & lists, w, lambda: 'child %d shares a list' % n)
            lists |= ks
            g = elems(s, field(s, k, 'genotype'))
            if g is not None and 2 * n + 1 < len(pg):
                a, b = pg[2 * n], pg[2 * n + 1]
                if x == 'OrderCrossover':
                    okp = all(any(same(s, v, y) for y in a + b) for v in g)
                else:
                    okp = len(g) <= len(a) and all(same(s, v, a[i]) or same(s, v, b[i]) for i, v in enumerate(g))
                rep.ob('C06/child n comes from pair n', s, okp, w, lambda: 'child %d = %s, pair %s / %s' % (n, g, a, b))


def order_pairs(tier):
    """pairs of duplicate-free genotypes (up to renaming)"""
    for L in ((3, 4) if tier == 'quick' else (3, 4, 5)):
        a = list(range(L))
        for p in itertools.permutations(a):
            yield L, a, list(p)
    extra = [(5, [0, 1, 2, 3, 4], p) for p in ([4, 3, 2, 1, 0], [1, 2, 3, 4, 0], [2, 0, 4, 1, 3], [0, 1, 2, 3, 4])]
    if tier == 'quick':
        yield from extra
    # different subsets of the value range
    for L in (3, 4) if tier == 'quick' else (3, 4, 5):
        a = list(range(L))
        for k in range(1, L + 1):
            b = [x + k for x in a]
            for sh in range(L):
                yield L, a, b[sh:] + b[:sh]
                yield L, a, (b[sh:] + b[:sh])[::-1]


@rule('C10')
def order_crossover(I, rep, tier):
    for L, a, b in order_pairs(tier):
        arrangement(I, rep, L, a, b)


@rule('C10')
def long_arrangements(I, rep, tier):
    """longer genotypes: every segment"""
    for L in sorted({11} | {t + d for t in I.thresholds(24) for d in (2, 3)} | {t + 3 for t in I.thresholds(110)} | {2 * t + 5 for t in I.thresholds(64)}):
        a = list(range(L))
        if L <= 14:
            arrangement(I, rep, L, a, [(k * (5 if L % 5 else 3) + 2) % L for k in a])
            arrangement(I, rep, L, a, [x + 3 for x in a][::-1])
        else:
            for k in range(40 if L < 40 else 12):
                arrangement(I, rep, L, a, [x + 3 for x in a][::-1] if k % 2 else a[k % L:] + a[:k % L], fixed=97 * k)


def arrangement(I, rep, L, a, b, **kw):
    for s, gd, pop, par, inds, prefs, pg, ch, kids, pre, pk, w in run_cross(I, rep, 'OrderCrossover', 'order', 2, L, 'C10', [a, b], **kw):
        if kids is None or len(kids) < 1:
            rep.ob('C10/children', s, None, w)
            continue
        for k in kids:
            g = elems(s, field(s, k, 'genotype'))
            rep.ob('C10/child has the length of its parents', s, g is not None and len(g) == L, w, lambda: 'child %s' % (g,))
            if g is None:
                continue
            rep.ob('C10/no gene repeats', s, len(set(g)) == len(g), w, lambda: 'child %s' % (g,))
            rep.ob('C10/genes come from the parents', s, all(any(same(s, v, y) for y in pg[0] + pg[1]) for v in g), w, lambda: 'child %s' % (g,))
            if len(g) == L:
                rep.ob('C10/a segment of one parent stays in place, the rest comes from the other', s, segment_kept(s, g, pg[0], pg[1]) or segment_kept(s, g, pg[1], pg[0]), w,
                       lambda: 'child %s of %s and %s' % (g, pg[0], pg[1]))


def segment_kept(s, g, p, q):
    """g[i:j] == p[i:j] for some i < j and every other gene is one of q"""
    there = [any(same(s, v, y) for y in q) for v in g]
    i = there.index(False) if False in there else 0
    j = len(there) - there[::-1].index(False) if False in there else 0
    if i < j:
        return all(same(s, g[k], p[k]) for k in range(i, j))
    return any(same(s, a, b) for a, b in zip(g, p))


# ------------------------------------------------------------------ mutation
def children_world(I, kind, nkids, glen, gens=None, genes=None, npop=2, st=None):
    """ga_data with children as crossover leaves them (unevaluated)"""
    out = []
    for s, pop, inds in population(I, st or I.new_state(), kind, npop, glen=glen, gens=gens, num_individ=max(1, npop - 1)):
        for s, ch in ok1(meth(I, s, pop, 'get_empty_copy'), 'get_empty_copy'):
            kids = []
            for i in range(nkids):
                (s, d), = ok1(meth(I, s, pop, 'get_empty_individ'), 'get_empty_individ')
                opaque_individual(I, s, d, kind, i, glen, 'c', False, 0, None, False)
                if genes is not None:
                    setfield(s, d, 'genotype', lst(s, genes[i]))
                kids.append(d)
            s.mut(ch.key).segs = tuple(One(k) for k in kids)
            for s, gd in gadata(I, s, pop):
                setattrs(I, s, gd, children=ch)
                s.events = ()
                out.append((s, gd, pop, ch, kids))
    return out


def others(st, kids):
    return tuple(tuple((k, snapshot(st, v)) for k, v in st.get(d.key).fields.items() if k != K('genotype')) for d in kids)


def frame_conditions(I, rep, r, s, gd, pop, ch, kids, pre, w):
    rep.ob(r + '/nothing but child genotypes changes', s,
           (snapshot(s, pop), others(s, kids)) == pre and elems(s, ch) == kids and attr(I, s, gd, 'children') == ch and attr(I, s, gd, 'population') == pop,
           w, lambda: 'population %s children %s' % (show(s, pop), show(s, ch)))


@rule('C11')
def combinatory(I, rep, tier):
    combos = [(1, 3), (1, 4), (2, 3), (1, 5), (1, 7)] + ([(2, 4), (3, 3), (1, 9)] if tier == 'thorough' else [])
    for m in COMB:
        for nk, glen in combos:
            rearranged(I, rep, m, nk, glen)


@rule('C11')
def long_combinatory(I, rep, tier):
    """long genotypes: every position drawn, or some resolutions of the draws; many children"""
    thr = I.thresholds(110)
    for m in COMB:
        for glen in ([2, 11] if m != 'ShiftMutation' else [11]) + [t + d for t in thr if t <= 14 for d in (1, 3)]:
            rearranged(I, rep, m, 1, glen, sorted(range(glen), key=lambda v: v * 7 % 13), lvl=1.0)
            if glen > 9:
                for k in range(16):
                    rearranged(I, rep, m, 1, glen, [v * 7 % 4 for v in range(glen)], fixed=61 * k, lvl=1.0)
        for glen in [t + 2 for t in thr if t > 14]:
            for k in range(12):
                rearranged(I, rep, m, 1, glen, sorted(range(glen), key=lambda v: v * 7 % 13), fixed=89 * k, lvl=1.0)
        for nk in [3, 9] + [t + 1 for t in thr if t <= 60]:
            rearranged(I, rep, m, nk, 5, [3, 0, 4, 1, 2], fixed=0, lvl=0.5)
        rearranged(I, rep, m, 1, 5, [1, 1, 2, 1, 2], lvl=1.0)


def rearranged(I, rep, m, nk, glen, genes=None, fixed=None, lvl=None):
    for s, gd, pop, ch, kids in children_world(I, 'order', nk, glen, genes=None if genes is None else [genes] * nk, npop=max(2, nk)):
        rep.scenarios += 1
        rep.cur = '%s, %d children, %d genes%s' % (m, nk, glen, '' if genes is None else ' %s, level %s' % (genes[:12], lvl))
        for s, mu in ok1(new(I, s, m, mutation_lvl=sym_level() if lvl is None else lvl), m):
            w = where(I, s, m, 'execute')
            pre = (snapshot(s, pop), others(s, kids))
            g0 = [elems(s, field(s, k, 'genotype')) for k in kids]
            with Resolved(I, fixed) if fixed is not None else nullcontext():
                res = meth(I, s, mu, 'execute', gd)
            for s2, _ in runs(rep, 'C11', res, w):
                frame_conditions(I, rep, 'C11', s2, gd, pop, ch, kids, pre, w)
                seen = set()
                for k, g in zip(kids, g0):
                    h = elems(s2, field(s2, k, 'genotype'))
                    rep.ob('C11/child keeps exactly its genes', s2, None if h is None else sorted(map(repr, h)) == sorted(map(repr, g)), w,
                           lambda: '%s became %s' % (g, h))
                    ks = reach(s2, field(s2, k, 'genotype'))
                    rep.ob('C11/children do not share genotypes', s2, not ks & seen, w, 'two children share one list')
                    seen |= ks


def sym_level():
    t = sym('level', 'float')
    set_bounds(t, 0, 1)
    return t


@rule('C12')
def bit_mutation(I, rep, tier):
    for kind in BINARY:
        for nk in (1, 2):
            for s, gd, pop, ch, kids in children_world(I, kind, nk, 4 if nk == 1 else 3, npop=2):
                rep.scenarios += 1
                rep.cur = 'BinStringMutation on %s population, %d children' % (kind, nk)
                for s, mu in ok1(new(I, s, 'BinStringMutation', mutation_lvl=sym_level()), 'BinStringMutation'):
                    w = where(I, s, 'BinStringMutation', 'execute')
                    pre = (snapshot(s, pop), others(s, kids))
                    g0 = [elems(s, field(s, k, 'genotype')) for k in kids]
                    seen = {}
                    for s2, _ in runs(rep, 'C12', meth(I, s, mu, 'execute', gd), w):
                        frame_conditions(I, rep, 'C12', s2, gd, pop, ch, kids, pre, w)
                        for n, (k, g) in enumerate(zip(kids, g0)):
                            h = elems(s2, field(s2, k, 'genotype'))
                            rep.ob('C12/length unchanged', s2, None if h is None else len(h) == len(g), w, lambda: '%s became %s' % (g, h))
                            if h is None or len(h) != len(g):
                                continue
                            for i, (x, y) in enumerate(zip(g, h)):
                                fx, fy = ops.char_form(s2, x), ops.char_form(s2, y)
                                rep.ob('C12/every position stays "0" or "1"', s2, fy is not None, w, lambda: 'position %d became %r' % (i, y))
                                if fy is not None:
                                    d = ops.gf_reduce(s2, fx ^ fy)
                                    rep.ob('C12/a position is kept or flipped', s2, d in (frozenset(), frozenset([1])), w,
                                           lambda: 'position %d: %r became %r' % (i, x, y))
                                    seen.setdefault((n, i), set()).add(d)
                    for n in range(nk):
                        for i in range(len(g0[n])):
                            rep.ob('C12/every position can be flipped', None, frozenset([1]) in seen.get((n, i), ()), w, 'position %d of child %d never flips' % (i, n))


def cat_gens(st, v):
    """gene definitions: value lists and ranges"""
    a, b, c = (gene('opt%d' % i) for i in range(3))
    e = gene('only')
    for x, y in itertools.combinations((a, b, c, e), 2):
        ops.opq_ne(st, x, y)
    if v == 0:
        return tup(lst(st, [a, b, c]), tup(2, 4, 1), lst(st, [e]), tup(10, 16, 3)), [[a, b, c], [2, 3, 4], [e], [10, 13, 16]]
    if v == 1:
        return tup(tup(0, 1, 1), lst(st, [b, a]), tup(5, 5, 1), tup(0, 5, 2)), [[0, 1], [b, a], [5], [0, 2, 4]]
    if v == 3:
        return tup(lst(st, [a, b]), lst(st, [c, e]), lst(st, [b, a, c])), [[a, b], [c, e], [b, a, c]]
    if v == 5:
        return tup(tup(0, 1, 1)), [[0, 1]]
    if v == 7:
        return tup(tup(1000, 1002, 1), lst(st, [5000, 6000]), tup(-40, -38, 2)), [[1000, 1001, 1002], [5000, 6000], [-40, -38]]
    if v == 6:      # value lists that could be mistaken for ranges
        return tup(lst(st, [2, 9, 1]), tup(2, 9, 4), lst(st, [0, 6, 2])), [[2, 9, 1], [2, 6], [0, 6, 2]]
    if v == 4:
        return tup(tup(0, 1, 1), tup(5, 7, 2), tup(-3, -1, 1)), [[0, 1], [5, 7], [-3, -2, -1]]
    return tup(lst(st, [N.const(0), K('x'), NONE]), tup(-1, 1, 1), lst(st, [c, b]), lst(st, [a])), [[0, K('x'), NONE], [-1, 0, 1], [c, b], [a]]


@rule('C12')
def cat_mutation(I, rep, tier):
    for v, level in [(v, None) for v in (0, 1, 2, 3, 4, 6, 7)] + [(7, 1.0), (1, 1.0), (3, 1.0), (4, 1.0), (6, 1.0)]:
        st0 = I.new_state()
        gens, dom = cat_gens(st0, v)
        dom = [[arg(x) for x in d] for d in dom]
        starts = [[d[0] for d in dom], [d[-1] for d in dom], [d[len(d) // 2] for d in dom]]
        for g in starts:
            st = st0.clone()
            for s, pop, inds in population(I, st, 'cat', 2, glen=4, gens=gens):
                for x, y in itertools.combinations([gene('opt%d' % i) for i in range(3)] + [gene('only')], 2):
                    ops.opq_ne(s, x, y)
                for s, ch in ok1(meth(I, s, pop, 'get_empty_copy'), 'get_empty_copy'):
                    (s, d), = ok1(meth(I, s, pop, 'get_empty_individ'), 'get_empty_individ')
                    setfield(s, d, 'genotype', lst(s, g))
                    s.mut(ch.key).segs = (One(d),)
                    for s, gd in gadata(I, s, pop):
                        setattrs(I, s, gd, children=ch)
                        rep.scenarios += 1
                        rep.cur = 'CategoricalMutation%s, gene domains %s, child %s' % ('' if level is None else ' at level %s' % level, dom, g)
                        for s, mu in ok1(new(I, s, 'CategoricalMutation', mutation_lvl=sym_level() if level is None else level), 'CategoricalMutation'):
                            w = where(I, s, 'CategoricalMutation', 'execute')
                            pre = (snapshot(s, pop), others(s, [d]))
                            presnap = snapshot(s, gens)
                            reached = [set() for _ in g]
                            for s2, _ in runs(rep, 'C12', meth(I, s, mu, 'execute', gd), w):
                                frame_conditions(I, rep, 'C12', s2, gd, pop, ch, [d], pre, w)
                                h = elems(s2, field(s2, d, 'genotype'))
                                rep.ob('C12/length unchanged', s2, None if h is None else len(h) == len(g), w, lambda: '%s became %s' % (g, h))
                                if h is None or len(h) != len(g):
                                    continue
                                for i, y in enumerate(h):
                                    rep.ob('C12/gene stays in its own domain', s2, any(same(s2, y, z) for z in dom[i]), w,
                                           lambda: 'position %d became %r, domain %s' % (i, y, dom[i]))
                                    reached[i].add(y)
                                    if level == 1.0 and len(dom[i]) > 1:
                                        rep.ob('C12/a mutated gene gets a different value', s2, not same(s2, y, g[i]), w,
                                               lambda: 'position %d stays %r, domain %s' % (i, y, dom[i]))
                            for i in range(len(g)):
                                if level is not None:
                                    continue
                                for z in dom[i]:
                                    rep.ob('C12/every other value of the domain can be reached', None, any(z == y or repr(z) == repr(y) for y in reached[i]), w,
                                           'position %d: %r is never taken although it is in the domain %s' % (i, z, dom[i]))


@rule('C12')
def long_genotypes_mutated(I, rep, tier):
    """long genotypes and many children at level 1.0 and at level 0.5 (some resolutions of the draws)"""
    thr = I.thresholds(110)
    for m in ('BinStringMutation', 'CategoricalMutation'):
        for lvl in (1.0, 0.5):
            for glen, nk in [(20, 1), (4, 9)] + [(t + 2, 1) for t in thr] + [(3, t + 1) for t in thr if t <= 60]:
                st = I.new_state()
                if m == 'BinStringMutation':
                    gens = tup(*[tup(0, 1, 1) for _ in range(glen)])
                    gs = [[K('01'[(i * 5 + n) // 2 % 2]) for i in range(glen)] for n in range(nk)]
                    dom = [['0', '1']] * glen
                else:
                    gens = tup(*[lst(st, [K('a%d' % i), K('b%d' % i), K('c%d' % i)]) if i % 2 else tup(i, i + 2, 1) for i in range(glen)])
                    dom = [['a%d' % i, 'b%d' % i, 'c%d' % i] if i % 2 else [i, i + 1, i + 2] for i in range(glen)]
                    gs = [[K(dom[i][(i + n) % 3]) if i % 2 else N.const(dom[i][(i + n) % 3]) for i in range(glen)] for n in range(nk)]
                dom = [[K(x) if isinstance(x, str) else N.const(x) for x in d] for d in dom]
                kind = 'bin' if m == 'BinStringMutation' else 'cat'
                for s, gd, pop, ch, kids in children_world(I, kind, nk, glen, gens=gens, genes=gs, st=st):
                    rep.scenarios += 1
                    rep.cur = '%s at level %s, %d children of %d genes' % (m, lvl, nk, glen)
                    for s, mu in ok1(new(I, s, m, mutation_lvl=lvl), m):
                        w = where(I, s, m, 'execute')
                        pre = (snapshot(s, pop), others(s, kids))
                        for k in range(1 if lvl == 1.0 else 3):
                            with Resolved(I, 83 * k):
                                res = meth(I, s.clone(), mu, 'execute', gd)
                            for s2, _ in runs(rep, 'C12', res, w):
                                frame_conditions(I, rep, 'C12', s2, gd, pop, ch, kids, pre, w)
                                for n, d in enumerate(kids):
                                    h = elems(s2, field(s2, d, 'genotype'))
                                    rep.ob('C12/length unchanged', s2, None if h is None else len(h) == glen, w, lambda: '%s became %s' % (gs[n], h))
                                    if h is None or len(h) != glen:
                                        continue
                                    for i, y in enumerate(h):
                                        rep.ob('C12/gene stays in its own domain', s2, any(same(s2, y, z) for z in dom[i]), w, lambda: 'position %d became %r, domain %s' % (i, y, dom[i]))
                                        if lvl == 1.0:
                                            rep.ob('C12/a mutated gene gets a different value', s2, not same(s2, y, gs[n][i]), w, lambda: 'position %d of child %d stays %r' % (i, n, y))


MUTS = COMB + ['BinStringMutation', 'CategoricalMutation']


def mut_world(I, m, nk, glen, st_gens=None):
    kind = 'order' if m in COMB else ('bin' if m == 'BinStringMutation' else 'cat')
    if kind == 'bin':
        if glen == 4:
            return children_world(I, kind, nk, 4, gens=tup(tup(0, 7, 1), tup(0, 1, 1)))
        return children_world(I, kind, nk, glen, gens=tup(*[tup(0, 1, 1)] * glen), genes=[[K('01'[i // 2 % 2]) for i in range(glen)]] * nk if glen > 6 else None)
    if kind == 'cat':
        st = I.new_state()
        gens = tup(*[lst(st, [0, 1]) if i % 2 else tup(0, 1, 1) for i in range(glen)])
        return children_world(I, kind, nk, glen, gens=gens, genes=[[1] * glen] * nk, st=st)
    return children_world(I, kind, nk, glen, genes=[list(range(glen))] * nk)


@rule('C13')
def levels(I, rep, tier):
    """0.0 never, 1.0 always; monotone in the level; the named levels are ordered; bad levels are rejected"""
    for m in MUTS:
        glen = 4
        # --- 0.0 and 1.0
        for lvl, glen, fixed in [(x, g, None) for x in (0.0, 1.0) for g in (4, 3, 2)] + [(x, t + 2, 0) for x in (0.0, 1.0) for t in I.thresholds(110) + [14]]:
            if glen == 2 and m == 'ShiftMutation':      # needs three genes
                continue
            for s, gd, pop, ch, kids in mut_world(I, m, 1, glen):
                rep.scenarios += 1
                rep.cur = '%s(mutation_lvl=%s), %d genes' % (m, lvl, glen)
                w = where(I, s, m, 'execute')
                for s, mu in runs(rep, 'C13/level %s is accepted' % lvl, new(I, s, m, mutation_lvl=lvl), where(I, s, m, '__init__')):
                    g = elems(s, field(s, kids[0], 'genotype'))
                    with Resolved(I, fixed) if fixed is not None else nullcontext():
                        res = meth(I, s, mu, 'execute', gd)
                    for s2, _ in runs(rep, 'C13', res, w):
                        h = elems(s2, field(s2, kids[0], 'genotype'))
                        if h is None:
                            rep.ob('C13/level %s' % lvl, s2, None, w)
                        elif lvl == 0.0:
                            rep.ob('C13/level 0.0 never mutates', s2, same_list(s2, g, h), w, lambda: '%s became %s' % (g, h))
                        elif m in COMB:
                            # inversion/swap/movement/shift of distinct genes always change the order
                            rep.ob('C13/level 1.0 always mutates', s2, not same_list(s2, g, h), w, lambda: '%s stays as it is' % (g,))
                        else:
                            rep.ob('C13/level 1.0 mutates every gene', s2, len(g) == len(h) and not any(same(s2, x, y) for x, y in zip(g, h)), w,
                                   lambda: '%s became %s' % (g, h))
        glen = 4
        # --- rejection
        st = I.new_state()
        wi = where(I, st, m, '__init__')
        bad = [('"extreme"', K('extreme')), ('"Weak"', K('Weak')), ('""', K('')), ('None', NONE), ('5', N.const(5)), ('the int 1', N.const(1)), ('the int 0', N.const(0)), ('True', K(True)), ('"0.5"', K('0.5')),
               ('a list', None), ('a float above 1', 'hi'), ('a float below 0', 'lo')]
        for nm, v in bad:
            s = st.clone()
            if v is None:
                v = lst(s, [N.of(0)])
            if v in ('hi', 'lo'):
                t = sym('badlevel_' + v, 'float')
                p = N.atom(t)
                s.assume(p - 1 if v == 'hi' else -p, True)
                v = t
            rep.scenarios += 1
            rep.cur = '%s(mutation_lvl=%s)' % (m, nm)
            raises(rep, 'C13/bad level is rejected at creation', new(I, s, m, mutation_lvl=v), wi, 'mutation_lvl=%s' % nm)
        # --- legal floats are accepted
        s = st.clone()
        rep.cur = '%s(any float in 0..1)' % m
        runs(rep, 'C13/float level in 0..1 is accepted', new(I, s, m, mutation_lvl=sym_level()), wi)
        # --- order of named levels: a draw that mutates at a weaker level mutates at a stronger one, and some draw separates them
        w = where(I, st, m, 'execute')
        for gl in sorted({2, glen, 6} if m not in COMB else {glen}):
            probs = {}
            for nm in ('weak', 'normal', 'strong'):
                rep.cur = '%s(mutation_lvl="%s"), %d genes' % (m, nm, gl)
                probs[nm] = thresholds(I, rep, m, K(nm), gl)
            rep.cur = '%s: weak < normal < strong, %d genes' % (m, gl)
            vals = [probs[n] for n in ('weak', 'normal', 'strong')]
            if any(v is None for v in vals):
                rep.ob('C13/probabilities increase from weak to strong', st, None, w)
            else:       # with so few genes that a level saturates, equal probabilities are still in order
                inc = 0 < vals[0] < vals[1] < vals[2] <= 1 if gl > 2 else 0 < vals[0] <= vals[1] <= vals[2] <= 1
                rep.ob('C13/probabilities increase from weak to strong', None, inc, w, 'probabilities %s' % ([float(v) for v in vals],))
        # --- monotone in the level
        fl = []
        for lv in (0.0, 0.001, 0.25, 0.5, 0.75, 0.999, 1.0):
            rep.cur = '%s(mutation_lvl=%s)' % (m, lv)
            fl.append(thresholds(I, rep, m, arg(lv), glen))
        rep.cur = '%s: chance grows with the level' % m
        if any(v is None for v in fl):
            rep.ob('C13/the chance does not decrease with the level', st, None, w)
        else:
            rep.ob('C13/the chance does not decrease with the level', None, all(a <= b for a, b in zip(fl, fl[1:])), w, 'chances %s' % ([float(v) for v in fl],))


def thresholds(I, rep, m, lvl, glen):
    """probability that the child (its first gene) is mutated, read off the interval of the deciding random draw; None if unknown"""
    I.keep_draws = True
    for s, gd, pop, ch, kids in mut_world(I, m, 1, glen):
        for s, mu in new(I, s, m, mutation_lvl=lvl):
            if isinstance(mu, Exc):
                rep.ob('C13/documented level is accepted', s, False, mu.site, 'level %r raises %s %s' % (lvl, mu.name, mu.args))
                return None
            g = elems(s, field(s, kids[0], 'genotype'))
            states = []
            for s2, v in meth(I, s, mu, 'execute', gd):
                if isinstance(v, Exc):
                    rep.ob('C13/completes', s2, False, v.site, 'level %r raises %s %s' % (lvl, v.name, v.args))
                    return None
                h = elems(s2, field(s2, kids[0], 'genotype'))
                if h is None or s2.imprecise:
                    return None
                states.append((s2, not same_list(s2, g, h) if m in COMB else not same(s2, g[0], h[0])))
            if all(hit for _, hit in states):
                return Fr(1)
            if not any(hit for _, hit in states):
                return Fr(0)
            cand = None
            for s2, _ in states:
                ts = {t for p, _ in s2.facts.lin for t in p.atoms() if t.info and 'rand' in t.info}
                cand = ts if cand is None else cand & ts
            for t in sorted(cand, key=lambda t: t.uid):
                hit = [draw_measure(s2, t) for s2, b in states if b]
                mis = [draw_measure(s2, t) for s2, b in states if not b]
                if any(x is None for x in hit + mis):
                    continue
                if max(hit) + max(mis) <= 1:
                    return max(hit)
    return None


def draw_measure(st, t):
    """measure of the interval in which this state confines the random draw t"""
    import math
    if t.info['rand'] == 'unit':
        lo, hi, isint = Fr(0), Fr(1), False
    else:
        a, b = t.info['rand']
        if not (a.is_const() and b.is_const()):
            return None
        lo, hi, isint = a.cval(), b.cval(), True
    full = hi - lo + (1 if isint else 0)
    for p, strict in st.facts.lin:
        if p.atoms() == {t} and len([m for m in p.d if m]) == 1:
            (mono, c), = [(m, c) for m, c in p.d.items() if m]
            if mono != ((t.uid, 1),):
                return None
            bound = -p.cval() / c
            if c > 0:
                lo = max(lo, bound)
            else:
                hi = min(hi, bound)
    if isint:
        return Fr(max(0, math.floor(hi) - math.ceil(lo) + 1)) / full
    return (hi - lo) / full
