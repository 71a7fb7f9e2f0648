"""Parent selection (C07, C08, C24, C30)."""
from .common import *

KEEP = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible')


def fkeys(kind):
    return [k for k in KEEP if k != 'phenotype' or kind in BINARY]


def world(I, kind, n, num_individ, percent, scores=None, multi=0, update=False, mg=False, pre=None):
    """sorted, evaluated population in run data -> [(st, gd, pop, inds)]"""
    out = []
    for s, pop, inds in population(I, I.new_state(), kind, n, glen=3, num_individ=num_individ, multi=multi):
        if pre is not None:
            pre(s)
        for i, d in enumerate(inds):
            if scores is not None:
                v = scores[i]
                setfield(s, d, 'score', lst(s, [arg(x) for x in v]) if isinstance(v, (list, tuple)) else arg(v))
        for s, gd in gadata(I, s, pop, 'MultiGaData' if mg else 'GaData', children_percent=NF(N.of(Fr(percent)).d)):
            # leftovers of the generation before
            for s, old in ok1(meth(I, s, pop, 'get_empty_copy'), 'get_empty_copy'):
                s.mut(old.key).segs = (One(sym('old_parent', 'obj')),)
                setattrs(I, s, gd, parents=old)
                if update:
                    for s, _ in ok1(meth(I, s, gd, 'update'), 'update'):
                        s.events = ()
                        out.append((s, gd, pop, elems(s, pop)))
                else:
                    setattrs(I, s, pop, is_sorted=True)
                    out.append((s, gd, pop, inds))
    return out


def source(st, p, snaps):
    g = field(st, p, 'genotype')
    if g is None:
        return None
    x = snapshot(st, g)
    for i, z in enumerate(snaps):
        if z['genotype'] == x:
            return i
    return None


def members(st, inds, kind):
    return [{k: snapshot(st, field(st, d, k)) for k in fkeys(kind)} for d in inds]


def check_parents(I, rep, r, s, gd, pop, inds, snaps, kind, npairs, w):
    """copies, pairs, population untouched -> sources or None"""
    par = attr(I, s, gd, 'parents')
    ps = elems(s, par) if par is not None else None
    rep.ob(r + '/number of parents', s, None if ps is None else len(ps) == 2 * npairs, w,
           lambda: '%s parents instead of %d' % (None if ps is None else len(ps), 2 * npairs))
    if ps is None:
        return None
    now = elems(s, attr(I, s, gd, 'population'))
    rep.ob(r + '/population keeps its members', s, None if now is None else now == list(inds), w, lambda: 'members changed')
    for i, d in enumerate(inds):
        for k in fkeys(kind):
            rep.ob(r + '/population %s untouched' % k, s, snapshot(s, field(s, d, k)) == snaps[i][k], w,
                   lambda: 'individual %d: %s is %s' % (i, k, show(s, field(s, d, k))))
    popk = set()
    for d in inds:
        reach(s, d, popk)
    seen, src = [], []
    for j, p in enumerate(ps):
        i = source(s, p, snaps)
        rep.ob(r + '/parent is a member of the population', s, i is not None, w, lambda: show(s, p))
        src.append(i)
        if i is None:
            continue
        for k in fkeys(kind):
            rep.ob(r + '/parent copies %s' % k, s, snapshot(s, field(s, p, k)) == snaps[i][k], w, lambda: show(s, p))
        ks = reach(s, p)
        rep.ob(r + '/parent is an independent copy', s, not (ks & popk), w, lambda: 'parent %d shares storage with the population' % j)
        rep.ob(r + '/parents are separate copies', s, not any(ks & z for z in seen), w, lambda: 'parent %d shares storage with another parent' % j)
        seen.append(ks)
    for j in range(0, len(src) - 1, 2):
        if src[j] is not None and src[j + 1] is not None:
            rep.ob(r + '/partners are different members', s, src[j] != src[j + 1], w, lambda: 'pair %d is twice individual %d' % (j // 2, src[j]))
    return src


# ------------------------------------------------------------------ C07
SEL = [('TournamentSelection', dict(tournament_size=2)), ('BalancedSelection', {}), ('RankedSelection', {})]


@rule('C07')
def copies(I, rep, tier):
    for name, kw in SEL:
        for kind in ('cat', 'bin') if tier == 'quick' else POPCLS:
            # (members, configured size, percent, pairs)
            for n, size, pc, pairs in ((3, 3, Fr(1, 2), 1), (4, 3, Fr(1, 2), 1), (3, 3, Fr(7, 10), 2), (3, 4, Fr(3, 4), 3), (3, 3, Fr(1, 4), 0), (2, 2, Fr(1, 2), 1), (2, 2, Fr(1), 2)):
                if n == 2 and name == 'TournamentSelection':
                    continue
                if pairs > 1 and tier == 'quick' and kind != 'cat':
                    continue
                sc = None
                if name != 'TournamentSelection':
                    sc = [1, 2, 5, 6][:n]
                elif pairs > 1:
                    sc = [1, 2, 2, 3][:n]
                elif n == 4:
                    sc = [3, 1, 3, 2]
                for s, gd, pop, inds in world(I, kind, n, size, pc, sc):
                    snaps = members(s, inds, kind)
                    rep.scenarios += 1
                    rep.cur = '%s on %s: %d individuals, configured size %d, children_percent %s' % (name, POPCLS[kind], n, size, pc)
                    w = where(I, s, name, 'execute')
                    for s, op in ok1(new(I, s, name, **kw), name):
                        for s2, _ in runs(rep, 'C07', meth(I, s, op, 'execute', gd), w):
                            check_parents(I, rep, 'C07', s2, gd, pop, inds, snaps, kind, pairs, w)


@rule('C07')
def lopsided(I, rep, tier):
    """one individual holds almost all the fitness, or all are equally fit"""
    for name, kw in SEL:
        for sc in ([1, 1, 10 ** 6], [5, 5, 5], [10 ** -6, 1, 1], [-3, -2, -2] if name != 'BalancedSelection' else [1, 1, 400]):
            for s, gd, pop, inds in world(I, 'cat', 3, 3, Fr(1, 2), [NF(N.of(Fr(x)).d) for x in sc]):
                snaps = members(s, inds, 'cat')
                rep.scenarios += 1
                rep.cur = '%s: fitness values %s' % (name, sc)
                w = where(I, s, name, 'execute')
                for s, op in ok1(new(I, s, name, **kw), name):
                    for s2, _ in runs(rep, 'C07', meth(I, s, op, 'execute', gd), w):
                        check_parents(I, rep, 'C07', s2, gd, pop, inds, snaps, 'cat', 1, w)


@rule('C07')
def number_of_pairs(I, rep, tier):
    """pair counts for the extremes and roundings of children_percent"""
    for name, kw in SEL:
        for size, pc in ((4, Fr(1)), (4, Fr(99, 100)), (4, Fr(3, 4)), (4, Fr(74, 100)), (5, Fr(39, 100)), (5, Fr(95, 100)), (6, Fr(1, 10)), (3, Fr(0))):
            n = 4
            want = int(pc * size)
            for s, gd, pop, inds in world(I, 'cat', n, size, pc, [1, 2, 5, 6]):
                snaps = members(s, inds, 'cat')
                rep.scenarios += 1
                rep.cur = '%s: configured size %d, children_percent %s' % (name, size, pc)
                w = where(I, s, name, 'execute')
                I.setup = True
                try:
                    for s, op in ok1(new(I, s, name, **kw), name):
                        for s2, _ in runs(rep, 'C07', meth(I, s, op, 'execute', gd), w):
                            check_parents(I, rep, 'C07', s2, gd, pop, inds, snaps, 'cat', want, w)
                finally:
                    I.setup = False
        for n in [9, 20] + [t + d for t in I.thresholds(40) for d in (0, 1)]:
            for s, gd, pop, inds in world(I, 'cat', n, n - 1, Fr(3, 4), [1 + i // 2 for i in range(n)]):
                snaps = members(s, inds, 'cat')
                rep.scenarios += 1
                rep.cur = '%s: %d individuals' % (name, n)
                w = where(I, s, name, 'execute')
                I.setup = True
                try:
                    for s, op in ok1(new(I, s, name, **kw), name):
                        for s2, _ in runs(rep, 'C07', meth(I, s, op, 'execute', gd), w):
                            check_parents(I, rep, 'C07', s2, gd, pop, inds, snaps, 'cat', int(Fr(3, 4) * (n - 1)), w)
                finally:
                    I.setup = False


# ------------------------------------------------------------------ C08
def participants(st, ev, inds):
    """member indices of a sample event, or None"""
    out = []
    for g in ev[2]:
        if not isinstance(g, One):
            return None
        v = g.v
        if isinstance(v, Ref) and v in inds:
            out.append(inds.index(v))
            continue
        p = to_num(v)
        if p is None or not p.is_const() or p.cval().denominator != 1 or not 0 <= p.cval() < len(inds):
            return None
        out.append(int(p.cval()))
    return out


def fit_ge(st, a, b, obj):
    """fitness of a >= fitness of b on this path"""
    x, y = field(st, a, 'score'), field(st, b, 'score')
    if obj is not None:
        x, y = (elems(st, x) or [None] * 9)[obj], (elems(st, y) or [None] * 9)[obj]
    p, q = to_num(x), to_num(y)
    if p is None or q is None:
        return None
    return st.facts.entails(p - q)


def tournaments(I, rep, name, kw, n, size, pc, pairs, scores, multi, t, extra=0):
    for s, gd, pop, inds in world(I, 'cat', n, size, pc, scores, multi=multi, mg=bool(multi)):
        snaps = members(s, inds, 'cat')
        rep.scenarios += 1
        rep.cur = '%s(%s): %d individuals, configured size %d, scores %s' % (name, kw, n, size, scores or 'arbitrary')
        w = where(I, s, name, 'execute')
        I.rand_events, I.max_draws = True, 2 * pairs + extra
        drawn = set()
        decided = 0
        try:
            for s, op in ok1(new(I, s, name, **kw), name):
                res = meth(I, s.clone(), op, 'execute', gd)
                if not res:             # participants drawn one by one
                    I.max_draws = 2 * pairs * t
                    res = meth(I, s, op, 'execute', gd)
                if not res:
                    raise Undecided('tournaments with more than %d draws' % I.max_draws)
                for s2, _ in runs(rep, 'C08', res, w):
                    evs = [participants(s2, e, inds) for e in s2.events if e[0] == 'sample']
                    ps = elems(s2, attr(I, s2, gd, 'parents'))
                    # whatever the draws: of different participants, the t-1 least fit members never win
                    for j, p in enumerate(ps or ()):
                        i = source(s2, p, snaps)
                        if i is None or scores is None:
                            continue
                        col = [v[j // (len(ps) // multi)] for v in scores] if multi else scores
                        less = sum(v <= col[i] for v in col) - 1
                        rep.ob('C08/the least fit cannot win', s2, less >= t - 1, w, lambda: 'parent %d is individual %d, which is fitter than or as fit as only %d others' % (j, i, less))
                    if not evs or any(e is None for e in evs) or ps is None:
                        rep.ob('C08/winner', s2, None, w)
                        continue
                    decided += 1
                    for e in evs:
                        rep.ob('C08/configured number of participants', s2, len(e) == t, w, lambda: '%d participants instead of %d' % (len(e), t))
                        rep.ob('C08/different participants', s2, len(set(e)) == len(e), w, lambda: 'participants %s' % (e,))
                        drawn |= set(e)
                    per = len(ps) // multi if multi else len(ps)
                    for j, p in enumerate(ps):
                        i = source(s2, p, snaps)
                        if i is None:
                            continue
                        obj = (j // per) if multi else None
                        # tournaments of this share / pair
                        mine = evs[j:j + 1] if len(evs) == len(ps) else evs
                        good = [e for e in mine if i in e and all(fit_ge(s2, inds[i], inds[k], obj) for k in e)]
                        rep.ob('C08/winner is a fittest participant', s2, bool(good), w,
                               lambda: 'parent %d is individual %s, tournaments among %s%s' % (j, i, mine, '' if obj is None else ', objective %d' % obj))
        finally:
            I.rand_events, I.max_draws = False, None
        if decided:
            rep.ob('C08/every member can take part', None, drawn == set(range(n)), w, 'only %s of %d members are ever drawn' % (sorted(drawn), n))


@rule('C08')
def winners(I, rep, tier):
    T_ = 'TournamentSelection'
    tournaments(I, rep, T_, dict(tournament_size=2), 3, 3, Fr(1, 2), 1, None, 0, 2)
    tournaments(I, rep, T_, dict(tournament_size=2), 4, 3, Fr(1, 2), 1, [4, 1, 3, 2], 0, 2)
    tournaments(I, rep, T_, dict(tournament_size=3), 4, 4, Fr(1, 4), 1, [-4, -1, -3, -1], 0, 3)
    tournaments(I, rep, T_, dict(tournament_size=2), 3, 3, Fr(7, 10), 2, [2, 1, 2], 0, 2)
    if tier != 'quick':
        tournaments(I, rep, T_, dict(tournament_size=3), 4, 4, Fr(1, 4), 1, None, 0, 3)


@rule('C08')
def large_tournaments(I, rep, tier):
    """tournaments in large populations, with many pairs and many participants (one resolution of the draws)"""
    shapes = [(9, 4, 5), (14, 13, 3), (26, 7, 12)]
    shapes += [(h + 3, h + 2, 2) for h in I.thresholds(110)] + [(h + 4, 3, h + 2) for h in I.thresholds(40)]
    for name, multi in (('TournamentSelection', 0), ('VEGATournamentSelection', 2)):
        for n, t, pairs in shapes:
            nobj = multi or 1
            one = [(7 * i + 3) % n - n // 2 for i in range(n)] if n % 7 else [(5 * i + 3) % n - n // 2 for i in range(n)]
            sc = [(v, -v // 2) for v in one] if multi else one
            for s, gd, pop, inds in world(I, 'cat', n, n, Fr(pairs * nobj, n) if pairs * nobj <= n else Fr(1), sc, multi=multi, mg=bool(multi)):
                snaps = members(s, inds, 'cat')
                rep.scenarios += 1
                rep.cur = '%s: %d individuals, tournaments of %d' % (name, n, t)
                w = where(I, s, name, 'execute')
                kw = dict(tournament_size=t)
                if multi:
                    kw['num_objectives'] = multi
                I.rand_events = True
                try:
                    for s, op in ok1(new(I, s, name, **kw), name):
                        with Resolved(I):
                            res = runs(rep, 'C08', meth(I, s, op, 'execute', gd), w)
                        for s2, _ in res:
                            raw = [e for e in s2.events if e[0] == 'sample']
                            evs = [participants(s2, e, inds) for e in raw]
                            pools = [participants(s2, (0, 0, e[1]), inds) for e in raw]
                            ps = elems(s2, attr(I, s2, gd, 'parents'))
                            if not evs or any(e is None for e in evs) or ps is None:
                                rep.ob('C08/winner', s2, None, w)
                                continue
                            for e, pl in zip(evs, pools):
                                rep.ob('C08/configured number of participants', s2, len(e) == t, w, lambda: '%d participants instead of %d' % (len(e), t))
                                rep.ob('C08/different participants', s2, len(set(e)) == len(e), w, lambda: 'participants %s' % (e,))
                                rep.ob('C08/every member can take part', s2, None if pl is None else set(pl) == set(range(n)), w,
                                       lambda: 'participants are drawn from %d of %d members' % (len(set(pl)), n))
                            # every parent is the winner of one of the tournaments, taken in order
                            per = len(ps) // nobj
                            k = 0
                            for j, p in enumerate(ps):
                                i = source(s2, p, snaps)
                                if i is None:
                                    continue
                                obj = j // per if multi else None
                                hit = next((q for q in range(k, len(evs)) if i in evs[q] and all(fit_ge(s2, inds[i], inds[z], obj) for z in evs[q])), None)
                                rep.ob('C08/winner is a fittest participant', s2, hit is not None, w,
                                       lambda: 'parent %d is individual %s and wins none of the tournaments %s' % (j, i, evs[k:k + 3]))
                                if hit is not None:
                                    k = hit + 1
                finally:
                    I.rand_events = False


@rule('C08')
def vega_winners(I, rep, tier):
    V = 'VEGATournamentSelection'
    tournaments(I, rep, V, dict(num_objectives=2, tournament_size=2), 3, 3, Fr(7, 10), 2, [(1, 3), (2, 1), (3, 2)], 2, 2)
    tournaments(I, rep, V, dict(num_objectives=2, tournament_size=2), 3, 3, Fr(7, 10), 2, [(-1, 3), (-1, 3), (-2, 5)], 2, 2)
    if tier != 'quick':
        tournaments(I, rep, V, dict(num_objectives=2, tournament_size=2), 4, 3, Fr(7, 10), 2, [(1, 3), (2, 1), (3, 2), (0, 0)], 2, 2)


@rule('C08')
def bad_sizes(I, rep, tier):
    for name, kw, multi in (('TournamentSelection', {}, 0), ('VEGATournamentSelection', dict(num_objectives=2), 2)):
        for n, size in ((4, 3), (3, 3), (3, 4)):
            for t, what in ((sym('t_small', 'int'), 'tournament_size < 2'), (1, 'tournament_size 1'), (0, 'tournament_size 0'),
                            (size, 'tournament_size equal to the configured size'), (sym('t_big', 'int'), 'tournament_size >= configured size'),
                            (2, None), (size - 1, None)):
                for s, gd, pop, inds in world(I, 'cat', n, size, Fr(1, 2), [(i, n - i) for i in range(n)] if multi else list(range(n)), multi=multi, mg=bool(multi)):
                    if isinstance(t, T):
                        s.assume(N.const(1) - N.atom(t) if 'small' in t.a[0] else N.atom(t) - size)
                    w = where(I, s, name, 'execute')
                    rep.scenarios += 1
                    rep.cur = '%s: %s, %d individuals, configured size %d' % (name, what or 'tournament_size %d' % t, n, size)
                    before = attr(I, s, gd, 'parents')
                    for s1, op in new(I, s, name, tournament_size=t, **kw):
                        if isinstance(op, Exc):
                            rep.ob('C08/bad tournament size is rejected', s1, what is not None, w, 'a legal size is rejected')
                            continue
                        I.setup = True
                        try:
                            res = meth(I, s1, op, 'execute', gd)
                        finally:
                            I.setup = False
                        if what is None:
                            runs(rep, 'C08/legal tournament size', res, w)
                            continue
                        for s2, v in res:
                            rep.ob('C08/bad tournament size is rejected', s2, isinstance(v, Exc) and not v.implicit, w, '%s is accepted' % what)
                            if isinstance(v, Exc):
                                rep.ob('C08/nothing is selected when rejected', s2, attr(I, s2, gd, 'parents') == before and elems(s2, before) is not None and len(elems(s2, before)) == 1, w,
                                       'parents were touched')


@rule('C08')
def bad_sizes_later(I, rep, tier):
    """an operator that has worked before still rejects a population it is too large for"""
    for name, kw, multi in (('TournamentSelection', {}, 0), ('VEGATournamentSelection', dict(num_objectives=2), 2)):
        for t, n2 in ((3, 3), (4, 3), (2, 2)):
            sc = [(i, 5 - i) for i in range(6)] if multi else list(range(6))
            for s, gd, pop, inds in world(I, 'cat', 6, 6, Fr(1, 2), sc, multi=multi, mg=bool(multi)):
                w = where(I, s, name, 'execute')
                rep.scenarios += 1
                rep.cur = '%s of size %d: 6 individuals, then %d' % (name, t, n2)
                for s, op in ok1(new(I, s, name, tournament_size=t, **kw), name):
                    I.setup = True
                    try:
                        for s1, _ in runs(rep, 'C08', meth(I, s, op, 'execute', gd), w):
                            setattrs(I, s1, pop, num_individ=n2)
                            s1.mut(pop.key).segs = s1.get(pop.key).segs[:n2]
                            before = attr(I, s1, gd, 'parents')
                            k = len(elems(s1, before) or ())
                            for s2, v in meth(I, s1, op, 'execute', gd):
                                rep.ob('C08/bad tournament size is rejected', s2, isinstance(v, Exc) and not v.implicit, w, 'tournament_size %d is accepted for a configured size of %d' % (t, n2))
                                if isinstance(v, Exc):
                                    rep.ob('C08/nothing is selected when rejected', s2, attr(I, s2, gd, 'parents') == before and len(elems(s2, before) or ()) == k, w, 'parents were touched')
                    finally:
                        I.setup = False


# ------------------------------------------------------------------ C24, C30: weights as measures of draw regions
def interval(st, t):
    """[lo, hi) of a draw on this path when all facts about it have constant bounds; None otherwise"""
    m = ((t.uid, 1),)
    lo, hi = None, None
    from ..terms import BOUNDS
    for p, s in tuple(st.facts.lin) + tuple(BOUNDS.get(t.uid, ())):
        if t not in p.atoms():
            if any(contains_atom(a, t) for a in p.atoms()):
                return None
            continue
        if set(p.d) - {m, ()}:
            return None
        b = -p.d.get((), Fr(0)) / p.d[m]
        if p.d[m] > 0:
            lo = b if lo is None else max(lo, b)
        else:
            hi = b if hi is None else min(hi, b)
    for k in st.facts.lits:
        if contains_atom(k, t):
            return None
    if lo is None or hi is None:
        return None
    return lo, max(lo, hi)


def weight_events(I, st, inds):
    out = []
    for e in st.events:
        if e[0] == 'weights':
            ws = elems(st, e[2]) if not isinstance(e[2], list) else e[2]
            if ws is None or any(to_num(x) is None or not to_num(x).is_const() for x in ws):
                return None
            ws = [to_num(x).cval() for x in ws]
            if e[3]:
                ws = [b - a for a, b in zip([0] + ws, ws)]
            out.append(ws)
    return out


def warm_up(I, s, op, gd, inds, scores):
    """the same operator has already selected from the generation before, whose fitness was different"""
    now = [field(s, d, 'score') for d in inds]
    for d, v in zip(inds, scores):
        setfield(s, d, 'score', lst(s, [arg(x) for x in v]) if isinstance(v, (list, tuple)) else arg(v))
    I.setup = True
    try:
        res = ok1(meth(I, s, op, 'execute', gd), 'execute')
    finally:
        I.setup = False
    for s, _ in res[:1]:
        for d, v in zip(inds, now):
            setfield(s, d, 'score', v)
        s.events = ()
        return s
    raise Undecided('selection')


def shares(I, rep, r, name, kw, n, size, pc, scores, weights, multi, update, warm=None, able=False):
    """the measure of the draws that yield a given pair is proportional to the product of the two weights.
    weights: per objective (or one) list of expected weights by member *genotype order of scores*"""
    nobj = multi or 1
    ws = world(I, 'cat', n, size, pc, scores, multi=multi, mg=bool(multi), update=update)
    for s, gd, pop, inds in ws:
        snaps = members(s, inds, 'cat')
        # member order after recording may differ from the order of `scores`
        order = []
        for d in inds:
            g = elems(s, field(s, d, 'genotype'))
            order.append(int(repr(g[0]).split('g')[1].split('_')[0]))
        rep.scenarios += 1
        rep.cur = '%s: fitness %s%s' % (name, scores, ', second generation' if warm else '')
        w = where(I, s, name, 'execute')
        (s, op), = ok1(new(I, s, name, **kw), name)
        if warm:
            s = warm_up(I, s, op, gd, inds, warm)
        I.rand_events, I.max_draws = True, 2 * nobj
        try:
            res = runs(rep, r, meth(I, s, op, 'execute', gd), w)
        finally:
            I.rand_events, I.max_draws = False, None
        table = {}
        for s2, _ in res:
            ps = elems(s2, attr(I, s2, gd, 'parents'))
            if ps is None:
                rep.ob(r + '/weights', s2, None, w)
                return
            if len(ps) != 2 * nobj:
                rep.ob(r + '/weights', s2, None, w)
                return
            src = [source(s2, p, snaps) for p in ps]
            if any(x is None for x in src):
                rep.ob(r + '/weights', s2, None, w)
                return
            src = tuple(order[x] for x in src)
            we = weight_events(I, s2, inds)
            if we:
                for k, x in enumerate(we[:2 * nobj]):
                    e = weights[(k * nobj) // max(len(we), 1)]
                    rep.ob(r + '/weights handed to the generator', s2, len(x) == n and all(x[a] * e[order[b]] == x[b] * e[order[a]] for a in range(n) for b in range(n)), w,
                           lambda: 'weights %s instead of %s' % (x, [e[o] for o in order]))
                return
            draws = [e[1] for e in s2.events if e[0] == 'draw']
            m = Fr(1)
            for t in draws:
                iv = interval(s2, t)
                if iv is None:
                    rep.ob(r + '/weights', s2, None, w, lambda: 'draw region of %s' % t)
                    return
                m *= iv[1] - iv[0]
            if not draws:
                rep.ob(r + '/weights', s2, None, w)
                return
            if len(draws) > 2 * nobj:
                continue                      # a retry: the distribution given no retry is judged
            table[src] = table.get(src, 0) + m
        tot = sum(table.values())
        exp = {}
        for src in itertools.product(*[[(a, b) for a in range(n) for b in range(n) if a != b] for _ in range(nobj)]):
            v = Fr(1)
            for k, (a, b) in enumerate(src):
                v *= Fr(weights[k][a]) * Fr(weights[k][b])
            exp[tuple(x for p in src for x in p)] = v
        etot = sum(exp.values())
        if able and not tot and etot:
            # the same operator picks a pair with as many draws for other scores of this kind
            rep.ob(r + '/every draw selects somebody', None, False, w, 'no pair is ever selected')
            return
        if not tot or not etot:
            rep.ob(r + '/weights', None, None, w)
            return
        able = True
        bad = [k for k in exp if table.get(k, 0) * etot != exp[k] * tot]
        if nobj == 1:
            def marg(t, z, j):
                return [sum(v for k, v in t.items() if k[j] == a) / z for a in range(n)]
            rep.ob(r + '/selected in proportion to the documented weight', None, not bad, w,
                   lambda: 'first parent is individual 0..%d with chances %s instead of %s (without retries)' % (n - 1, [str(x) for x in marg(table, tot, 0)], [str(x) for x in marg(exp, etot, 0)]))
        else:
            for k in range(nobj):
                g, e = {}, {}
                for src, v in table.items():
                    g[src[2 * k:2 * k + 2]] = g.get(src[2 * k:2 * k + 2], 0) + v / tot
                for src, v in exp.items():
                    e[src[2 * k:2 * k + 2]] = e.get(src[2 * k:2 * k + 2], 0) + v / etot
                rep.ob(r + '/share of an objective is drawn by its own fitness', None, all(g.get(x, 0) == e[x] for x in e), w,
                       lambda: 'share %d: pair chances %s instead of %s' % (k, {x: str(v) for x, v in g.items()}, {x: str(v) for x, v in e.items()}))
    return able


def ranks(scores):
    out = []
    for x in scores:
        less = sum(y < x for y in scores)
        eq = sum(y == x for y in scores)
        out.append(Fr(2 * less + 1 + eq, 2))
    return out


SCORES = [(1, 2, 5), (2, 2, 4), (4, 1, 1), (3, 3, 3), (0, 1, 3), (5, 2, 1), (-5, -2, -1), (-2, -4, -2)]
RSCORES = SCORES + [(-1, 0, 2), (-1, -1, 4), (-3, -1, -1), (-1, -1, -1), (-2, -1, 0), (0, 0, 1), (1, -1, -1)]


@rule('C30')
def balanced(I, rep, tier):
    for sc in SCORES if tier == 'quick' else SCORES + [(Fr(1, 3), 2, 2, 7), (1, 1, 2, 3), (6, 0, 0, 1)]:
        n = len(sc)
        shares(I, rep, 'C30', 'BalancedSelection', {}, n, n, Fr(1, n), [arg_(x) for x in sc], [list(sc)], 0, True)
        # one member more than the configured size
    shares(I, rep, 'C30', 'BalancedSelection', {}, 3, 2, Fr(1, 2), [1, 2, 5], [[1, 2, 5]], 0, True)


def arg_(x):
    return NF(N.of(x).d) if isinstance(x, Fr) else x


@rule('C30')
def ranked(I, rep, tier):
    for sc in RSCORES if tier == 'quick' else RSCORES + [(-1, 2, 2, 7), (1, 1, 2, 2), (6, 0, 0, 1), (1, 2, 2, 2), (2, 2, 2, 3), (4, 3, 2, 1)]:
        n = len(sc)
        shares(I, rep, 'C30', 'RankedSelection', {}, n, n, Fr(1, n), list(sc), [ranks(sc)], 0, True)
    shares(I, rep, 'C30', 'RankedSelection', {}, 3, 2, Fr(1, 2), [1, 2, 5], [[1, 2, 3]], 0, True)


@rule('C30')
def tie_positions(I, rep, tier):
    """ranks with ties at the start, in the middle and at the end of five individuals: first draw only"""
    for sc in ((1, 1, 2, 3, 3), (1, 2, 2, 2, 3), (-1, -1, -1, 0, 5), (2, 2, 2, 2, 2), (1, 2, 3, 4, 4)):
        first_draw(I, rep, 'RankedSelection', sc, ranks(sc))
    first_draw(I, rep, 'BalancedSelection', (1, 1, 2, 3, 4), (1, 1, 2, 3, 4))
    for sc in ((1, 1, 2, 2), (2, 1, 2, 1), (1, 1, 2, 3, 3), (1, 1, 2, 2, 3), (1, 2, 2, 2, 3), (3, 3, 2, 2, 2), (2, 2, 2, 2, 2), (1, 1, 2, 2, 3, 3)):
        first_draw(I, rep, 'VEGARankedSelection', [(x, k) for k, x in enumerate(sc)], ranks(sc), multi=2, kw=dict(num_objectives=2))
    for sc in ((1, 1, 2, 2, 3, 3), (1, 1, 1, 2, 3, 3, 3)):
        first_draw(I, rep, 'RankedSelection', sc, ranks(sc))
    # one member more (or less) than configured, as after a replacement
    for size in (4, 6):
        for sc in ((1, 1, 2, 3, 3), (1, 2, 3, 3, 3), (1, 2, 3, 4, 4), (2, 2, 2, 2, 2)):
            first_draw(I, rep, 'RankedSelection', sc, ranks(sc), size=size)
        first_draw(I, rep, 'BalancedSelection', (1, 1, 2, 3, 4), (1, 1, 2, 3, 4), size=size)
    # extreme and nearly equal values
    for sc in ((Fr(1, 10**6), 1, 10**6), (1, 1 + Fr(1, 10**9), 2), (Fr(1, 10**9), Fr(2, 10**9), Fr(5, 10**9)), (0, Fr(1, 10**9), 1), (10**9, 10**9 + 1, 2 * 10**9)):
        first_draw(I, rep, 'BalancedSelection', [arg_(x) for x in sc], sc)
        first_draw(I, rep, 'RankedSelection', [arg_(x) for x in sc], ranks(sc))
    for t in [7] + I.thresholds(20):
        n = t + 2
        for sc in (tuple(range(1, n + 1)), (1,) * (n - 2) + (2, 2), (1, 2) + (3,) * (n - 2)):
            first_draw(I, rep, 'RankedSelection', sc, ranks(sc))
            first_draw(I, rep, 'BalancedSelection', sc, sc)


@rule('C30')
def any_fitness(I, rep, tier):
    """ranks of symbolic fitness values, for every pattern of ties"""
    for n in (2, 3, 4):
        for pat in itertools.product((0, 1), repeat=n - 1):
            lv = list(itertools.accumulate((0,) + pat))
            sy = [sym('fit%d' % k, 'num') for k in range(max(lv) + 1)]

            def pre(s):
                for a, b in zip(sy, sy[1:]):
                    s.assume(N.atom(b) - N.atom(a), True)
            first_draw(I, rep, 'RankedSelection', [sy[k] for k in lv], ranks(lv), pre=pre)
            if n < 4:
                for p in itertools.permutations(range(n)):
                    first_draw(I, rep, 'VEGARankedSelection', [(sy[lv[k]], k) for k in p], ranks([lv[k] for k in p]), pre=pre, multi=2, kw=dict(num_objectives=2))


@rule('C30')
def next_generation(I, rep, tier):
    """the weights are those of the current population, not of the one the operator saw before"""
    for sc, old in (((1, 2, 5), (7, 1, 1)), ((1, 1, 4), (1, 2, 3)), ((1, 2, 3), (2, 2, 2))):
        first_draw(I, rep, 'RankedSelection', sc, ranks(sc), warm=old)
        first_draw(I, rep, 'BalancedSelection', sc, sc, warm=old)
    sc, old = [(1, 4), (2, 1), (5, 1)], [(3, 1), (1, 1), (1, 7)]
    for name, f in (('VEGABalancedSelection', list), ('VEGARankedSelection', ranks)):
        shares(I, rep, 'C30', name, dict(num_objectives=2), 3, 3, Fr(7, 10), sc, [f([x[k] for x in sc]) for k in range(2)], 2, False, warm=old)


def first_draw(I, rep, name, sc, wt, pre=None, size=None, warm=None, kw={}, multi=0, r='C30'):
    """chance of the first parent, from the region of the first draw"""
    n = len(sc)
    size = size or n
    for s, gd, pop, inds in world(I, 'cat', n, size, Fr(multi or 1, size), list(sc), update=not multi, multi=multi, mg=bool(multi), pre=pre):
        snaps = members(s, inds, 'cat')
        order = [int(repr(elems(s, field(s, d, 'genotype'))[0]).split('g')[1].split('_')[0]) for d in inds]
        rep.scenarios += 1
        rep.cur = '%s: fitness %s%s%s' % (name, sc, ', configured size %d' % size if size != n else '', ', second generation' if warm else '')
        w = where(I, s, name, 'execute')
        (s, op), = ok1(new(I, s, name, **kw), name)
        if warm:
            s = warm_up(I, s, op, gd, inds, warm)
        I.rand_events, I.max_draws = True, 2 * (multi or 1)
        try:
            res = runs(rep, r, meth(I, s, op, 'execute', gd), w)
        finally:
            I.rand_events, I.max_draws = False, None
        regions = {}
        for s2, _ in res:
            ps = elems(s2, attr(I, s2, gd, 'parents'))
            draws = [e[1] for e in s2.events if e[0] == 'draw']
            src = source(s2, ps[0], snaps) if ps else None
            iv = interval(s2, draws[0]) if draws else None
            if src is None or iv is None:
                rep.ob(r + '/first parent', s2, None, w)
                return
            regions.setdefault(order[src], set()).add(iv)
        tot = sum(Fr(x) for x in wt)
        for i in range(n):
            # union of intervals
            m, end = Fr(0), None
            for a, b in sorted(regions.get(i, ())):
                a = a if end is None else max(a, end)
                if b > a:
                    m += b - a
                end = b if end is None else max(end, b)
            rep.ob(r + '/first parent is drawn in proportion to the documented weight', None, m == Fr(wt[i]) / tot, w,
                   lambda: 'individual %d (fitness %s): %s instead of %s' % (i, sc[i], m, Fr(wt[i]) / tot))


@rule('C30')
def vega(I, rep, tier):
    sc = [(1, 4), (2, 1), (5, 1)]
    able = {}
    for name, f in (('VEGABalancedSelection', lambda x: list(x)), ('VEGARankedSelection', ranks)):
        cols = [[x[k] for x in sc] for k in range(2)]
        able[name] = shares(I, rep, 'C30', name, dict(num_objectives=2), 3, 3, Fr(7, 10), sc, [f(c) for c in cols], 2, False)
    sc = [(-1, -1), (-2, -1), (3, -3)]
    cols = [[x[k] for x in sc] for k in range(2)]
    shares(I, rep, 'C30', 'VEGARankedSelection', dict(num_objectives=2), 3, 3, Fr(7, 10), sc, [ranks(c) for c in cols], 2, False, able=able['VEGARankedSelection'])
    sc = [(-1, -4), (-2, -1), (-5, -1)]         # as without a target
    cols = [[x[k] for x in sc] for k in range(2)]
    shares(I, rep, 'C30', 'VEGABalancedSelection', dict(num_objectives=2), 3, 3, Fr(7, 10), sc, cols, 2, False, able=able['VEGABalancedSelection'])
    sc = [(1, -4), (2, -1), (5, -1)]
    cols = [[x[k] for x in sc] for k in range(2)]
    shares(I, rep, 'C30', 'VEGABalancedSelection', dict(num_objectives=2), 3, 3, Fr(7, 10), sc, cols, 2, False, able=able['VEGABalancedSelection'])


# ------------------------------------------------------------------ C24
@rule('C24')
def share_sizes(I, rep, tier):
    for name in ('VEGATournamentSelection', 'VEGABalancedSelection', 'VEGARankedSelection'):
        for nobj, n, size, pc in ((2, 4, 4, Fr(1, 2)), (2, 4, 4, Fr(1)), (3, 4, 4, Fr(3, 4)), (3, 6, 6, Fr(1)), (2, 5, 4, Fr(3, 4)), (2, 5, 5, Fr(9, 10)), (4, 5, 5, Fr(1)), (3, 5, 5, Fr(19, 20)), (2, 4, 3, Fr(1)), (2, 7, 5, Fr(3, 4)), (3, 4, 3, Fr(9, 10)), (5, 5, 4, Fr(1))):
            want = int(pc * size / nobj)
            sc = [tuple((i * (k + 1)) % n + 1 for k in range(nobj)) for i in range(n)]
            for s, gd, pop, inds in world(I, 'cat', n, size, pc, sc, multi=nobj, mg=True):
                snaps = members(s, inds, 'cat')
                rep.scenarios += 1
                rep.cur = '%s: %d objectives, configured size %d, children_percent %s' % (name, nobj, size, pc)
                w = where(I, s, name, 'execute')
                kw = dict(num_objectives=nobj)
                if name.startswith('VEGAT'):
                    kw['tournament_size'] = 2
                I.setup = True
                try:
                    for s, op in ok1(new(I, s, name, **kw), name):
                        for s2, _ in runs(rep, 'C24', meth(I, s, op, 'execute', gd), w):
                            check_parents(I, rep, 'C24', s2, gd, pop, inds, snaps, 'cat', want * nobj, w)
                            if n > 5:
                                continue
                            # the same operator in the next generation
                            for s3, _ in runs(rep, 'C24', meth(I, s2, op, 'execute', gd), w):
                                check_parents(I, rep, 'C24', s3, gd, pop, inds, snaps, 'cat', want * nobj, w)
                finally:
                    I.setup = False


@rule('C24')
def own_fitness(I, rep, tier):
    """the share of each objective depends on that objective's fitness only"""
    sc = [(1, 4), (2, 1), (5, 1)]
    cols = [[x[k] for x in sc] for k in range(2)]
    for name, f in (('VEGABalancedSelection', list), ('VEGARankedSelection', ranks)):
        shares(I, rep, 'C24', name, dict(num_objectives=2), 3, 3, Fr(7, 10), sc, [f(c) for c in cols], 2, False)
    sc = [(1, 4, 2), (2, 1, 3), (5, 1, 3)]
    for name, f in (('VEGABalancedSelection', list), ('VEGARankedSelection', ranks)):
        shares(I, rep, 'C24', name, dict(num_objectives=3), 3, 3, Fr(1), sc, [f([x[k] for x in sc]) for k in range(3)], 3, False)
    tournament_shares(I, rep, 2, [(1, 3), (2, 1), (3, 2)], Fr(7, 10))
    if tier != 'quick':
        tournament_shares(I, rep, 3, [(1, 3, 2), (2, 1, 3), (3, 2, 1)], Fr(1))


def tournament_shares(I, rep, nobj, sc, pc):
    n = 3
    name = 'VEGATournamentSelection'
    for s, gd, pop, inds in world(I, 'cat', n, n, pc, sc, multi=nobj, mg=True):
        snaps = members(s, inds, 'cat')
        rep.scenarios += 1
        rep.cur = '%s: fitness %s' % (name, sc)
        w = where(I, s, name, 'execute')
        for s, op in ok1(new(I, s, name, num_objectives=nobj, tournament_size=2), name):
            I.rand_events, I.max_draws = True, 2 * nobj + 1
            try:
                res = runs(rep, 'C24', meth(I, s, op, 'execute', gd), w)
            finally:
                I.rand_events, I.max_draws = False, None
            for s2, _ in res:
                ps = elems(s2, attr(I, s2, gd, 'parents'))
                if ps is None or len(ps) != 2 * nobj:
                    continue
                for j, p in enumerate(ps):
                    i = source(s2, p, snaps)
                    k = j // 2
                    if i is None:
                        continue
                    # with three individuals and tournaments of two the least fit one never wins
                    rep.ob('C24/tournaments of a share compare that objective', s2, sc[i][k] != min(x[k] for x in sc), w,
                           lambda: 'individual %d, worst in objective %d, wins a tournament of its share' % (i, k))


@rule('C24')
def other_objectives(I, rep, tier):
    """no decision of the share of the first objective rests on the fitness in another one, also among ties"""
    for name in ('VEGATournamentSelection', 'VEGABalancedSelection', 'VEGARankedSelection'):
        for first in ((1, 1, 1), (1, 2, 2), (2, 1, 1), (1, 2, 3)):
            other = [sym('other%d' % i, 'num') for i in range(3)]
            for s, gd, pop, inds in world(I, 'cat', 3, 3, Fr(1, 3), [(a, b) for a, b in zip(first, other)], multi=2, mg=True):
                rep.scenarios += 1
                rep.cur = '%s: first objective %s, arbitrary second objective' % (name, first)
                w = where(I, s, name, 'execute')
                kw = dict(num_objectives=1)
                if name.startswith('VEGAT'):
                    kw['tournament_size'] = 2
                for s, op in ok1(new(I, s, name, **kw), name):
                    I.max_draws = 2
                    try:
                        res = runs(rep, 'C24', meth(I, s, op, 'execute', gd), w)
                    finally:
                        I.max_draws = None
                    for s2, _ in res:
                        dep = any(contains_atom(a, t) for t in other for p, _ in s2.facts.lin for a in p.atoms()) or any(contains_atom(k, t) for t in other for k in s2.facts.lits)
                        rep.ob('C24/a share rests on its own objective only', s2, not dep, w, 'the choice depends on the fitness in another objective')
