"""Initial population, codec, settings (C14, C15, C16)."""
from .common import *
from .variation import cat_gens


def made(I, st, kind, num, gens, inp, rep, r):
    """population after set_params and fill -> [(st, pop)]"""
    w = where(I, st, POPCLS[kind], 'fill')
    out = []
    for s, p in ok1(new(I, st, POPCLS[kind]), 'population'):
        kw = dict(num_individ=num, gens=gens)
        if inp is not None:
            kw['input_population'] = inp
        for s2, _ in runs(rep, r, meth(I, s, p, 'set_params', **kw), w):
            for s3, _ in runs(rep, r, meth(I, s2, p, 'fill'), w):
                out.append((s3, p))
    return out, w


def common_members(I, rep, s, p, w, n, keys):
    inds = elems(s, p)
    rep.ob('C14/exactly the configured number of individuals', s, None if inds is None else len(inds) == n, w,
           lambda: '%s individuals instead of %d' % (inds and len(inds), n))
    if inds is None:
        return None
    seen = []
    for i, d in enumerate(inds):
        f = ind_fields(s, d)
        rep.ob('C14/individual has all fields', s, f is not None and set(keys) <= set(f), w, lambda: show(s, d))
        if f is None:
            return None
        for k in ('score', 'obj_score'):
            rep.ob('C14/%s unset' % k, s, field(s, d, k) == NONE, w, lambda: show(s, d))
        rep.ob('C14/marked feasible', s, field(s, d, 'feasible') == TRUE, w, lambda: show(s, d))
        g = field(s, d, 'genotype')
        o = s.get(g.key) if isinstance(g, Ref) else None
        kind = False if isinstance(g, (K, N, Tup)) else True if o is not None and o.kind == 'list' else None
        rep.ob('C14/the genotype is a list', s, kind, w, lambda: 'genotype %s' % show(s, g))
        ks = reach(s, d)
        rep.ob('C14/individuals are separate objects', s, not any(ks & z for z in seen), w, lambda: 'individual %d shares storage with another' % i)
        seen.append(ks)
    return inds


@rule('C14')
def cat_fill(I, rep, tier):
    keys = ['genotype', 'score', 'obj_score', 'feasible', 'idx_individ']
    for v, ni, n in [(v, ni, n) for v in (0, 1, 2) for ni, n in ((0, 1), (1, 2), (2, 2))] + [(3, 0, 2), (4, 0, 3), (4, 1, 4), (3, 3, 4), (6, 0, 1), (6, 1, 2)] + \
            [(5, 0, t + 1) for t in I.thresholds(30)] + [(5, t + 1, t + 2) for t in I.thresholds(30)]:
        if True:
            st = I.new_state()
            gens, dom = cat_gens(st, v)
            dom = [[arg(x) for x in d] for d in dom]
            user = [[gene('u%d_%d' % (i, j)) for j in range(len(dom))] for i in range(ni)]
            inp = lst(st, [lst(st, u) if i % 2 == 0 else tup(*u) for i, u in enumerate(user)]) if ni else None
            rep.scenarios += 1
            rep.cur = 'CatPopulation, gene definitions %s, %d user individuals of %d' % (dom, ni, n)
            res, w = made(I, st, 'cat', n, gens, inp, rep, 'C14')
            got = [set() for _ in dom]
            for s, p in res:
                inds = common_members(I, rep, s, p, w, n, keys)
                for i, d in enumerate(inds or []):
                    g = elems(s, field(s, d, 'genotype'))
                    if i < ni:
                        rep.ob('C14/user individuals come first, unchanged', s, None if g is None else same_list(s, g, user[i]), w, lambda: '%s instead of %s' % (g, user[i]))
                    else:
                        rep.ob('C14/one gene per definition', s, None if g is None else len(g) == len(dom), w, lambda: '%s' % (g,))
                        for j, x in enumerate((g or [])[:len(dom)]):
                            rep.ob('C14/gene drawn from its own definition', s, in_dom(s, x, dom[j]), w, lambda: 'gene %d = %r, domain %s' % (j, x, dom[j]))
                            for z in dom[j]:
                                if can_be(s, x, z):
                                    got[j].add(z)
            if n > ni:
                for j, d in enumerate(dom):
                    for z in d:
                        rep.ob('C14/every value of a definition can be drawn', None, z in got[j], w, 'gene %d is never %r' % (j, z))


def in_dom(st, x, dom):
    """x is provably one of dom (numbers may be symbolic)"""
    if any(same(st, x, z) for z in dom):
        return True
    p = to_num(x)
    if p is None or not all(isinstance(z, N) for z in dom):
        return False
    if p.is_const():
        return False
    # symbolic integer: excluded values must be inconsistent
    s = st.clone()
    lo, hi = min(z.cval() for z in dom), max(z.cval() for z in dom)
    if not (s.facts.entails(p - lo) and s.facts.entails(N.const(hi) - p)):
        return False
    for k in range(int(lo), int(hi) + 1):
        if N.const(k) not in dom and not no_int(s, p, k):
            return False
    return True


def no_int(st, p, k):
    """p == k impossible (also by divisibility of an integer form)"""
    d = p - k
    if d.is_int() or all(_int_atom(t) for t in d.atoms()):
        from math import gcd
        g = 0
        for m, c in d.d.items():
            if m:
                g = gcd(g, abs(c.numerator)) if c.denominator == 1 else 1
        if g > 1 and d.cval() % g != 0:
            return True
    return not st.clone().facts.consistent_with([(d, False), (-d, False)])


def _int_atom(t):
    return t.typ == 'int'


def can_be(st, x, z):
    if same(st, x, z):
        return True
    p, q = to_num(x), to_num(z)
    if p is None or q is None or p.is_const():
        return False
    return not no_int(st, p, q.cval()) if q.is_const() else False


@rule('C14')
def order_fill(I, rep, tier):
    keys = ['genotype', 'score', 'obj_score', 'feasible', 'idx_individ']
    for (lo, hi, k), ni, n in (((0, 2, 2), 0, 2), ((0, 2, 3), 0, 1), ((1, 4, 2), 1, 2), ((3, 5, 3), 2, 2)):
        st = I.new_state()
        user = [[gene('u%d_%d' % (i, j)) for j in range(k)] for i in range(ni)]
        inp = lst(st, [lst(st, u) for u in user]) if ni else None
        rep.scenarios += 1
        rep.cur = 'OrderCatPopulation gens=(%d, %d, %d), %d user individuals of %d' % (lo, hi, k, ni, n)
        res, w = made(I, st, 'order', n, tup(lo, hi, k), inp, rep, 'C14')
        got = set()
        for s, p in res:
            inds = common_members(I, rep, s, p, w, n, keys)
            for i, d in enumerate(inds or []):
                g = elems(s, field(s, d, 'genotype'))
                if i < ni:
                    rep.ob('C14/user individuals come first, unchanged', s, None if g is None else same_list(s, g, user[i]), w, lambda: '%s instead of %s' % (g, user[i]))
                    continue
                rep.ob('C14/ordered genotype has the configured length', s, None if g is None else len(g) == k, w, lambda: '%s' % (g,))
                if g is None:
                    continue
                dom = [N.const(x) for x in range(lo, hi + 1)]
                rep.ob('C14/gene drawn from the inclusive range', s, all(in_dom(s, x, dom) for x in g), w, lambda: '%s' % (g,))
                rep.ob('C14/ordered genes are distinct', s, len(set(g)) == len(g), w, lambda: '%s' % (g,))
                got |= set(g)
        if n > ni:
            for x in range(lo, hi + 1):
                rep.ob('C14/every value of the range can be drawn', None, N.const(x) in got, w, '%d is never drawn' % x)
    # symbolic range and length
    st = I.new_state()
    lo, k = sym('lo', 'int'), sym('k', 'int', 2)
    hi = sym('hi', 'int')
    st.assume(N.atom(hi) - N.atom(lo) + 1 - N.atom(k))
    rep.scenarios += 1
    rep.cur = 'OrderCatPopulation gens=(lo, hi, k) symbolic'
    res, w = made(I, st, 'order', 1, tup(lo, hi, k), None, rep, 'C14')
    for s, p in res:
        inds = elems(s, p)
        if not inds:
            rep.ob('C14/symbolic ordered individual', s, None, w)
            continue
        g = segs(s, field(s, inds[0], 'genotype'))
        okk = g is not None and len(g) == 1 and isinstance(g[0], Sl) and bool(g[0].base.meta.get('distinct'))
        rep.ob('C14/ordered genotype is a duplicate-free draw', s, True if okk else None, w, lambda: 'genotype %s' % (g,))
        if okk:
            rep.ob('C14/ordered genotype has the configured length', s, same(s, seg_len(g[0]), N.atom(k)), w, lambda: 'length %r' % seg_len(g[0]))
            x = to_num(g[0].at(0))
            rep.ob('C14/gene drawn from the inclusive range', s, s.facts.entails(x - lo) and s.facts.entails(N.atom(hi) - x), w, lambda: 'gene %r' % x)


@rule('C14')
def bin_fill(I, rep, tier):
    keys = ['genotype', 'phenotype', 'score', 'obj_score', 'feasible', 'idx_individ']
    for kind in BINARY:
        for ni, n in ((0, 1), (1, 1), (1, 2), (2, 2)):
            st = I.new_state()
            lo, stp = sym('lo0', 'num'), sym('st0', 'num')
            st.assume(N.atom(stp), True)
            # 3-bit gene with symbolic bounds and a 1-bit gene
            gens = tup(tup(lo, nv(N.atom(lo) + N.atom(stp).scale(7)), stp), tup(0, 1, 1))
            user = []
            for i in range(ni):
                user.append([nv(N.atom(lo) + N.atom(stp).scale(5 - 3 * i)), N.const(i % 2)])
            inp = lst(st, [lst(st, u) for u in user]) if ni else None
            rep.scenarios += 1
            rep.cur = '%s, genes of 3 and 1 bits, %d user individuals of %d' % (POPCLS[kind], ni, n)
            res, w = made(I, st, kind, n, gens, inp, rep, 'C14')
            for s, p in res:
                inds = common_members(I, rep, s, p, w, n, keys)
                for i, d in enumerate(inds or []):
                    g = elems(s, field(s, d, 'genotype'))
                    rep.ob('C14/full-width bit string', s, None if g is None else (len(g) == 4 and all(ops.char_form(s, c) is not None for c in g)), w, lambda: '%s' % (g,))
                    ph = elems(s, field(s, d, 'phenotype'))
                    if i < ni:
                        rep.ob('C14/user individual comes first and decodes to its values', s, None if ph is None else same_list(s, ph, user[i]), w,
                               lambda: '%s instead of %s' % (ph, user[i]))


@rule('C14')
def every_code(I, rep, tier):
    """every bit string can be drawn for a generated individual"""
    for kind in BINARY:
        for gens, width in (((0, 3, 1),), 2), (((0, 3, 1), (0, 1, 1)), 3), (((0, 7, 1),), 3):
            rep.scenarios += 1
            rep.cur = '%s, genes %s' % (POPCLS[kind], gens)
            I.fork_draws = True
            try:
                res, w = made(I, I.new_state(), kind, 1, tup(*[tup(*g) for g in gens]), None, rep, 'C14')
            finally:
                I.fork_draws = False
            got, open_ = set(), None
            for s, p in res:
                inds = elems(s, p)
                g = elems(s, field(s, inds[0], 'genotype')) if inds else None
                if g is None or s.imprecise or not all(c in (K('0'), K('1')) for c in g):
                    open_ = s
                else:
                    got.add(''.join(c.v for c in g))
            if res:
                rep.ob('C14/every bit string can be drawn', open_ or res[0][0], None if open_ else len(got) == 2 ** width, w, lambda: 'only %s are ever drawn' % sorted(got))


@rule('C14')
def large_fill(I, rep, tier):
    """many individuals and long genotypes (one resolution of the draws)"""
    thr = I.thresholds(260)
    for kind in POPCLS:
        for n, ni, glen in [(40, 3, 3), (5, 2, 24)] + [(t + 2, 1, 2) for t in thr] + [(t + 2, t + 1, 2) for t in thr if t <= 110] + [(3, 2, t + 2) for t in thr if t <= 110]:
            st = I.new_state()
            if kind in BINARY:
                gens = tup(*[tup(j, j + 7, 1) if j % 2 else tup(-1, 1, 2) for j in range(glen)])
                user = [[N.const(j + (i + j) % 8 if j % 2 else 1) for j in range(glen)] for i in range(ni)]
                width = sum(3 if j % 2 else 1 for j in range(glen))
            elif kind == 'order':
                gens = tup(5, 5 + 2 * glen, glen)
                user = [[N.const(5 + (j * (1 if i % 2 else glen + 1) + i) % (2 * glen + 1)) for j in range(glen)] for i in range(ni)]
            else:
                gens = tup(*[lst(st, [N.const(j), N.const(-j - 1)]) if j % 2 else tup(j, j + 4, 2) for j in range(glen)])
                user = [[N.const(j if (i + j) % 3 else (-j - 1 if j % 2 else j + 2)) for j in range(glen)] for i in range(ni)]
            rows = [lst(st, u) for u in user]
            inp = lst(st, rows)
            rep.scenarios += 1
            rep.cur = '%s of %d individuals with %d genes, %d user individuals' % (POPCLS[kind], n, glen, ni)
            with Resolved(I):
                res, w = made(I, st, kind, n, gens, inp, rep, 'C14')
            uk = set()
            for x in rows:
                uk |= reach(st, x)
            for s, p in res:
                inds = common_members(I, rep, s, p, w, n, ['genotype', 'score', 'obj_score', 'feasible', 'idx_individ'])
                for i, d in enumerate(inds or []):
                    g = elems(s, field(s, d, 'genotype'))
                    rep.ob('C14/user data is copied', s, not reach(s, d) & uk, w, lambda: 'individual %d shares a list with the user data' % i)
                    if g is None:
                        rep.ob('C14/genotype', s, None, w)
                        continue
                    if kind in BINARY:
                        rep.ob('C14/full-width bit string', s, len(g) == width and all(c in (K('0'), K('1')) for c in g), w, lambda: '%s' % (g,))
                        if i < ni:
                            ph = elems(s, field(s, d, 'phenotype'))
                            rep.ob('C14/user individual comes first and decodes to its values', s, None if ph is None else same_list(s, ph, user[i]), w, lambda: '%s instead of %s' % (ph, user[i]))
                    elif i < ni:
                        rep.ob('C14/user individuals come first, unchanged', s, same_list(s, g, user[i]), w, lambda: '%s instead of %s' % (g, user[i]))
                    elif kind == 'order':
                        rep.ob('C14/ordered genes are distinct', s, len(g) == glen == len(set(g)), w, lambda: '%s' % (g,))
                        rep.ob('C14/gene drawn from the inclusive range', s, all(to_num(x) is not None and 5 <= to_num(x).cval() <= 5 + 2 * glen for x in g), w, lambda: '%s' % (g,))
                    else:
                        rep.ob('C14/one gene per definition', s, len(g) == glen, w, lambda: '%s' % (g,))
                        rep.ob('C14/gene drawn from its own definition', s, all(to_num(x) is not None and to_num(x).cval() in ((j, -j - 1) if j % 2 else (j, j + 2, j + 4)) for j, x in enumerate(g)), w, lambda: '%s' % (g,))


@rule('C14')
def too_many(I, rep, tier):
    for kind in POPCLS:
        for extra in ('symbolic', 0, 1):
            st = I.new_state()
            gens = GENS[kind](st)
            glen = 2 if kind in BINARY else 4
            inp = lst(st, [lst(st, [N.const(0)] * glen), lst(st, [N.const(1)] * glen)])
            rep.scenarios += 1
            for s, p in ok1(new(I, st, POPCLS[kind]), 'population'):
                w = where(I, s, POPCLS[kind], 'set_params')
                if extra == 'symbolic':
                    n = sym('n_small', 'int', 0, 1)
                    rep.cur = '%s: 2 user individuals, num_individ < 2' % POPCLS[kind]
                    for s2, v in meth(I, s, p, 'set_params', n, gens, inp):
                        if isinstance(v, Exc):
                            rep.ob('C14/too many user individuals are rejected', s2, True, w)
                        else:
                            for s3, v3 in meth(I, s2, p, 'fill'):
                                rep.ob('C14/too many user individuals are rejected', s3, isinstance(v3, Exc), w, 'accepted')
                else:
                    rep.cur = '%s: 2 user individuals, num_individ = %d' % (POPCLS[kind], 2 + extra)
                    runs(rep, 'C14/as many user individuals as the size are accepted', meth(I, s, p, 'set_params', 2 + extra, gens, inp), w)


# ------------------------------------------------------------------ codec
def decode_world(I, kind, gens, rep, r):
    st = I.new_state()
    gv = gens(st)
    I.setup = True
    try:
        out = []
        for s, p in ok1(new(I, st, POPCLS[kind]), 'population'):
            for s, _ in ok1(meth(I, s, p, 'set_params', 1, gv), 'set_params'):
                w = where(I, s, POPCLS[kind], 'fill')
                for s, _ in runs(rep, r, meth(I, s, p, 'fill'), w):
                    s.events = ()
                    out.append((s, p))
        return out
    finally:
        I.setup = False


def gray_to_index(forms):
    """index bits (least significant first) of a Gray code given least significant first"""
    out = []
    for i in range(len(forms)):
        f = frozenset()
        for j in range(i, len(forms)):
            f = f ^ forms[j]
        out.append(f)
    return out


SHAPES = [
    # (number of steps in units of the step, expected width) ; gene = (lo, lo + k*step, step)
    (1, 1), (2, 2), (3, 2), (4, 3), (7, 3), (8, 4), (Fr(5, 2), 2), (Fr(7, 2), 3), (Fr(15, 2), 4), (Fr(1, 2), 1),
    (Fr(11, 10), 2), (Fr(31, 10), 3), (Fr(701, 100), 4), (Fr(1501, 100), 5), (Fr(10001, 10000), 2),
]


@rule('C15')
def decode(I, rep, tier):
    shapes = SHAPES + [(100, 7)] if tier == 'quick' else SHAPES + [(255, 8), (15, 4), (16, 5), (Fr(31, 2), 4), (31, 5), (Fr(63, 2), 5), (100, 7)]
    shapes = shapes + [(70000, 17)] + [(2 ** t + 1, t + 1) for t in I.thresholds(26)]
    for kind in BINARY:
        for k, width in shapes:
            for second in (False, True):
                def gens(st):
                    lo, stp = sym('lo', 'num'), sym('step', 'num')
                    st.assume(N.atom(stp), True)
                    g1 = tup(lo, nv(N.atom(lo) + N.atom(stp).scale(k)), stp)
                    lo2, s2 = sym('lo2', 'num'), sym('step2', 'num')
                    st.assume(N.atom(s2), True)
                    g2 = tup(lo2, nv(N.atom(lo2) + N.atom(s2).scale(3)), s2)
                    return tup(g2, g1) if second else tup(g1)
                lo, stp = N.atom(sym('lo', 'num')), N.atom(sym('step', 'num'))
                hi = lo + stp.scale(k)
                rep.scenarios += 1
                rep.cur = '%s, gene (lo, lo+%s*step, step)%s' % (POPCLS[kind], k, ' after a 2-bit gene' if second else '')
                worlds = decode_world(I, kind, gens, rep, 'C15')
                for s, p in worlds:
                    w = where(I, s, POPCLS[kind], 'get_phenotype') if hasattr_cls(I, s, POPCLS[kind], 'get_phenotype') else where(I, s, POPCLS[kind], 'fill')
                    d = (elems(s, p) or [None])[0]
                    g = elems(s, field(s, d, 'genotype'))
                    if g is None:
                        rep.ob('C15/genotype', s, None, w)
                        continue
                    off = 2 if second else 0
                    wd = len(g) - off
                    rep.ob('C15/at least one bit', s, wd >= 1, w, lambda: 'genotype %s' % (g,))
                    if wd < 1:
                        continue
                    # decode an arbitrary bit string
                    bits = [ops.bitvar('b%d' % i) for i in range(len(g))]
                    setfield(s, d, 'genotype', lst(s, [ops.bitchar(b) for b in bits]))
                    setfield(s, d, 'phenotype', None)
                    for s2, _ in runs(rep, 'C15/decode', meth(I, s, p, 'get_phenotype'), w):
                        ph = elems(s2, field(s2, d, 'phenotype'))
                        if ph is None or len(ph) != (2 if second else 1):
                            rep.ob('C15/one decoded value per gene', s2, False if ph is not None else None, w, lambda: show(s2, d))
                            continue
                        own = [ops.gf_reduce(s2, b) for b in bits[off:]][::-1]     # least significant first
                        idx = gray_to_index(own) if kind == 'gray' else own
                        want = lo + hi_step(stp.scale(k), wd) * ops.from_bits([ops.gf_reduce(s2, f) for f in idx])
                        x = to_num(ph[-1])
                        okv = x is not None and (not ops.gf_norm(s2, x - want).d or eq_rational(ops.gf_norm(s2, x), ops.gf_norm(s2, want)))
                        rep.ob('C15/decoded point is low + index * (high-low)/(2^bits-1)', s2, okv, w,
                               lambda: 'bits %s decode to %r instead of %r' % (own, x, want))
                    # spacing not coarser than requested
                    rep.ob('C15/spacing not coarser than the step', s, Fr(k) / (2 ** wd - 1) <= 1, w, lambda: '%d bits for %s steps: spacing %s steps' % (wd, k, Fr(k) / (2 ** wd - 1)))


def hi_step(rng, wd):
    return rng.scale(Fr(1, 2 ** wd - 1))


def hasattr_cls(I, st, name, m):
    c = scn.cls(I, st, name)
    v, _ = I.class_lookup(st, c.info.mro, m)
    return v is not None


@rule('C15')
def round_trip(I, rep, tier):
    """user values on the grid are encoded to the bits that decode to them; values off the grid to the nearest point; outside is rejected"""
    for kind in BINARY:
        for wd in ((1, 2, 3, 7, 18) if tier == 'quick' else (1, 2, 3, 4, 7, 10, 18)) + tuple(t + 1 for t in I.thresholds(26)):
            n = 2 ** wd - 1
            for i in range(n + 1) if wd < 6 else sorted({x for k in range(2, wd) for x in (2 ** k, 2 ** k - 1, 2 ** k + 3)} | {n, n - 1}):
                for delta in (Fr(0), Fr(2, 5), Fr(-2, 5)):
                    if not 0 <= i + delta <= n:
                        continue
                    st = I.new_state()
                    lo, stp = N.atom(sym('lo', 'num')), N.atom(sym('step', 'num'))
                    st.assume(stp, True)
                    hi = lo + stp.scale(n)
                    gens = tup(tup(0, 1, 1), tup(nv(lo), nv(hi), nv(stp)))
                    inp = lst(st, [lst(st, [N.const(i % 2), nv(lo + stp.scale(i + delta))])])
                    rep.scenarios += 1
                    rep.cur = '%s, user value low + %s*step in a %d-bit gene' % (POPCLS[kind], i + delta, wd)
                    w = where(I, st, POPCLS[kind], 'fill')
                    for s, p in ok1(new(I, st, POPCLS[kind]), 'population'):
                        for s, _ in runs(rep, 'C15/user value', meth(I, s, p, 'set_params', 1, gens, inp), w):
                            for s2, _ in runs(rep, 'C15/user value', meth(I, s, p, 'fill'), w):
                                d = (elems(s2, p) or [None])[0]
                                g = elems(s2, field(s2, d, 'genotype'))
                                code = i ^ (i >> 1) if kind == 'gray' else i
                                want = str(i % 2) + format(code, '0%db' % wd)
                                rep.ob('C15/user value is stored as its own code', s2, None if g is None else [K(c) for c in want] == g, w,
                                       lambda: '%s instead of %s' % (g, want))
                                ph = elems(s2, field(s2, d, 'phenotype'))
                                rep.ob('C15/user value on the grid is restored exactly', s2,
                                       None if ph is None else (len(ph) == 2 and to_num(ph[1]) is not None and eq_rational(to_num(ph[1]), lo + stp.scale(i))), w,
                                       lambda: '%s' % (ph,))
            for side, off in itertools.product(('below', 'above'), (None, Fr(1, 100), Fr(1, 4), Fr(9, 10), Fr(1), Fr(3, 2), Fr(40))):
                st = I.new_state()
                lo, stp, x = N.atom(sym('lo', 'num')), N.atom(sym('step', 'num')), sym('uval', 'num')
                st.assume(stp, True)
                hi = lo + stp.scale(n)
                if off is None:
                    st.assume(lo - x if side == 'below' else N.atom(x) - hi, True)
                else:
                    x = nv(lo - stp.scale(off) if side == 'below' else hi + stp.scale(off))
                gens = tup(tup(0, 1, 1), tup(nv(lo), nv(hi), nv(stp)))
                inp = lst(st, [lst(st, [N.const(1), x])])
                rep.scenarios += 1
                rep.cur = '%s, user value %s its bounds%s' % (POPCLS[kind], side, '' if off is None else ' by %s step' % off)
                w = where(I, st, POPCLS[kind], 'fill')
                for s, p in ok1(new(I, st, POPCLS[kind]), 'population'):
                    for s, v in meth(I, s, p, 'set_params', 1, gens, inp):
                        if not isinstance(v, Exc):
                            raises(rep, 'C15/user value outside its bounds is rejected', meth(I, s, p, 'fill'), w, 'a user value %s the bounds' % side)


@rule('C15')
def gray_neighbours(I, rep, tier):
    """consecutive grid points differ in exactly one bit"""
    for wd in (2, 3, 7) if tier == 'quick' else (2, 3, 4, 10):
        n = 2 ** wd - 1
        codes = []
        pts = range(n + 1) if wd < 6 else sorted({x for k in range(wd) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1)} | {n - 1, n, 85, 86})
        for i in pts:
            st = I.new_state()
            gens = tup(tup(0, n, 1))
            inp = lst(st, [lst(st, [N.const(i)])])
            rep.scenarios += 1
            rep.cur = 'BinaryGrayPopulation, %d-bit gene, point %d' % (wd, i)
            w = where(I, st, 'BinaryGrayPopulation', 'fill')
            for s, p in ok1(new(I, st, 'BinaryGrayPopulation'), 'population'):
                for s, _ in ok1(meth(I, s, p, 'set_params', 1, gens, inp), 'set_params'):
                    for s2, _ in runs(rep, 'C15/gray', meth(I, s, p, 'fill'), w):
                        g = elems(s2, field(s2, (elems(s2, p) or [None])[0], 'genotype'))
                        codes.append(g)
        for i, j, a, b in zip(pts, pts[1:], codes, codes[1:]):
            if j != i + 1:
                continue
            rep.ob('C15/neighbouring points differ in one bit', None, None if a is None or b is None else (len(a) == len(b) and sum(x != y for x, y in zip(a, b)) == 1), w,
                   'points %d and %d: %s and %s' % (i, i + 1, a, b))


# ------------------------------------------------------------------ settings
@rule('C16')
def keeps_coding(I, rep, tier):
    for kind in POPCLS:
        for s, pop, inds in population(I, I.new_state(), kind, 3):
            rep.scenarios += 1
            rep.cur = '%s: empty copies' % POPCLS[kind]
            w = where(I, s, POPCLS[kind], 'get_empty_copy')
            c = s.get(pop.key).cls
            for s2, e in runs(rep, 'C16', meth(I, s, pop, 'get_empty_copy'), w):
                o = s2.get(e.key) if isinstance(e, Ref) else None
                rep.ob('C16/empty copy has the same type', s2, o is not None and o.cls == c, w, lambda: 'a %s for a %s' % (o and o.cls, c))
                rep.ob('C16/empty copy is empty', s2, o is not None and o.segs == (), w, lambda: show(s2, e))
                rep.ob('C16/empty copy is a new object', s2, e != pop, w, 'the population itself')


@rule('C16')
def through_operators(I, rep, tier):
    """containers and the replaced population keep type and layout (control flow independent of the draws: one resolution suffices)"""
    xs = {'bin': ('OnePointCrossover', 'UniformCrossover'), 'gray': ('TwoPointCrossover', 'UniformCrossover'), 'cat': ('OnePointCrossover', 'UniformCrossover'), 'order': ('OrderCrossover',)}
    sels = (('TournamentSelection', dict(tournament_size=2)), ('BalancedSelection', {}), ('RankedSelection', {}))
    for kind in POPCLS:
        for (sname, skw), xname, tp, cp in itertools.product(sels, xs[kind], ('best', 'random'), (Fr(1, 2), Fr(1))):
            for s, pop, inds in population(I, I.new_state(), kind, 3, glen=4):
                for i, d in enumerate(inds):
                    setfield(s, d, 'score', i + 1)
                    if kind == 'order':
                        setfield(s, d, 'genotype', lst(s, [(j * (1 if i % 2 else 3) + i) % 4 for j in range(4)]))
                for s, gd in gadata(I, s, pop, children_percent=NF(N.of(cp).d)):
                    c = s.get(pop.key).cls
                    before = layout(I, s, pop)
                    rep.scenarios += 1
                    rep.cur = '%s through %s, %s and NewGeneration(%s), children_percent %s' % (POPCLS[kind], sname, xname, tp, cp)
                    I.setup = True
                    try:
                        chain(I, rep, s, gd, c, before, sname, skw, xname, tp)
                    finally:
                        I.setup = False


def chain(I, rep, s, gd, c, before, sname, skw, xname, tp):
    w = where(I, s, sname, 'execute')
    for s, sel in ok1(new(I, s, sname, **skw), sname):
        for s, _ in runs(rep, 'C16', meth(I, s, sel, 'execute', gd), w):
            par = attr(I, s, gd, 'parents')
            rep.ob('C16/parents container has the population\'s type', s, isinstance(par, Ref) and s.get(par.key).cls == c, w, lambda: show(s, par))
            wx = where(I, s, xname, 'execute')
            for s, x in ok1(new(I, s, xname), xname):
                for s, _ in runs(rep, 'C16', meth(I, s, x, 'execute', gd), wx):
                    ch = attr(I, s, gd, 'children')
                    rep.ob('C16/children container has the population\'s type', s, isinstance(ch, Ref) and s.get(ch.key).cls == c, wx, lambda: show(s, ch))
                    wn = where(I, s, 'NewGeneration', 'execute')
                    for s, ng in ok1(new(I, s, 'NewGeneration', transfer_parents=tp), 'NewGeneration'):
                        for s, _ in runs(rep, 'C16', meth(I, s, ng, 'execute', gd), wn):
                            check_layout(I, rep, s, gd, c, before, wn)


def layout(I, st, pop):
    out = {}
    for k in ('num_individ', 'gens', 'is_phenotype', 'num_bits', 'real_step', 'idx_bits', 'real_num_points', 'input_population'):
        v = attr(I, st, pop, k)
        if v is not None:
            out[k] = snapshot(st, v)
    return out


def check_layout(I, rep, s, gd, c, before, w):
    np_ = attr(I, s, gd, 'population')
    rep.ob('C16/new population has the same type', s, isinstance(np_, Ref) and s.get(np_.key).cls == c, w, lambda: show(s, np_))
    if not isinstance(np_, Ref):
        return
    after = layout(I, s, np_)
    for k, v in before.items():
        rep.ob('C16/%s is kept' % k, s, after.get(k) == v, w, lambda: '%s: %r became %r' % (k, v, after.get(k)))
    rep.ob('C16/new population is not regarded as sorted', s, attr(I, s, np_, 'is_sorted') == FALSE, w, 'is_sorted stays set')


@rule('C16')
def multi_replacement(I, rep, tier):
    for kind in BINARY:
        for tp in ('best', 'random'):
            npop = 3 if tp == 'best' else 12
            for s, pop, inds in population(I, I.new_state(), kind, npop, glen=4):
                for i, d in enumerate(inds):
                    setfield(s, d, 'rank', 1 if i < 1 else 2)
                    setfield(s, d, 'genotype', lst(s, [K(c) for c in format(i, '04b')]))
                c = s.get(pop.key).cls
                before = layout(I, s, pop)
                for s, ch in ok1(meth(I, s, pop, 'get_empty_copy'), 'get_empty_copy'):
                    for s, gd in gadata(I, s, pop, 'MultiGaData'):
                        setattrs(I, s, gd, children=ch)
                        setattrs(I, s, pop, is_sorted=True)
                        rep.scenarios += 1
                        rep.cur = '%s through MultiNewGeneration(%s)' % (POPCLS[kind], tp)
                        I.setup = True
                        try:
                            for s, ng in ok1(new(I, s, 'MultiNewGeneration', transfer_parents=tp), 'MultiNewGeneration'):
                                wn = where(I, s, 'MultiNewGeneration', 'execute')
                                for s7, _ in runs(rep, 'C16', meth(I, s, ng, 'execute', gd), wn):
                                    check_layout(I, rep, s7, gd, c, before, wn)
                        finally:
                            I.setup = False
