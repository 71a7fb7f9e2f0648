import itertools
import math
from ..terms import N, T, mk, fresh, sym, set_bounds, Fr, eq_rational
from ..values import *
from .. import ops, scn, seqs
from ..scn import *          # noqa
from ..check import rule


def where(I, st, clsname, method=None):
    c = clsname if isinstance(clsname, Cls) else scn.cls(I, st, clsname)
    ci = c.info
    if method is None:
        return (ci.path, ci.node.lineno, ci.qual)
    v, _ = I.class_lookup(st, ci.mro, method)
    f = v
    while isinstance(f, Partial) and f.args:
        f = f.args[0]
    if isinstance(f, Fn):
        return (f.info.path, f.info.node.lineno, f.info.qual)
    return (ci.path, ci.node.lineno, ci.qual + '.' + method)


def runs(rep, r, res, w, allow=()):
    """successful continuations; a raising one is a violation of rule r (completes)"""
    out = []
    for s, v in res:
        if isinstance(v, Exc):
            if v.name in allow:
                continue
            rep.ob(r + '/completes', s, False, v.site or w, 'raises %s %s on legal input' % (v.name, v.args or ''))
        else:
            rep.ob(r + '/completes', s, True, w)
            out.append((s, v))
    return out


def raises(rep, r, res, w, what, explicit=False):
    """every continuation must raise"""
    for s, v in res:
        rep.ob(r, s, isinstance(v, Exc), w, '%s is accepted instead of being rejected' % what)


def same(st, a, b):
    """provable equality of two scalar abstract values: True / False / None"""
    if a is b or a == b:
        return True
    if isinstance(a, (N, T)) or isinstance(b, (N, T)):
        p, q = to_num(a), to_num(b)
        if p is not None and q is not None:
            d = ops.gf_norm(st, p - q)
            if not d.d:
                return True
            if d.is_const():
                return False
            if st.facts.entails(d) and st.facts.entails(-d):
                return True
            if not d.is_int() and eq_rational(d, N.const(0)):
                return True
            return is_zero(st, d)
        fa, fb = ops.char_form(st, a), ops.char_form(st, b)
        if fa is not None and fb is not None:
            return fa == fb
        if isinstance(a, (T, K)) and isinstance(b, (T, K)):
            return ops.find(st, a) == ops.find(st, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        x, y = a.items(), b.items()
        if x is not None and y is not None:
            return len(x) == len(y) and all3(same(st, p, q) for p, q in zip(x, y))
    return False


def all3(it):
    r = True
    for x in it:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def same_list(st, a, b):
    """two lists (values) with provably equal explicit contents"""
    x = a if isinstance(a, list) else elems(st, a)
    y = b if isinstance(b, list) else elems(st, b)
    if x is None or y is None:
        return None
    return len(x) == len(y) and all3(same_deep(st, p, q) for p, q in zip(x, y))


def same_deep(st, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        oa, ob = st.get(a.key), st.get(b.key)
        if oa is None or ob is None:
            return None
        if oa.segs is not None and ob.segs is not None:
            return same_list(st, a, b)
        if oa.kind == 'dict' and ob.kind == 'dict':
            return set(oa.fields) == set(ob.fields) and all3(same_deep(st, v, ob.fields[k]) for k, v in oa.fields.items())
        return False
    return same(st, a, b)


def snapshot(st, v, depth=0):
    """hashable deep snapshot of a value (contents, not identity)"""
    if isinstance(v, Ref) and depth < 8:
        o = st.get(v.key)
        if o is None:
            return ('?', v.key)
        if o.segs is not None:
            return ('L', tuple(snapshot(st, s.v, depth + 1) if isinstance(s, One) else s for s in o.segs))
        if o.kind == 'dict':
            return ('D', tuple((k, snapshot(st, x, depth + 1)) for k, x in o.fields.items()))
        return ('O', v.key)
    if isinstance(v, Tup):
        return ('T', tuple(snapshot(st, s.v, depth + 1) if isinstance(s, One) else s for s in v.segs))
    return v


def reach(st, v, acc=None, stop=()):
    """heap keys of mutable containers reachable from a value"""
    acc = set() if acc is None else acc
    if isinstance(v, Ref):
        if v.key in acc:
            return acc
        o = st.get(v.key)
        if o is None:
            return acc
        if o.kind in ('list', 'dict', 'set') or (o.kind == 'inst'):
            acc.add(v.key)
        for x in o.fields.values():
            reach(st, x, acc)
        if o.segs is not None:
            for g in o.segs:
                if isinstance(g, One):
                    reach(st, g.v, acc)
        if o.ns is not None:
            for x in st.get(o.ns).fields.values():
                reach(st, x, acc)
    elif isinstance(v, Tup):
        for g in v.segs:
            if isinstance(g, One):
                reach(st, g.v, acc)
    return acc


def ind_fields(st, d):
    o = st.get(d.key) if isinstance(d, Ref) else None
    return None if o is None or o.kind != 'dict' else [k.v for k in o.fields if isinstance(k, K)]


def parents_pop(I, st, pop, inds):
    """parents container: an empty copy of the population holding independent copies of the individuals.
    -> [(st, parents, [refs])]"""
    from ..stdlib import deepcopy
    out = []
    for s, p in ok1(meth(I, st, pop, 'get_empty_copy'), 'get_empty_copy'):
        refs = []
        for d in inds:
            (s, c), = deepcopy(I, s, d)
            refs.append(c)
        s.mut(p.key).segs = tuple(One(r) for r in refs)
        s.events = ()
        out.append((s, p, refs))
    return out


def positive(st, d, strict=True, depth=0):
    """d > 0 (>= 0) provable, denominators cleared with provably positive multipliers"""
    d = N.of(d)
    if st.facts.entails(d, strict):
        return True
    for _ in range(6):
        invs = [t for t in d.atoms() if t.k == 'inv']
        if invs:
            t = invs[0]
            q = t.a[0]
            if depth > 3 or not positive(st, q, True, depth + 1):
                return False
            k = max((e for m in d.d for u, e in m if u == t.uid), default=0)
            tot = N({})
            from ..terms import mmul, _rawmul
            for m, c in d.d.items():
                e = dict(m).get(t.uid, 0)
                term = N({mmul(m, ((t.uid, -e),)) if e else m: c})
                for _ in range(k - e):
                    term = _rawmul(term, q)
                tot = tot + term
            d = tot
            continue
        mn = {}
        for m in d.d:
            for u, e in m:
                if e < 0:
                    mn[u] = min(mn.get(u, 0), e)
        if not mn:
            break
        from ..terms import mmul, _BY_UID
        for u, e in mn.items():
            if e % 2 and not st.facts.entails(N.atom(_BY_UID[u]), True):
                return False
        mul = tuple(sorted((u, -e) for u, e in mn.items()))
        d = N({mmul(m, mul): c for m, c in d.d.items()})
    if d.is_const():
        return d.cval() > 0 or (not strict and d.cval() >= 0)
    return st.facts.entails(d, strict) or mono_pos(st, d, strict)


class UserFn:
    """a function of the user, opaque: its answer is determined by the genes it is given.
    ret(st, key, genes) -> abstract value; calls are recorded as ('obj', fn, args, snapshots)"""

    def __init__(self, name, ret):
        self.ret = ret
        self.t = fresh(name, 'fn', info={'call': self.call})

    def call(self, I, st, args, kw):
        st.ev('obj', self.t, tuple(args), tuple(snapshot(st, a) for a in args), tuple(sorted(kw)), I.site)
        genes = args[-1] if args else (list(kw.values())[-1] if kw else None)
        return [(st, self.ret(st, snapshot(st, genes), args))]

    def calls(self, st):
        return [e for e in st.events if e[0] == 'obj' and e[1] is self.t]


def objval(key, j=0, name='f'):
    return mk('objv', (name, key, j), 'num')


def scalar_fn(name='f'):
    return UserFn(name, lambda st, key, a: objval(key, 0, name))


def tuple_fn(n, name='f', form='tuple'):
    def ret(st, key, a):
        vals = [objval(key, j, name) for j in range(n)]
        return tup(*vals) if form == 'tuple' else lst(st, vals)
    return UserFn(name, ret)


def mono_pos(st, d, strict):
    """sum of monomials of provably non-negative sign, one of them positive if strict"""
    from ..terms import _BY_UID
    some = False
    for m, c in d.d.items():
        sg, zero = (1 if c > 0 else -1), False
        for u, e in m:
            a = N.atom(_BY_UID[u])
            if st.facts.entails(a, True):
                pass
            elif e % 2 == 0:
                if not (st.facts.entails(-a, True) or st.lit(('eqn', a)) is False):
                    zero = True
            elif st.facts.entails(-a, True):
                sg = -sg
            elif st.facts.entails(a):
                zero = True
            elif st.facts.entails(-a):
                zero, sg = True, -sg
            else:
                return False
        if sg < 0:
            return False
        some = some or not zero
    return some or not strict


def value_at(p, env):
    """exact value of a polynomial at a point, None where undefined"""
    from ..terms import _BY_UID
    tot = Fr(0)
    for m, c in p.d.items():
        v = c
        for u, e in m:
            t = _BY_UID[u]
            if t in env:
                x = env[t]
            elif t.k == 'inv':
                x = value_at(t.a[0], env)
                if x is None or x == 0:
                    return None
                x = 1 / x
            elif t.k == 'pow':
                b, k = value_at(N.of(t.a[0]), env), value_at(N.of(t.a[1]), env)
                if b is None or k is None or k.denominator != 1 or abs(k) > 40 or (b == 0 and k < 0):
                    return None
                x = b ** int(k)
            elif t.k in ('floor', 'round'):
                x = value_at(N.of(t.a[0]), env)
                if x is None:
                    return None
                x = Fr(math.floor(x) if t.k == 'floor' else round(x))
            else:
                return None
            if e < 0 and x == 0:
                return None
            v *= x ** e
        tot += v
    return tot


def free_atoms(p, acc):
    for t in p.atoms():
        if t.k == 'inv':
            free_atoms(t.a[0], acc)
        elif t.k == 'pow':
            free_atoms(N.of(t.a[0]), acc)
            free_atoms(N.of(t.a[1]), acc)
        elif t.k in ('floor', 'round'):
            free_atoms(N.of(t.a[0]), acc)
        else:
            acc.add(t)
    return acc


GRID = [Fr(x) for x in (0, 1, -1, 2, -2, 3, -3, 5, 12, -12)] + [Fr(1, 2), Fr(-1, 2), Fr(1, 10), Fr(7, 3)]


def counterexample(st, d, strict):
    """a point satisfying the facts of the path at which d > 0 (d >= 0) fails, or None"""
    import random as _r
    from ..terms import BOUNDS
    vs = free_atoms(d, set())
    cons = []
    for p, s in st.facts.lin:
        if free_atoms(p, set()) & vs:
            cons.append((p, s))
    while True:
        size = len(vs)
        for p, s in list(cons):
            vs |= free_atoms(p, set())
        for t in list(vs):
            for p, s in BOUNDS.get(t.uid, ()):
                vs |= free_atoms(p, set())
        cons = [(p, s) for p, s in st.facts.lin if free_atoms(p, set()) & vs]
        if len(vs) == size:
            break
    ne = [k[1] for k, v in st.facts.lits.items() if k[0] == 'eqn' and v is False and isinstance(k[1], N) and free_atoms(k[1], set()) <= vs]
    vs = sorted(vs, key=lambda t: t.uid)
    if any(t is ops.INF for t in vs):
        return None
    for t in vs:
        cons += [(p, s) for p, s in BOUNDS.get(t.uid, ())]
    more = {t: set() for t in vs}
    for p, _ in cons:               # thresholds of the path
        k = p.d.get((), 0)
        if k:
            for t in free_atoms(p, set()):
                c = p.d.get(((t.uid, 1),)) or 1
                x = -Fr(k) / Fr(c)
                more[t] |= {x, x + 1, x - 1}
    vals = [[g for g in GRID + sorted(more[t] - set(GRID))[:12] if t.typ != 'int' or g.denominator == 1] for t in vs]
    total = 1
    for v in vals:
        total *= len(v)
    if total <= 20000:
        pts = itertools.product(*vals)
    else:
        rng = _r.Random(7)
        pts = ([rng.choice(v) for v in vals] for _ in range(6000))
    for pt in pts:
        env = dict(zip(vs, pt))
        ok = True
        for p, s in cons:
            x = value_at(p, env)
            if x is None or x < 0 or (s and x == 0):
                ok = False
                break
        if not ok or any(value_at(p, env) == 0 for p in ne):
            continue
        x = value_at(d, env)
        if x is not None and (x < 0 or (strict and x == 0)):
            return env
    return None


def decide(st, d, strict=True):
    """d > 0 (d >= 0) on this path: True (proved), False (refuted by a point of the path), None"""
    d = N.of(d)
    if positive(st, d, strict) or mono_pos(st, d, strict):
        return True
    return False if counterexample(st, d, strict) is not None else None


def is_zero(st, d):
    d = N.of(d)
    if not d.d or (st.facts.entails(d) and st.facts.entails(-d)) or eq_rational(d, N.const(0)):
        return True
    if counterexample(st, d, False) is not None or counterexample(st, -d, False) is not None:
        return False
    return None


class Resolved:
    """one fixed resolution of the random draws"""

    def __init__(self, I, start=0):
        self.I, self.start = I, start

    def __enter__(self):
        self.saved = (self.I.setup, self.I.draws)
        self.I.setup, self.I.draws = True, self.start

    def __exit__(self, *a):
        self.I.setup, self.I.draws = self.saved
