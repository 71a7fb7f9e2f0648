"""Value terms of the abstract domain: opaque atoms, polynomials over atoms, linear facts.

Nothing here runs repository code.  Numeric values are kept as polynomials with rational
coefficients over opaque atoms (value numbering up to real arithmetic); facts are linear
inequalities over the monomials (a polyhedral domain decided by Fourier-Motzkin elimination)
plus a table of boolean literals."""
from fractions import Fraction as Fr
from math import gcd


class T:
    """Opaque atom (hash-consed)."""
    __slots__ = ('k', 'a', 'uid', 'typ', 'info')

    def __repr__(self):
        if self.k in ('sym', 'fresh'):
            return str(self.a[0])
        return '%s(%s)' % (self.k, ', '.join(_r(x) for x in self.a))


def _r(x):
    return repr(x)


_INTERN = {}
_BY_UID = []
BOUNDS = {}      # uid -> list[(N, strict)]  meaning N >= 0 (or > 0)


def mk(k, a, typ='any', info=None):
    key = (k, a)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.typ, t.info = k, a, typ, info
        t.uid = len(_BY_UID)
        _BY_UID.append(t)
        _INTERN[key] = t
    return t


_cnt = [0]


def fresh(name, typ='any', lo=None, hi=None, info=None):
    _cnt[0] += 1
    t = mk('fresh', ('%s#%d' % (name, _cnt[0]),), typ, info)
    set_bounds(t, lo, hi)
    return t


def sym(name, typ='any', lo=None, hi=None, info=None):
    t = mk('sym', (name,), typ, info)
    set_bounds(t, lo, hi)
    return t


def set_bounds(t, lo=None, hi=None, slo=False, shi=False):
    b = BOUNDS.setdefault(t.uid, [])
    p = N.atom(t)
    if lo is not None:
        e = (p - N.of(lo), slo)
        if e not in b:
            b.append(e)
    if hi is not None:
        e = (N.of(hi) - p, shi)
        if e not in b:
            b.append(e)


class N:
    """Polynomial: dict mono -> Fraction; mono = ((uid, exp), ...)."""
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    @staticmethod
    def const(c):
        c = Fr(c)
        return N({(): c} if c else {})

    @staticmethod
    def atom(t):
        return N({((t.uid, 1),): Fr(1)})

    @staticmethod
    def of(x):
        if isinstance(x, N):
            return x
        if isinstance(x, T):
            return N.atom(x)
        if isinstance(x, bool):
            return N.const(int(x))
        if isinstance(x, float):
            return N.const(Fr(repr(x)))
        return N.const(x)

    def __eq__(self, o):
        return isinstance(o, N) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __add__(self, o):
        o = N.of(o)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return N(d)

    def __neg__(self):
        return N({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-N.of(o))

    def scale(self, k):
        k = Fr(k)
        return N({m: c * k for m, c in self.d.items()}) if k else N({})

    def __mul__(self, o):
        o = N.of(o)
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return simp_inv(N(d))

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fr(0))

    def atoms(self):
        s = set()
        for m in self.d:
            for u, _ in m:
                s.add(_BY_UID[u])
        return s

    def as_atom(self):
        """the single atom if this is exactly one atom, else None"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _BY_UID[m[0][0]]
        return None

    def is_int(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return False
            for u, e in m:
                if e < 0 or _BY_UID[u].typ != 'int':
                    return False
        return True

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(repr(_BY_UID[u]) + ('' if e == 1 else '^%d' % e) for u, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return ' + '.join(out).replace('+ -', '- ')


def mmul(a, b):
    d = dict(a)
    for u, e in b:
        v = d.get(u, 0) + e
        if v:
            d[u] = v
        else:
            d.pop(u, None)
    return tuple(sorted(d.items()))


def mdiv(a, b):
    return mmul(a, tuple((u, -e) for u, e in b))


def polydiv_exact(p, q):
    """p / q if exact (p, q polynomials), else None."""
    if q.is_const():
        return p.scale(1 / q.cval()) if q.cval() else None
    key = lambda m: (sum(e for _, e in m), m)
    lm = max(q.d, key=key)
    lc = q.d[lm]
    r = p
    out = N({})
    for _ in range(40):
        if not r.d:
            return out
        m = max(r.d, key=key)
        c = r.d[m]
        dm = mdiv(m, lm)
        if any(e < 0 for _, e in dm):
            return None
        t = N({dm: c / lc})
        out = out + t
        prod = {}
        for m2, c2 in q.d.items():
            prod[mmul(m2, dm)] = c2 * c / lc
        r = r - N(prod)
    return None


def simp_inv(p):
    """cancel inv(q) against multiples of q"""
    invs = [t for t in p.atoms() if t.k == 'inv']
    for t in invs:
        q = t.a[0]
        for _ in range(4):
            hit = {}
            rest = {}
            for m, c in p.d.items():
                if any(u == t.uid for u, e in m):
                    hit[mmul(m, ((t.uid, -1),))] = c
                else:
                    rest[m] = c
            if not hit:
                break
            # group: only the part with exactly this power
            quo = polydiv_exact(N(hit), q)
            if quo is None:
                break
            p = N(rest) + quo
    return p


def inv(q):
    q = N.of(q)
    if q.is_const():
        return N.const(1 / q.cval())
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if all(_BY_UID[u].k != 'inv' for u, _ in m):
            return N({tuple((u, -e) for u, e in m): 1 / c})
        # (k * x * inv(r))^-1 = r / (k*x)
        res = N.const(1 / c)
        for u, e in m:
            t = _BY_UID[u]
            if t.k == 'inv':
                for _ in range(abs(e)):
                    res = res * (t.a[0] if e > 0 else N.atom(t))
            else:
                res = res * N({((u, -e),): Fr(1)})
        return res
    # canonical sign/scale: make leading coefficient 1
    key = lambda m: (sum(e for _, e in m), m)
    lm = max(q.d, key=key)
    lc = q.d[lm]
    qn = q.scale(1 / lc)
    return N.atom(mk('inv', (qn,), 'num')).scale(1 / lc)


def div(a, b):
    return N.of(a) * inv(b)


def eq_rational(a, b):
    """a == b as rational functions (inv atoms cleared)."""
    d = N.of(a) - N.of(b)
    for _ in range(8):
        if not d.d:
            return True
        invs = [t for t in d.atoms() if t.k == 'inv']
        if not invs:
            # clear negative exponents
            mn = {}
            for m in d.d:
                for u, e in m:
                    if e < 0:
                        mn[u] = min(mn.get(u, 0), e)
            if not mn:
                return False
            mul = tuple(sorted((u, -e) for u, e in mn.items()))
            d = N({mmul(m, mul): c for m, c in d.d.items()})
            continue
        # innermost last: clear an inv atom that does not occur inside another
        t = invs[0]
        q = t.a[0]
        K = max((e for m in d.d for u, e in m if u == t.uid), default=0)
        tot = N({})
        for m, c in d.d.items():
            e = dict(m).get(t.uid, 0)
            mm = mmul(m, ((t.uid, -e),)) if e else m
            term = N({mm: c})
            for _ in range(K - e):
                term = _rawmul(term, q)
            tot = tot + term
        d = tot
    return not d.d


def _rawmul(a, b):
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return N(d)


# --------------------------------------------------------------------------- facts

def _norm(p, strict):
    """integer tightening"""
    if p.is_int():
        if strict:
            p = p - 1
            strict = False
        g = 0
        for m, c in p.d.items():
            if m:
                g = gcd(g, abs(c.numerator))
        if g > 1:
            c0 = p.cval()
            d = {m: c / g for m, c in p.d.items() if m}
            f = Fr(c0.numerator // g)
            if f:
                d[()] = f
            p = N(d)
    return p, strict


def _trivial(p, strict):
    if p.is_const():
        v = p.cval()
        return (v > 0) if strict else (v >= 0)
    return None


_sign_stack = []


def close_bounds(cons, limit=60):
    """add intrinsic bounds of all atoms that occur, and signs of non-linear monomials"""
    out = []
    seen = set()
    for c in cons:
        c = _norm(*c)
        if c not in seen:
            seen.add(c)
            out.append(c)
    done = set()
    i = 0
    while i < len(out) and len(out) < 400:
        p, _ = out[i]
        i += 1
        for m in list(p.d):
            if not m or m in done:
                continue
            done.add(m)
            for u, e in m:
                for b in BOUNDS.get(u, ()):
                    b = _norm(*b)
                    if b not in seen:
                        seen.add(b)
                        out.append(b)
                t = _BY_UID[u]
                if t.k == 'inv' and e == 1 and len(m) == 1:
                    q = t.a[0]
                    if (q, True) not in seen:
                        pass
            if len(m) > 1 or m[0][1] != 1:
                s = mono_sign(m, cons)
                if s is not None:
                    mp = N({m: Fr(1)})
                    c = {'+': (mp, True), '0+': (mp, False), '-': (-mp, True), '0-': (-mp, False)}[s]
                    if c not in seen:
                        seen.add(c)
                        out.append(c)
            else:
                t = _BY_UID[m[0][0]]
                if t.k == 'inv' and t not in _sign_stack:
                    _sign_stack.append(t)
                    try:
                        s = quick_sign(t.a[0], cons)
                    finally:
                        _sign_stack.pop()
                    mp = N.atom(t)
                    if s == '+' or s == '0+':
                        c = (mp, True)
                        if c not in seen:
                            seen.add(c)
                            out.append(c)
                    elif s in ('-', '0-'):
                        c = (-mp, True)
                        if c not in seen:
                            seen.add(c)
                            out.append(c)
    return out


def quick_sign(p, cons):
    if p.is_const():
        v = p.cval()
        return '+' if v > 0 else ('-' if v < 0 else '0+')
    lin = [c for c in cons]
    if entails_raw(lin, p, True):
        return '+'
    if entails_raw(lin, -p, True):
        return '-'
    if entails_raw(lin, p, False):
        return '0+'
    if entails_raw(lin, -p, False):
        return '0-'
    return None


_msign = {}


def mono_sign(m, cons):
    key = (m, tuple(cons))
    if key in _msign:
        return _msign[key]
    _msign[key] = None     # cut recursion
    pos = True
    weak = False
    res = 'ok'
    for u, e in m:
        if e % 2 == 0:
            if e > 0:
                weak = True
            continue
        if len(m) == 1 and e == 1:
            res = None
            break
        s = quick_sign(N.atom(_BY_UID[u]), cons)
        if s is None:
            res = None
            break
        if s in ('-', '0-'):
            pos = not pos
        if s in ('0+', '0-') and e > 0:
            weak = True
    if res is not None:
        res = ('0+' if weak else '+') if pos else ('0-' if weak else '-')
    _msign[key] = res
    return res


def infeasible(cons):
    """True if the conjunction is certainly unsatisfiable (over the reals, with integer tightening)"""
    cons = close_bounds(cons)
    work = []
    for p, s in cons:
        t = _trivial(p, s)
        if t is False:
            return True
        if t is None:
            work.append((p, s))
    work = list(dict.fromkeys(work))
    for _ in range(60):
        if not work:
            return False
        cnt = {}
        for p, s in work:
            for m, c in p.d.items():
                if m:
                    a, b = cnt.get(m, (0, 0))
                    cnt[m] = (a + 1, b) if c > 0 else (a, b + 1)
        if not cnt:
            return False
        m = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], x))
        a, b = cnt[m]
        if a * b > 600:
            return False
        P = [x for x in work if x[0].d.get(m, 0) > 0]
        Q = [x for x in work if x[0].d.get(m, 0) < 0]
        new = [x for x in work if m not in x[0].d]
        seen = set(new)
        for p, s in P:
            for q, s2 in Q:
                r = p.scale(1 / p.d[m]) + q.scale(-1 / q.d[m])
                st = s or s2
                lcm = 1
                for c in r.d.values():
                    lcm = lcm * c.denominator // gcd(lcm, c.denominator)
                r = r.scale(lcm)
                g = 0
                for c in r.d.values():
                    g = gcd(g, abs(c.numerator))
                if g > 1:
                    r = r.scale(Fr(1, g))
                c = _norm(r, st)
                t = _trivial(*c)
                if t is False:
                    return True
                if t is None and c not in seen:
                    seen.add(c)
                    new.append(c)
        work = new
        if len(work) > 900:
            return False
    return False


def relevant(cons, goals):
    monos = set()
    for g in goals:
        monos.update(m for m in g.d if m)
    atoms = set(u for m in monos for u, _ in m)
    for u in list(atoms):
        _bound_atoms(u, atoms)
    cons = list(cons)
    out = []
    used = [False] * len(cons)
    changed = True
    while changed:
        changed = False
        for i, (p, s) in enumerate(cons):
            if used[i]:
                continue
            ua = set(u for m in p.d for u, _ in m)
            if ua & atoms:
                used[i] = True
                out.append((p, s))
                for u in ua - atoms:
                    atoms.add(u)
                    _bound_atoms(u, atoms)
                changed = True
    return out


def _bound_atoms(u, acc):
    t = _BY_UID[u]
    if t.k == 'inv':
        for m in t.a[0].d:
            for v, _ in m:
                if v not in acc:
                    acc.add(v)
                    _bound_atoms(v, acc)
    for p, _ in BOUNDS.get(u, ()):
        for m in p.d:
            for v, _ in m:
                if v not in acc:
                    acc.add(v)
                    _bound_atoms(v, acc)


_ent = {}


def entails_raw(cons, p, strict):
    t = _trivial(*_norm(p, strict))
    if t is not None:
        return t
    rel = relevant(cons, [p])
    key = (frozenset(rel), p, strict)
    r = _ent.get(key)
    if r is None:
        _ent[key] = False
        r = infeasible(rel + [(-p, not strict)])
        _ent[key] = r
    return r


def entails(cons, p, strict=False):
    """facts |- p >= 0 (p > 0); tries clearing denominators and dividing out positive content"""
    if entails_raw(cons, p, strict):
        return True
    q = p
    changed = False
    # clear inv atoms of known positive denominators
    for _ in range(4):
        invs = [t for t in q.atoms() if t.k == 'inv']
        if not invs:
            break
        t = invs[0]
        s = quick_sign(t.a[0], cons)
        if s in ('+', '0+'):       # inv(q) is used: q != 0, so positive
            mul, sg = t.a[0], 1
        elif s in ('-', '0-'):
            mul, sg = -t.a[0], 1
        else:
            return False
        K = max((e for m in q.d for u, e in m if u == t.uid), default=0)
        tot = N({})
        for m, c in q.d.items():
            e = dict(m).get(t.uid, 0)
            mm = mmul(m, ((t.uid, -e),)) if e else m
            term = N({mm: c})
            for _ in range(e):
                term = term if s in ('+', '0+') else -term
            for _ in range(K - e):
                term = _rawmul(term, mul)
            tot = tot + term
        q = tot
        changed = True
    if not q.d:
        return not strict
    # divide by monomial content
    common = None
    for m in q.d:
        dm = dict(m)
        common = dm if common is None else {u: min(e, dm[u]) for u, e in common.items() if u in dm}
    # negative exponents
    for m in q.d:
        for u, e in m:
            if e < 0:
                common = dict(common or {})
                common[u] = min(common.get(u, 0), e)
    if common:
        cm = tuple(sorted((u, e) for u, e in common.items() if e))
        if cm:
            s = mono_sign(cm, cons) if (len(cm) > 1 or cm[0][1] != 1) else quick_sign(N.atom(_BY_UID[cm[0][0]]), cons)
            if s in ('+', '0+') and not (strict and s == '0+'):
                q = N({mdiv(m, cm): c for m, c in q.d.items()})
                changed = True
    if changed:
        return entails_raw(cons, q, strict)
    return False


class Facts:
    """Facts of one disjunct.  lin: tuple of (N, strict); lits: dict key -> bool"""
    __slots__ = ('lin', 'lits', 'eqc')

    def __init__(self, lin=(), lits=None, eqc=None):
        self.lin = tuple(lin)
        self.lits = lits or {}
        self.eqc = eqc or {}

    def copy(self):
        return Facts(self.lin, dict(self.lits), dict(self.eqc))

    def add_lin(self, p, strict=False):
        p, strict = _norm(p, strict)
        if (p, strict) not in self.lin and _trivial(p, strict) is not True:
            self.lin = self.lin + ((p, strict),)

    def entails(self, p, strict=False):
        return entails(self.lin, p, strict)

    def consistent_with(self, extra):
        rel = relevant(self.lin, [p for p, _ in extra])
        return not infeasible(list(rel) + list(extra))

    def decide(self, p, strict=False):
        """True / False / None for p >= 0 (p>0)"""
        if self.entails(p, strict):
            return True
        if self.entails(-p, not strict):
            return False
        return None
