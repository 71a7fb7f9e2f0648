"""Operators: arithmetic, comparison, equality, GF(2) bit forms, sequence positions."""
import ast
from .terms import N, T, mk, fresh, set_bounds, Fr, div, sym, eq_rational, _BY_UID
from .values import *

INF = sym('inf', 'num')


# ------------------------------------------------------------------ GF(2) forms
def gf_reduce(st, form):
    """normal form of an affine GF(2) form under the state's constraints (each constraint is a form equal to 0)"""
    for piv, c in st.gf2:
        if piv in form:
            form = form ^ c
    return form


def gf_assume(st, form):
    """form == 0; False if inconsistent"""
    form = gf_reduce(st, form)
    vs = [x for x in form if x != 1]
    if not vs:
        return not form
    piv = min(vs, key=str)
    new = []
    for p, c in st.gf2:
        if piv in c:
            c = c ^ form
        new.append((p, c))
    st.gf2 = tuple(new) + ((piv, form),)
    return True


def gf_num(form):
    """numeric value of a form"""
    if not form:
        return N.const(0)
    if form == frozenset([1]):
        return N.const(1)
    if 1 in form:
        return N.const(1) - gf_num(form - {1})
    t = mk('gf', (form,), 'int')
    set_bounds(t, 0, 1)
    return N.atom(t)


def bitchar(form):
    if not form:
        return K('0')
    if form == frozenset([1]):
        return K('1')
    return mk('bitc', (form,), 'bit')


def bitvar(name):
    return frozenset([name])


def char_form(st, v):
    """GF(2) form of a bit character, or None"""
    if isinstance(v, K) and v.v in ('0', '1'):
        return frozenset() if v.v == '0' else frozenset([1])
    if isinstance(v, T) and v.k == 'bitc':
        return gf_reduce(st, v.a[0])
    return None


def gf_norm(st, p):
    """rewrite gf atoms of a polynomial by the state's constraints"""
    if not st.gf2:
        return p
    m = {}
    for t in p.atoms():
        if t.k == 'gf':
            f = gf_reduce(st, t.a[0])
            if f != t.a[0]:
                m[t] = nv(gf_num(f))
    return subst_n(p, m) if m else p


def to_bits(st, p):
    """forms, least significant first, of an integer polynomial with non-overlapping bits; None if not of that shape"""
    p = gf_norm(st, p)
    c = p.cval()
    if c.denominator != 1:
        return None
    bits = {}
    for m, k in p.d.items():
        if not m:
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        t = _BY_UID[m[0][0]]
        if t.k != 'gf' or k.denominator != 1:
            return None
        kk = int(k)
        aa = abs(kk)
        if aa & (aa - 1):
            return None
        i = aa.bit_length() - 1
        if i in bits:
            return None
        if kk < 0:                       # 2^i * (1 - x)
            bits[i] = t.a[0] ^ frozenset([1])
            c = c + kk
        else:
            bits[i] = t.a[0]
    if c < 0:
        return None
    cc = int(c)
    i = 0
    while cc >> i:
        if (cc >> i) & 1:
            if i in bits:
                return None
            bits[i] = frozenset([1])
        i += 1
    n = max(bits, default=-1) + 1
    return [bits.get(i, frozenset()) for i in range(n)]


def from_bits(forms):
    p = N.const(0)
    for i, f in enumerate(forms):
        p = p + gf_num(f).scale(2 ** i)
    return p


def bits_zero(I, st, forms):
    """case split: all forms zero / not -> [(st, bool)]"""
    forms = [gf_reduce(st, f) for f in forms]
    if any(f == frozenset([1]) for f in forms):
        return [(st, False)]
    if not any(forms):
        return [(st, True)]
    st2 = st.clone()
    ok = all(gf_assume(st, f) for f in forms)
    out = []
    if ok:
        out.append((st, True))
    nz = [f for f in forms if f]
    if len(set(nz)) == 1:
        if gf_assume(st2, nz[0] ^ frozenset([1])):
            out.append((st2, False))
    else:
        out.append((st2, False))
    return out


# ------------------------------------------------------------------ integers
def floor_of(I, st, p):
    p = gf_norm(st, p)
    if p.is_int():
        return nv(p)
    if p.is_const():
        c = p.cval()
        return N.const(c.numerator // c.denominator)
    # pull out the integer part
    ip, rest = {}, {}
    for m, c in p.d.items():
        q = N({m: c})
        if q.is_int():
            ip[m] = c
        elif not m:
            f = c.numerator // c.denominator
            if f:
                ip[m] = Fr(f)
            if c - f:
                rest[m] = c - f
        else:
            rest[m] = c
    r = N(rest)
    t = mk('floor', (r,), 'int')
    q = N.atom(t)
    set_bounds(t, None, r)
    b = BOUNDS.setdefault(t.uid, [])
    e = (q - r + 1, True)
    if e not in b:
        b.append(e)
    return nv(N(ip) + q)


def trunc_of(I, st, p):
    """int(p)"""
    p = gf_norm(st, p)
    if p.is_int():
        return [(st, nv(p))]
    if p.is_const():
        return [(st, N.const(int(p.cval())))]
    out = []
    for s, b in I.split(st, p):
        if b:
            out.append((s, floor_of(I, s, p)))
        else:
            out.append((s, nv(-N.of(floor_of(I, s, -p)))))
    return out


def ceil_of(I, st, p):
    return nv(-N.of(floor_of(I, st, -p)))


def round_of(I, st, p):
    p = gf_norm(st, p)
    if p.is_int():
        return nv(p)
    if p.is_const():
        return N.const(round(p.cval()))
    t = mk('round', (p,), 'int')
    b = BOUNDS.setdefault(t.uid, [])
    for e in ((N.atom(t) - p + N.const(Fr(1, 2)), False), (p - N.atom(t) + N.const(Fr(1, 2)), False)):
        if e not in b:
            b.append(e)
    return t


# ------------------------------------------------------------------ binary operators
def is_float(v):
    return isinstance(v, NF) or (isinstance(v, T) and v.typ in ('float',))


def binop(I, st, op, a, b):
    from . import models as M
    if isinstance(a, Top) or isinstance(b, Top):
        return [(st, Top('arith'))]
    x, y = I.num(a), I.num(b)
    # strings / sequences
    if op is ast.Add:
        if M.is_str(a) and M.is_str(b):
            return [(st, M.str_concat(a, b))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(norm_segs(a.segs + b.segs)))]
        sa, sb = M.list_segs(st, a), M.list_segs(st, b)
        if sa is not None and sb is not None:
            r = I.dunder(st, a, '__add__', [b]) if isinstance(a, Ref) else None
            if r is not None:
                return r
            return [(st, Ref(st.alloc(Obj('list', segs=norm_segs(sa + sb)))))]
    if op is ast.Mult:
        for p, q, z in ((a, b, y), (b, a, x)):
            if z is None:
                continue
            if M.is_str(p):
                if isinstance(p, K) and z.is_const():
                    return [(st, K(p.v * int(z.cval())))]
                return M.str_repeat(I, st, p, z)
            segs = p.segs if isinstance(p, Tup) else M.list_segs(st, p)
            if segs is not None:
                r = M.seq_repeat(I, st, segs, z)
                return [(s, Tup(g) if isinstance(p, Tup) else Ref(s.alloc(Obj('list', segs=g)))) for s, g in r]
    if op is ast.Mod and M.is_str(a):
        return [(st, M.opaque_str('fmt', a, b))]
    if isinstance(a, Ref) or isinstance(b, Ref):
        r = M.set_binop(I, st, op, a, b)
        if r is not None:
            return r
        nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
              ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
              ast.MatMult: 'matmul'}[op]
        if isinstance(a, Ref):
            r = I.dunder(st, a, '__%s__' % nm, [b])
            if r is not None:
                return r
        if isinstance(b, Ref):
            r = I.dunder(st, b, '__r%s__' % nm, [a])
            if r is not None:
                return r
    if x is None or y is None:
        if isinstance(a, (Cls, Ext, K)) and isinstance(b, (Cls, Ext, K)) and op is ast.BitOr:
            return [(st, Ext('typing.Union'))]
        for v in (a, b):
            if isinstance(v, T) and v.typ not in NUMT and v.typ not in ('bit', 'str', 'fn'):
                st.note('arithmetic on opaque value')
                return [(st, Top('arith'))]
        return [(st, Exc('TypeError', I.site, True, ('operand types',)))]
    src = (a, b)
    if op is ast.Add:
        return [(st, I.mkn(x + y, src))]
    if op is ast.Sub:
        return [(st, I.mkn(x - y, src))]
    if op is ast.Mult:
        return [(st, I.mkn(x * y, src))]
    if op is ast.Div:
        y = gf_norm(st, y)
        if y.is_const() and not y.d:
            return [(st, Exc('ZeroDivisionError', I.site, True))]
        r = div(x, y)
        return [(st, NF(r.d) if r.is_const() else nv(r))]
    if op is ast.FloorDiv:
        if y.is_const() and not y.d:
            return [(st, Exc('ZeroDivisionError', I.site, True))]
        if x.is_const() and y.is_const():
            return [(st, I.mkn(N.const((x.cval() / y.cval()).__floor__()), src))]
        bits = to_bits(st, x)
        if bits is not None and y.is_const() and y.cval() > 0 and y.cval().denominator == 1:
            k = int(y.cval())
            if k & (k - 1) == 0:
                return [(st, nv(from_bits(bits[k.bit_length() - 1:])))]
        return [(st, floor_of(I, st, div(x, y)))]
    if op is ast.Mod:
        if y.is_const() and not y.d:
            return [(st, Exc('ZeroDivisionError', I.site, True))]
        if x.is_const() and y.is_const():
            return [(st, I.mkn(N.const(x.cval() % y.cval()), src))]
        bits = to_bits(st, x)
        if bits is not None and y.is_const() and y.cval() > 0 and y.cval().denominator == 1:
            k = int(y.cval())
            if k & (k - 1) == 0:
                return [(st, nv(from_bits(bits[:k.bit_length() - 1])))]
        f = N.of(floor_of(I, st, div(x, y)))
        r = x - y * f
        if st.facts.entails(y, True):
            st.assume(r)
            st.assume(y - r, True)
        return [(st, nv(r))]
    if op is ast.Pow:
        return power(I, st, x, y, src)
    return bitop(I, st, op, x, y)


def power(I, st, x, y, src=()):
    if x.is_const() and y.is_const():
        e, b = y.cval(), x.cval()
        if e.denominator == 1 and abs(e) < 512:
            if b == 0 and e < 0:
                return [(st, Exc('ZeroDivisionError', I.site, True))]
            r = N.const(b ** int(e))
            return [(st, NF(r.d) if e < 0 else I.mkn(r, src))]
    if y.is_const() and y.cval().denominator == 1 and 0 <= y.cval() <= 6:
        r = N.const(1)
        for _ in range(int(y.cval())):
            r = r * x
        return [(st, nv(r))]
    if y.is_const() and y.cval() == -1:
        return [(st, nv(div(N.const(1), x)))]
    integer = x.is_int() and y.is_int() and st.facts.entails(y)
    t = mk('pow', (x, y), 'int' if integer else 'num')
    if x.is_const() and x.cval() == 0 and st.facts.entails(y, True):
        return [(st, N.const(0))]
    if st.facts.entails(x, True):
        st.assume(N.atom(t), True)
        if st.facts.entails(x - 1) and st.facts.entails(y):
            st.assume(N.atom(t) - 1)
    elif st.facts.entails(x):
        st.assume(N.atom(t))
        if st.facts.entails(-x) and st.facts.entails(y, True):
            return [(st, N.const(0))]
    return [(st, t)]


def bitop(I, st, op, x, y):
    if x.is_const() and y.is_const() and x.cval().denominator == 1 and y.cval().denominator == 1:
        a, b = int(x.cval()), int(y.cval())
        try:
            r = {ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b,
                 ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}[op]()
        except (ValueError, KeyError):
            return [(st, Exc('ValueError', I.site, True))]
        return [(st, N.const(r))]
    bx, by = to_bits(st, x), to_bits(st, y)
    if op in (ast.RShift, ast.LShift) and y.is_const():
        k = int(y.cval())
        if bx is not None:
            return [(st, nv(from_bits(bx[k:] if op is ast.RShift else [frozenset()] * k + bx)))]
        if op is ast.LShift:
            return [(st, nv(x.scale(2 ** k)))]
        return [(st, floor_of(I, st, x.scale(Fr(1, 2 ** k))))]
    if op is ast.LShift and x.is_const() and x.cval() == 1:
        return power(I, st, N.const(2), y)
    if bx is not None and by is not None:
        n = max(len(bx), len(by))
        bx = bx + [frozenset()] * (n - len(bx))
        by = by + [frozenset()] * (n - len(by))
        one = frozenset([1])
        out = []
        for p, q in zip(bx, by):
            if op is ast.BitXor:
                out.append(p ^ q)
            elif op is ast.BitAnd and (not p or not q):
                out.append(frozenset())
            elif op is ast.BitAnd and (p == one or q == one or p == q):
                out.append(q if p == one else p)
            elif op is ast.BitOr and (not p or not q or p == q):
                out.append(p or q)
            elif op is ast.BitOr and (p == one or q == one):
                out.append(one)
            else:
                out = None
                break
        if out is not None:
            return [(st, nv(from_bits(out)))]
    st.note('bit operation on symbolic integers')
    return [(st, Top('bitop'))]


# ------------------------------------------------------------------ equality
def find(st, x):
    e = st.facts.eqc
    while x in e:
        x = e[x]
    return x


def opq_eq(I, st, a, b):
    """equality of opaque terms / constants by union-find"""
    ra, rb = find(st, a), find(st, b)
    if ra == rb:
        return [(st, True)]
    if isinstance(ra, K) and isinstance(rb, K):
        return [(st, False)]
    pair = frozenset([ra, rb])
    for key in st.facts.lits:
        if key[0] == 'ne':
            p, q = key[1]
            if frozenset([find(st, p), find(st, q)]) == pair:
                return [(st, False)]
    st2 = st.clone()
    out = []
    if opq_union(st, ra, rb):
        out.append((st, True))
    opq_ne(st2, ra, rb)
    out.append((st2, False))
    return out


def opq_union(st, ra, rb):
    ra, rb = find(st, ra), find(st, rb)
    if ra == rb:
        return True
    if isinstance(ra, K):
        ra, rb = rb, ra
    if isinstance(ra, K):
        return False
    st.facts.eqc[ra] = rb
    for key in st.facts.lits:
        if key[0] == 'ne':
            p, q = key[1]
            if find(st, p) == find(st, q):
                return False
    return True


def opq_ne(st, a, b):
    a, b = find(st, a), find(st, b)
    key = ('ne', (a, b) if hash(a) <= hash(b) else (b, a))
    st.set_lit(key, True)


def num_eq(I, st, p):
    p = gf_norm(st, p)
    bits = None
    if any(t.k == 'gf' for t in p.atoms()):
        for q in (p, -p):
            bits = to_bits(st, q)
            if bits is not None:
                return bits_zero(I, st, bits)
    return I.split_eq(st, p)


def eq(I, st, a, b):
    """-> [(st, bool | Exc)]"""
    from . import models as M
    if isinstance(a, Top) or isinstance(b, Top):
        st.note('comparison of unknown values')
        return [(st.clone(), True), (st, False)]
    a, b = I.plain(st, a), I.plain(st, b)
    if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
        p, q = st.get(a.key), st.get(b.key)
        if p is not None and q is not None and p.kind == q.kind == 'inst' and p.cls == q.cls:
            ci = next((c.info for c in p.cls.info.mro if c.info is not None and c.info.dc is not None), p.cls.info)
            if ci.dc is not None and ci.dceq and I.class_lookup(st, ci.mro, '__eq__')[0] is None:
                f, g = st.get(p.ns).fields, st.get(q.ns).fields
                return eq(I, st, Tup.of(*[f.get(n[0], K(None)) for n in ci.dc]), Tup.of(*[g.get(n[0], K(None)) for n in ci.dc]))
    x, y = I.num(a), I.num(b)
    if x is not None and y is not None:
        # opaque 'any' values are compared as opaque unless arithmetic is involved
        ta, tb = (a if isinstance(a, T) else None), (b if isinstance(b, T) else None)
        if (ta is not None and ta.typ == 'any') or (tb is not None and tb.typ == 'any'):
            if (ta is not None or x.is_const()) and (tb is not None or y.is_const()):
                if ta is not None and ta.typ == 'any' and tb is not None and tb.typ == 'any':
                    return opq_eq(I, st, a, b)
                if not (ta is not None and tb is not None):
                    return opq_eq(I, st, a if ta is not None else K(('num', x.cval())), b if tb is not None else K(('num', y.cval())))
        if INF in (x - y).atoms():
            return [(st, x == y)]
        return num_eq(I, st, x - y)
    for p, q in ((a, b), (b, a)):
        if isinstance(p, T) and p.typ == 'bit':
            if M.is_str(q) or (isinstance(q, T) and q.typ == 'bit'):
                f, g = char_form(st, p), char_form(st, q)
                if f is not None and g is not None:
                    return bits_zero(I, st, [f ^ g])
                if isinstance(q, K):
                    return [(st, False)]
            elif isinstance(q, (K, N, Tup, Ref)):
                return [(st, False)]
    if isinstance(a, K) and isinstance(b, K):
        return [(st, a.v == b.v)]
    if M.is_str(a) and M.is_str(b):
        return M.str_eq(I, st, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return segs_eq(I, st, a.segs, b.segs)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.key == b.key:
            return [(st, True)]
        r = I.dunder(st, a, '__eq__', [b])
        if r is not None:
            return I.truth_of(r)
        oa, ob = st.get(a.key), st.get(b.key)
        if oa is None or ob is None:
            st.note('comparison of unknown objects')
            return [(st.clone(), True), (st, False)]
        if oa.kind == 'set' and ob.kind == 'set':
            return M.set_eq(I, st, oa, ob)
        if oa.segs is not None and ob.segs is not None:
            return segs_eq(I, st, oa.segs, ob.segs)
        if oa.kind in ('dict', 'ns') and ob.kind in ('dict', 'ns'):
            return dict_eq(I, st, a, b)
        return [(st, False)]
    if isinstance(a, Ref) or isinstance(b, Ref):
        r, o = (a, b) if isinstance(a, Ref) else (b, a)
        d = I.dunder(st, r, '__eq__', [o])
        if d is not None:
            return I.truth_of(d)
        if isinstance(o, T) and o.typ in ('any', 'obj', 'val'):
            return opq_eq(I, st, o, mk('objid', (r.key,)))
        return [(st, False)]
    ta, tb = isinstance(a, T), isinstance(b, T)
    if ta or tb:
        if ta and tb and a is b:
            return [(st, True)]
        t, o = (a, b) if ta else (b, a)
        if isinstance(o, K) and o.v is None and t.typ in ('int', 'num', 'float', 'nn', 'str', 'bit', 'fn', 'obj', 'bool'):
            return [(st, False)]
        if t.typ in ('int', 'num', 'float', 'nn') and isinstance(o, (K, Tup, Cls, Fn, Ext)):
            return [(st, False)]
        if isinstance(o, (T, K)):
            return opq_eq(I, st, t, o)
        if isinstance(o, N) and o.is_const():
            return opq_eq(I, st, t, K(('num', o.cval())))
        if isinstance(o, (Cls, Fn, Ext, Bound)):
            return [(st, False)]
        if isinstance(o, Tup) and t.typ == 'any':
            return I.split_lit(st, ('eqt', t, o))
        st.note('comparison of opaque values')
        return [(st.clone(), True), (st, False)]
    if type(a) is not type(b):
        return [(st, False)]
    try:
        return [(st, a == b)]
    except Exception:
        return [(st, a is b)]


def segs_eq(I, st, p, q):
    p, q = norm_segs(p), norm_segs(q)
    if p == q:
        return [(st, True)]
    lp, lq = segs_len(p), segs_len(q)
    out = []
    for s, b in num_eq(I, st, lp - lq):
        if not b:
            out.append((s, False))
            continue
        if len(p) == len(q) and all(isinstance(x, One) and isinstance(y, One) for x, y in zip(p, q)):
            out.extend(list_eq(I, s, [x.v for x in p], [y.v for y in q]))
        elif len(p) == 1 and len(q) == 1 and isinstance(p[0], Sl) and isinstance(q[0], Sl):
            ta = mk('seq', (p[0].base, p[0].a, p[0].b, p[0].rev))
            tb = mk('seq', (q[0].base, q[0].a, q[0].b, q[0].rev))
            out.extend(opq_eq(I, s, ta, tb))
        else:
            # common prefix / suffix stripping
            i = 0
            while i < len(p) and i < len(q) and p[i] == q[i]:
                i += 1
            pp, qq = p[i:], q[i:]
            while pp and qq and pp[-1] == qq[-1]:
                pp, qq = pp[:-1], qq[:-1]
            if not pp and not qq:
                out.append((s, True))
            else:
                out.extend(opq_eq(I, s, mk('seqs', (tuple(pp),)), mk('seqs', (tuple(qq),))))
    return out


def list_eq(I, st, p, q):
    states = [(st, True)]
    for x, y in zip(p, q):
        nxt = []
        for s, b in states:
            if b is not True:
                nxt.append((s, b))
            else:
                nxt.extend(eq(I, s, x, y))
        states = nxt
    return states


def dict_eq(I, st, a, b):
    from . import models as M
    fa, fb = M.dict_fields(I, st, a), M.dict_fields(I, st, b)
    if fa is None or fb is None:
        st.note('dict comparison')
        return [(st.clone(), True), (st, False)]
    if set(fa) != set(fb):
        return [(st, False)]
    ks = list(fa)
    return list_eq(I, st, [fa[k] for k in ks], [fb[k] for k in ks])


def identical(I, st, a, b):
    """True / False / None (unknown)"""
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.key == b.key
    if isinstance(a, K) and isinstance(b, K):
        if a == b:
            return True
        return False
    if isinstance(a, Cls) or isinstance(b, Cls):
        return a == b
    if isinstance(a, (Fn, Bound, Ext, Mod)) or isinstance(b, (Fn, Bound, Ext, Mod)):
        return a == b
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, T) and isinstance(b, T) and a is b:
        return True
    ta, tb = isinstance(a, T), isinstance(b, T)
    if ta or tb:
        t, o = (a, b) if ta else (b, a)
        if isinstance(o, K) and o.v is None or isinstance(o, K) and isinstance(o.v, bool):
            if t.typ in ('any', 'obj?'):
                return 'eq'
            return False
        if isinstance(o, T) and t.typ in ('any',) and o.typ in ('any',):
            return 'eq'
        if isinstance(o, (Ref, Tup)):
            return False
        return 'eq' if isinstance(o, (T, N)) else False
    if isinstance(a, N) and isinstance(b, N):
        if a == b and a.is_const() and not -5 <= a.d.get((), 0) <= 256:
            return False        # only small integers are shared objects
        return 'eq'
    if isinstance(a, Tup) and isinstance(b, Tup):
        return a == b
    return False


CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


def kb(res):
    return [(s, b if isinstance(b, Exc) else K(bool(b))) for s, b in res]


def neg(res):
    return [(s, b if isinstance(b, Exc) else (not b)) for s, b in res]


def compare(I, st, op, a, b):
    from . import models as M
    if op is ast.Is or op is ast.IsNot:
        r = identical(I, st, a, b)
        if r is None:
            st.note('identity of unknown values')
            return [(st.clone(), TRUE), (st, FALSE)]
        res = eq(I, st, a, b) if r == 'eq' else [(st, r)]
        return kb(neg(res) if op is ast.IsNot else res)
    if op is ast.Eq:
        return kb(eq(I, st, a, b))
    if op is ast.NotEq:
        if isinstance(a, Ref):
            r = I.dunder(st, a, '__ne__', [b])
            if r is not None:
                return kb(I.truth_of(r))
        return kb(neg(eq(I, st, a, b)))
    if op is ast.In or op is ast.NotIn:
        r = M.contains(I, st, b, a)
        return kb(neg(r) if op is ast.NotIn else r)
    return kb(order(I, st, CMP[op], a, b))


def order(I, st, o, a, b):
    """-> [(st, bool|Exc)]"""
    if isinstance(a, Top) or isinstance(b, Top):
        st.note('ordering of unknown values')
        return [(st.clone(), True), (st, False)]
    x, y = I.num(a), I.num(b)
    if x is not None and y is not None:
        p = gf_norm(st, x - y)
        ic = p.d.get(((INF.uid, 1),))
        if ic:
            return [(st, (ic > 0) == (o in ('>', '>=')))]
        if any(t.k == 'gf' for t in p.atoms()):
            r = gf_order(I, st, o, p)
            if r is not None:
                return r
        if o == '<':
            return I.split(st, -p, True)
        if o == '<=':
            return I.split(st, -p)
        if o == '>':
            return I.split(st, p, True)
        return I.split(st, p)
    if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
        return [(st, {'<': a.v < b.v, '<=': a.v <= b.v, '>': a.v > b.v, '>=': a.v >= b.v}[o])]
    if isinstance(a, Tup) and isinstance(b, Tup):
        return lex_order(I, st, o, a.items(), b.items())
    if isinstance(a, Ref) and isinstance(b, Ref):
        nm = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o]
        r = I.dunder(st, a, nm, [b])
        if r is not None:
            return I.truth_of(r)
        oa, ob = st.get(a.key), st.get(b.key)
        if oa is not None and ob is not None:
            if oa.kind == 'set' and ob.kind == 'set':
                st.note('set ordering')
                return [(st.clone(), True), (st, False)]
            if oa.segs is not None and ob.segs is not None:
                if all(isinstance(s, One) for s in oa.segs + ob.segs):
                    return lex_order(I, st, o, [s.v for s in oa.segs], [s.v for s in ob.segs])
                st.note('ordering of symbolic lists')
                return [(st.clone(), True), (st, False)]
        return [(st, Exc('TypeError', I.site, True, ('ordering',)))]
    for v in (a, b):
        if isinstance(v, T) and v.typ in ('any', 'obj', 'val'):
            return I.split_lit(st, ('ord', o, a, b))
        if isinstance(v, (T, StrV)) and (isinstance(v, StrV) or v.typ in ('str', 'bit')):
            return I.split_lit(st, ('ord', o, a, b))
    return [(st, Exc('TypeError', I.site, True, ('ordering',)))]


def gf_order(I, st, o, p):
    """orderings of bit sums against small constants"""
    # p = bits - c
    c = -p.cval()
    q = p + c
    sign = 1
    bits = to_bits(st, q)
    if bits is None:
        bits = to_bits(st, -q)
        sign = -1
        if bits is None:
            return None
        c = -c
        o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o]
    # now: bits o c
    if o == '<':
        o, c, ng = '>=', c, True
    elif o == '<=':
        o, c, ng = '>', c, True
    else:
        ng = False
    if o == '>':
        # integers: bits > c  <=>  bits >= floor(c)+1
        c = Fr(c.__floor__() + 1)
        o = '>='
    else:
        c = Fr(c.__ceil__())
    if c <= 0:
        return [(st, not ng)]
    if c == 1:
        r = [(s, not z) for s, z in bits_zero(I, st, bits)]
    elif c > 2 ** len(bits) - 1:
        r = [(st, False)]
    elif int(c) & (int(c) - 1) == 0:
        k = int(c).bit_length() - 1
        r = [(s, not z) for s, z in bits_zero(I, st, bits[k:])]
    else:
        return None
    return [(s, (not b) if ng else b) for s, b in r]


def gf_equal(I, st, p):
    """bit sum == constant, as a case split on the bits"""
    for q in (p, -p):
        c = -q.cval()
        bits = to_bits(st, q + c)
        if bits is None:
            continue
        if c.denominator != 1 or c < 0 or c >= 2 ** len(bits):
            return [(st, False)]
        c = int(c)
        one = frozenset([1])
        return bits_zero(I, st, [f ^ one if (c >> i) & 1 else f for i, f in enumerate(bits)])
    return None


def lex_order(I, st, o, p, q):
    if p is None or q is None:
        st.note('ordering of symbolic tuples')
        return [(st.clone(), True), (st, False)]

    def go(st, i):
        if i >= len(p) or i >= len(q):
            return [(st, {'<': len(p) < len(q), '<=': len(p) <= len(q), '>': len(p) > len(q), '>=': len(p) >= len(q)}[o])]
        out = []
        for s, e in eq(I, st, p[i], q[i]):
            if isinstance(e, Exc):
                out.append((s, e))
            elif e:
                out.extend(go(s, i + 1))
            else:
                out.extend(order(I, s, o[0], p[i], q[i]))
        return out
    return go(st, 0)
