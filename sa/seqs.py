"""Sequences: positions, slices, iteration, sets, dicts, strings."""
import ast
from .terms import N, T, mk, fresh, set_bounds, Fr, sym
from .values import *
from . import ops
from .ops import INF


def list_segs(st, v):
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is not None and o.segs is not None and o.kind in ('list', 'inst'):
            return o.segs
    return None


def any_segs(st, v):
    if isinstance(v, Tup):
        return v.segs
    if isinstance(v, StrV):
        return v.segs
    if isinstance(v, K) and isinstance(v.v, str):
        return tuple(One(K(c)) for c in v.v)
    if isinstance(v, T) and v.typ == 'bit':
        return (One(v),)
    return list_segs(st, v)


def is_str(v):
    return isinstance(v, StrV) or (isinstance(v, K) and isinstance(v.v, str)) or (isinstance(v, T) and v.typ in ('str', 'bit'))


def opaque_str(kind, *args):
    return mk('str_' + kind, tuple(args), 'str')


def str_segs(v):
    if isinstance(v, K):
        return tuple(One(K(c)) for c in v.v)
    if isinstance(v, StrV):
        return v.segs
    if isinstance(v, T) and v.typ == 'bit':
        return (One(v),)
    return None


def mkstr(segs):
    segs = norm_segs(segs)
    if all(isinstance(s, One) and isinstance(s.v, K) and isinstance(s.v.v, str) for s in segs):
        return K(''.join(s.v.v for s in segs))
    if len(segs) == 1 and isinstance(segs[0], One) and isinstance(segs[0].v, T) and segs[0].v.typ == 'bit':
        return segs[0].v
    return StrV(segs)


def str_concat(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v + b.v)
    x, y = str_segs(a), str_segs(b)
    if x is None or y is None:
        if isinstance(a, K) and a.v == '':
            return b
        if isinstance(b, K) and b.v == '':
            return a
        return opaque_str('cat', a, b)
    return mkstr(x + y)


def str_repeat(I, st, p, z):
    x = str_segs(p)
    if x is None:
        return [(st, opaque_str('rep', p, z))]
    return [(s, mkstr(g)) for s, g in seq_repeat(I, st, x, z)]


def str_eq(I, st, a, b):
    x, y = str_segs(a), str_segs(b)
    if x is None or y is None:
        if isinstance(a, T) and isinstance(b, T) and a is b:
            return [(st, True)]
        return ops.opq_eq(I, st, a, b)
    return ops.segs_eq(I, st, x, y)


def seq_repeat(I, st, segs, z):
    z = ops.gf_norm(st, z)
    if z.is_const():
        n = max(0, int(z.cval()))
        if n * max(1, len(segs)) > 4096:
            st.note('huge repetition')
            return [(st, ())]
        return [(st, norm_segs(tuple(segs) * n))]
    if len(segs) == 1 and isinstance(segs[0], One):
        v = segs[0].v
        out = []
        for s, b in I.split(st, z):
            if b:
                base = mkbase(('const', v), INF if False else z, elem_fn=lambda i, v=v: v)
                out.append((s, (Sl(base, 0, z),)))
            else:
                out.append((s, ()))
        return out
    st.note('symbolic repetition')
    return [(st, ())]


# ------------------------------------------------------------------ positions
def seq_at(I, st, segs, idx):
    """-> [(st, value | Exc)] python index semantics"""
    idx = ops.gf_norm(st, N.of(idx))
    ln = segs_len(segs)
    if idx.is_const() and all(isinstance(s, One) for s in segs):
        i, n = int(idx.cval()), len(segs)
        if -n <= i < n:
            return [(st, segs[i].v)]
        return [(st, Exc('IndexError', I.site, True))]
    out = []
    for s, nonneg in I.split(st, idx):
        i = idx if nonneg else idx + ln
        if nonneg:
            inside = I.split(s, ln - i - 1)
        else:
            inside = I.split(s, i)
        for s2, ok in inside:
            if not ok:
                out.append((s2, Exc('IndexError', I.site, True, 'maybe')))
            else:
                out.extend(_locate(I, s2, segs, i))
    return out


def _locate(I, st, segs, i):
    out = []
    off = N.const(0)
    cur = [st]
    for k, g in enumerate(segs):
        L = seg_len(g)
        nxt = []
        for s in cur:
            if k == len(segs) - 1:
                inside = [(s, True)]
            else:
                inside = I.split(s, off + L - i - 1)
            for s2, b in inside:
                if b:
                    out.append((s2, _seg_at(I, s2, g, i - off)))
                else:
                    nxt.append(s2)
        cur = nxt
        off = off + L
        if not cur:
            break
    return out


def _seg_at(I, st, g, j):
    if isinstance(g, One):
        return g.v
    if isinstance(g, Sl):
        return g.at(j)
    st.note('element of an unbounded repetition')
    return Top('rep element')


def cut(I, st, segs, pos):
    """split the sequence at 0 <= pos <= len -> [(st, left, right)]"""
    pos = N.of(pos)
    off = N.const(0)
    work = [(st, 0, off)]
    out = []
    for k, g in enumerate(segs):
        L = seg_len(g)
        nxt = []
        for s, _, off in work:
            for s2, whole in I.split(s, pos - off - L):
                if whole:
                    nxt.append((s2, 0, off + L))
                else:
                    if isinstance(g, One):
                        out.append((s2, tuple(segs[:k]), tuple(segs[k:])))
                    elif isinstance(g, Sl):
                        p = pos - off
                        if g.rev:
                            l, r = Sl(g.base, g.b - p, g.b, True), Sl(g.base, g.a, g.b - p, True)
                        else:
                            l, r = Sl(g.base, g.a, g.a + p), Sl(g.base, g.a + p, g.b)
                        out.append((s2, norm_segs(tuple(segs[:k]) + (l,)), norm_segs((r,) + tuple(segs[k + 1:]))))
                    else:
                        s2.note('cut inside an unbounded repetition')
                        out.append((s2, tuple(segs[:k]), tuple(segs[k:])))
        work = nxt
        if not work:
            break
    for s, _, _ in work:
        out.append((s, tuple(segs), ()))
    return out


def clamp(I, st, v, ln, default):
    """slice bound -> [(st, N)] in [0, ln]"""
    if v is None or (isinstance(v, K) and v.v is None):
        return [(st, default)]
    p = I.num(v)
    if p is None:
        return [(st, Exc('TypeError', I.site, True))]
    out = []
    for s, nn in I.split(st, p):
        q = p if nn else p + ln
        if nn:
            for s2, over in I.split(s, q - ln):
                out.append((s2, ln if over else q))
        else:
            for s2, neg in I.split(s, -q):
                out.append((s2, N.const(0) if neg else q))
    return out


def seq_slice(I, st, segs, sl):
    """-> [(st, segs | Exc)]"""
    segs = norm_segs(segs)
    step = I.num(sl.c) if sl.c is not None and not (isinstance(sl.c, K) and sl.c.v is None) else N.const(1)
    ln = segs_len(segs)
    if step is None or not step.is_const():
        st.note('symbolic slice step')
        return [(st, ())]
    c = int(step.cval())
    if c == 1:
        out = []
        for s, lo in clamp(I, st, sl.a, ln, N.const(0)):
            if isinstance(lo, Exc):
                out.append((s, lo))
                continue
            for s2, hi in clamp(I, s, sl.b, ln, ln):
                if isinstance(hi, Exc):
                    out.append((s2, hi))
                    continue
                for s3, empty in I.split(s2, lo - hi):
                    if empty:
                        out.append((s3, ()))
                        continue
                    for s4, left, _ in cut(I, s3, segs, hi):
                        for s5, _, mid in cut(I, s4, left, lo):
                            out.append((s5, norm_segs(mid)))
        return out
    if all(isinstance(s, One) for s in segs):
        a = sl.a if sl.a is not None and not isinstance(sl.a, K) else None
        b = sl.b if sl.b is not None and not isinstance(sl.b, K) else None
        a, b = (I.num(x) if x is not None else None for x in (a, b))
        if all(x is None or x.is_const() for x in (a, b)):
            return [(st, tuple(list(segs)[slice(None if a is None else int(a.cval()), None if b is None else int(b.cval()), c)]))]
    if c == -1 and (sl.a is None or isinstance(sl.a, K)) and (sl.b is None or isinstance(sl.b, K)):
        return [(st, reverse_segs(st, segs))]
    st.note('strided slice')
    return [(st, ())]


def reverse_segs(st, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, One):
            out.append(s)
        elif isinstance(s, Sl):
            out.append(Sl(s.base, s.a, s.b, not s.rev))
        else:
            st.note('reversal of an unbounded repetition')
            out.append(s)
    return norm_segs(out)


# ------------------------------------------------------------------ dictionaries
def hkey(I, st, k):
    if isinstance(k, NF):
        return N(k.d)
    if isinstance(k, K) and isinstance(k.v, bool):
        return N.const(int(k.v))
    return k


def dict_fields(I, st, d):
    if isinstance(d, Ref):
        o = st.get(d.key)
        if o is None:
            return None
        if o.kind == 'ns':
            return {K(k): v for k, v in o.fields.items()}
        if o.kind == 'dict':
            if o.lazy is not None:
                fam, t = o.lazy
                for k in fam.keys:
                    lazy_get(st, d.key, k)
                o = st.get(d.key)
            return dict(o.fields)
        if o.kind == 'inst' and o.cls.info.dictlike:
            return dict(o.fields)
    return None


def lazy_get(st, key, k):
    o = st.get(key)
    if k in o.fields:
        return o.fields[k]
    fam, t = o.lazy
    f = fam.keys.get(k)
    if f is None:
        return None
    v = f(st, t)
    o = st.mut(key)
    o.fields[k] = v
    return v


def dict_get(I, st, key, k):
    """-> [(st, value | None)] None = missing"""
    o = st.get(key)
    if o.kind == 'ns':
        kk = k.v if isinstance(k, K) else None
        return [(st, o.fields.get(kk))]
    k = hkey(I, st, k)
    if k in o.fields:
        return [(st, o.fields[k])]
    if o.lazy is not None and isinstance(k, K):
        return [(st, lazy_get(st, key, k))]
    if isinstance(k, K) and all(isinstance(x, (K, N)) for x in o.fields):
        return [(st, None)]
    # opaque key: compare with the known keys
    out = []
    cur = [st]
    for x, v in list(o.fields.items()):
        nxt = []
        for s in cur:
            for s2, b in I.eq(s, k, x):
                if isinstance(b, Exc):
                    continue
                (out.append((s2, v)) if b else nxt.append(s2))
        cur = nxt
    return out + [(s, None) for s in cur]


def dict_set(I, st, key, k, v, what=None):
    k = hkey(I, st, k)
    o = st.get(key)
    if o.kind == 'ns':
        I.write_field(st, key, k.v if isinstance(k, K) else k, v)
        return [(st, NONE)]
    if k in o.fields or (isinstance(k, (K,)) and all(isinstance(x, (K, N)) for x in o.fields)) or not o.fields \
            or (isinstance(k, N) and k.is_const() and all(isinstance(x, K) or (isinstance(x, N) and x.is_const()) for x in o.fields)):
        I.write_field(st, key, k, v)
        return [(st, NONE)]
    out = []
    cur = [st]
    for x in list(o.fields):
        nxt = []
        for s in cur:
            for s2, b in I.eq(s, k, x):
                if b is True:
                    I.write_field(s2, key, x, v)
                    out.append((s2, NONE))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        I.write_field(s, key, k, v)
        out.append((s, NONE))
    return out


def make_dict(I, st, segs):
    """segments of key/value pairs -> dict"""
    vals = [s.v for s in segs] if all(isinstance(s, One) for s in segs) else None
    d = Ref(st.alloc(Obj('dict', fields={})))
    if vals is None:
        st.note('dict of symbolic size')
        return [(st, d)]
    cur = [(st, NONE)]
    for kv in vals:
        nxt = []
        for s, _ in cur:
            for s2, segs2 in collect(I, s, kv):
                if isinstance(segs2, Exc) or len(segs2) != 2:
                    s2.note('dict from odd pairs')
                    nxt.append((s2, NONE))
                    continue
                nxt.extend(dict_set(I, s2, d.key, segs2[0].v, segs2[1].v))
        cur = nxt
    return [(s, d) for s, _ in cur]


# ------------------------------------------------------------------ sets
def make_set(I, st, segs, frozen=False):
    r = Ref(st.alloc(Obj('set', segs=(), info={'frozen': frozen})))
    return [(s, e if isinstance(e, Exc) else r) for s, e in set_add(I, st, r.key, segs, True)]


def set_add(I, st, key, segs, init=False):
    segs = norm_segs(segs)
    if not all(isinstance(s, One) for s in segs):
        if init:
            st.mut(key).segs = segs
            o = st.mut(key)
            o.info = dict(o.info or {}, symbolic=True)
            return [(st, NONE)]
        st.note('set of symbolic size')
        return [(st, NONE)]
    cur = [(st, NONE)]
    for g in segs:
        nxt = []
        for s, e in cur:
            if isinstance(e, Exc):
                nxt.append((s, e))
                continue
            v = g.v
            if isinstance(v, Ref):
                o = s.get(v.key)
                if o is not None and (o.kind in ('list', 'dict') or (o.kind == 'set' and not (o.info or {}).get('frozen'))):
                    nxt.append((s, Exc('TypeError', I.site, True, ('unhashable',))))
                    continue
            for s2, b in seg_contains(I, s, s.get(key).segs, v):
                if not b:
                    o = s2.mut(key)
                    o.segs = o.segs + (One(v),)
                nxt.append((s2, NONE))
        cur = nxt
    return cur


def seg_contains(I, st, segs, v):
    """-> [(st, bool)]"""
    out = []
    cur = [st]
    for g in segs:
        nxt = []
        for s in cur:
            if isinstance(g, One):
                for s2, b in I.eq(s, v, g.v):
                    if isinstance(b, Exc):
                        s2.note('comparison raised')
                        b = False
                    (out.append((s2, True)) if b else nxt.append(s2))
            else:
                for s2, b in sym_contains(I, s, g, v):
                    (out.append((s2, True)) if b else nxt.append(s2))
        cur = nxt
    return out + [(s, False) for s in cur]


def sym_contains(I, st, g, v):
    if isinstance(g, Sl):
        m = g.base.meta
        if 'range' in m:
            a, c = m['range']
            p = I.num(v)
            if p is not None and c == N.const(1):
                lo, hi = a + g.a, a + g.b
                r = []
                for s, b in I.split(st, p - lo):
                    if not b:
                        r.append((s, False))
                    else:
                        r.extend(I.split(s, hi - p - 1))
                return r
        if isinstance(v, T) and v.k == 'elem' and v.a[0] is g.base:
            i = v.a[1]
            r = []
            for s, b in I.split(st, i - g.a):
                if not b:
                    r.append((s, False))
                else:
                    r.extend(I.split(s, g.b - i - 1))
            # membership at another position is impossible only if the base has distinct elements
            if m.get('distinct'):
                return r
            return [(s, b) for s, b in r if b] + [x for s, b in r if not b for x in I.split_lit(s, ('in', v, g))]
        d = st.facts.decide(g.b - g.a - 1)
        if d is False:
            return [(st, False)]
        return I.split_lit(st, ('in', v, g))
    st.note('membership in an unbounded repetition')
    return [(st.clone(), True), (st, False)]


def contains(I, st, cont, v):
    if isinstance(cont, Top):
        st.note('membership in unknown')
        return [(st.clone(), True), (st, False)]
    if is_str(cont):
        if isinstance(cont, K) and isinstance(v, K) and isinstance(v.v, str):
            return [(st, v.v in cont.v)]
        if isinstance(cont, K) and isinstance(v, T) and v.typ == 'bit':
            return seg_contains(I, st, str_segs(cont), v)
        if not is_str(v):
            return [(st, Exc('TypeError', I.site, True))]
        return I.split_lit(st, ('instr', v, cont))
    if isinstance(cont, Tup):
        return seg_contains(I, st, cont.segs, v)
    if isinstance(cont, IterV):
        if cont.tag and cont.tag[0] in ('keys',):
            return contains(I, st, Ref(cont.tag[1]), v)
        return [x for s, segs in collect(I, st, cont) for x in ([(s, segs)] if isinstance(segs, Exc) else seg_contains(I, s, segs, v))]
    if isinstance(cont, Ref):
        o = st.get(cont.key)
        if o is None:
            st.note('membership in unknown object')
            return [(st.clone(), True), (st, False)]
        r = I.dunder(st, cont, '__contains__', [v])
        if r is not None:
            return I.truth_of(r)
        if o.kind in ('dict', 'ns') or (o.kind == 'inst' and o.segs is None and o.cls.info.dictlike):
            return [(s, x is not None) for s, x in dict_get(I, st, cont.key, v)]
        if o.segs is not None:
            return seg_contains(I, st, o.segs, v)
        if o.kind == 'iter':
            return [x for s, segs in collect(I, st, cont) for x in ([(s, segs)] if isinstance(segs, Exc) else seg_contains(I, s, segs, v))]
    if isinstance(cont, (K, N)):
        return [(st, Exc('TypeError', I.site, True))]
    if isinstance(cont, T):
        return I.split_lit(st, ('in', v, cont))
    st.note('membership in %s' % type(cont).__name__)
    return [(st.clone(), True), (st, False)]


def set_eq(I, st, a, b):
    def sub(st, p, q):
        cur = [(st, True)]
        for g in p:
            nxt = []
            for s, ok in cur:
                if not ok:
                    nxt.append((s, ok))
                elif isinstance(g, One):
                    nxt.extend(seg_contains(I, s, q, g.v))
                else:
                    s.note('symbolic set comparison')
                    nxt.append((s, True))
            cur = nxt
        return cur
    out = []
    for s, ok in sub(st, a.segs, b.segs):
        out.extend(sub(s, b.segs, a.segs) if ok else [(s, False)])
    return out


def set_binop(I, st, op, a, b):
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return None
    oa, ob = st.get(a.key), st.get(b.key)
    if oa is None or ob is None:
        return None
    if oa.kind == 'dict' and ob.kind == 'dict' and op is ast.BitOr:
        f = dict_fields(I, st, a)
        f.update(dict_fields(I, st, b))
        return [(st, Ref(st.alloc(Obj('dict', fields=f))))]
    if oa.kind != 'set' or ob.kind != 'set':
        return None
    if op is ast.BitOr:
        r = Ref(st.alloc(Obj('set', segs=oa.segs, info={'frozen': False})))
        return [(s, r) for s, _ in set_add(I, st, r.key, ob.segs)]
    if op in (ast.Sub, ast.BitAnd):
        want = op is ast.BitAnd
        cur = [(st, ())]
        for g in oa.segs:
            nxt = []
            for s, acc in cur:
                if not isinstance(g, One):
                    s.note('symbolic set operation')
                    nxt.append((s, acc))
                    continue
                for s2, c in seg_contains(I, s, ob.segs, g.v):
                    nxt.append((s2, acc + ((g,) if c == want else ())))
            cur = nxt
        return [(s, Ref(s.alloc(Obj('set', segs=acc, info={'frozen': False})))) for s, acc in cur]
    if op is ast.BitXor:
        out = []
        for s, p in set_binop(I, st, ast.Sub, a, b):
            for s2, q in set_binop(I, s, ast.Sub, b, a):
                out.extend(set_binop(I, s2, ast.BitOr, p, q))
        return out
    return None


# ------------------------------------------------------------------ iteration
SYM = object()
STOP = object()


def range_iter(I, st, a, b, c):
    a, b, c = (ops.gf_norm(st, x) for x in (a, b, c))
    if a.is_const() and b.is_const() and c.is_const():
        if c.cval() == 0:
            return [(st, Exc('ValueError', I.site, True))]
        r = range(int(a.cval()), int(b.cval()), int(c.cval()))
        if len(r) <= 4096:
            return [(st, IterV(tuple(One(N.const(i)) for i in r), ('range', a, b, c)))]
    if not c.is_const():
        out = []
        for s, pos in I.split(st, c, True):
            out.extend(_srange(I, s, a, b, c, pos))
        return out
    if c.cval() == 0:
        return [(st, Exc('ValueError', I.site, True))]
    return _srange(I, st, a, b, c, c.cval() > 0)


def _srange(I, st, a, b, c, pos):
    out = []
    span = (b - a) if pos else (a - b)
    for s, ne in I.split(st, span - 1):
        if not ne:
            out.append((s, IterV((), ('range', a, b, c))))
            continue
        if c.is_const() and abs(c.cval()) == 1:
            n = span
        else:
            cc = c if pos else -c
            n = N.of(ops.ceil_of(I, s, ops.div(span, cc)))
            s.assume(n - 1)
        n = ops.gf_norm(s, n)
        if n.is_const() and n.cval() <= 64:
            out.append((s, IterV(tuple(One(nv(a + c.scale(i))) for i in range(int(n.cval()))), ('range', a, b, c))))
            continue
        base = mkbase(('range', a, c), n, 'int', None, elem_fn=lambda i, a=a, c=c: nv(a + c * i), range=(a, c), distinct=True)
        out.append((s, IterV((Sl(base, 0, n),), ('range', a, b, c))))
    return out


def mkiter(st, iv):
    return Ref(st.alloc(Obj('iter', fields={'pos': 0}, info=iv)))


def set_order(I, segs):
    """iteration order of a set: as inserted, or (I.setrev) reversed where it depends on hashing; small integers do not"""
    if not getattr(I, 'setrev', False) or all(isinstance(g, One) and to_num(g.v) is not None and to_num(g.v).is_int() for g in segs):
        return segs
    return tuple(reversed(segs))


def to_iterv(I, st, v):
    """-> IterV | Exc | Top"""
    if isinstance(v, IterV):
        return v
    if isinstance(v, Tup):
        return IterV(v.segs)
    if is_str(v):
        s = str_segs(v)
        return IterV(s) if s is not None else Top('opaque string iteration')
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None:
            return Top('iteration of unknown object')
        if o.kind == 'iter':
            return IterV((), ('obj', v.key))
        if o.kind == 'set':
            return IterV(set_order(I, o.segs), ('set', v.key))
        if o.segs is not None:
            return IterV((), ('live', v.key))
        if o.kind in ('dict', 'ns') or (o.kind == 'inst' and o.cls.info.dictlike):
            return IterV((), ('keys', v.key))
        if o.kind == 'inst':
            return Top('user iterator')
        return Exc('TypeError', I.site, True, ('not iterable',))
    if isinstance(v, Top):
        return v
    if isinstance(v, Cls) and v.info is not None:
        if v.info.enum and not v.info.opaque:
            return IterV(tuple(One(m) for _, m in v.info.members))
        if v.info.opaque:
            return Top('iteration of class %s' % v.info.name)
    if isinstance(v, T) and v.typ in ('any', 'obj', 'val'):
        return Top('iteration of opaque value')
    return Exc('TypeError', I.site, True, ('not iterable',))


def pull(I, st, iv, pos):
    """next item -> [(st, value | STOP | SYM | Exc, newpos)]"""
    tag = iv.tag
    if tag and tag[0] == 'live':
        o = st.get(tag[1])
        return _pull_segs(I, st, o.segs, pos or 0)
    if tag and tag[0] == 'obj':
        o = st.get(tag[1])
        inner = o.info
        out = []
        for s, v, p in pull(I, st, inner, o.fields['pos']):
            if v is not SYM:
                s.mut(tag[1]).fields['pos'] = p
            out.append((s, v, None))
        return out
    if tag and tag[0] == 'enum':
        p, k = pos if pos else (None, 0)
        return [(s, v if v is STOP or v is SYM or isinstance(v, Exc) else Tup.of(nv(tag[2] + k), v), (p2, k + 1)) for s, v, p2 in pull(I, st, tag[1], p)]
    if tag and tag[0] == 'zip':
        ps = pos if pos else tuple(None for _ in tag[1])
        cur = [(st, (), ())]
        done = []
        for it, p in zip(tag[1], ps):
            nxt = []
            for s, vs, nps in cur:
                for s2, v, p2 in pull(I, s, it, p):
                    if v is STOP or v is SYM or isinstance(v, Exc):
                        done.append((s2, v, None))
                    else:
                        nxt.append((s2, vs + (v,), nps + (p2,)))
            cur = nxt
        if not tag[1]:
            return [(st, STOP, None)]
        return done + [(s, Tup.of(*vs), nps) for s, vs, nps in cur]
    if tag and tag[0] == 'map':
        out = []
        for s, v, p in pull(I, st, IterV((), ('zip', tag[2])), pos):
            if v is STOP or v is SYM or isinstance(v, Exc):
                out.append((s, v, p))
            else:
                out.extend((s2, r, p) for s2, r in I.call(s, tag[1], v.items(), {}))
        return out
    if tag and tag[0] == 'filter':
        out = []
        work = [(st, pos)]
        while work:
            s, p = work.pop()
            for s2, v, p2 in pull(I, s, tag[2], p):
                if v is STOP or v is SYM or isinstance(v, Exc):
                    out.append((s2, v, p2))
                    continue
                res = I.truth_of([(s2, v)] if isinstance(tag[1], K) else I.call(s2, tag[1], [v], {}))
                for s3, b in res:
                    if isinstance(b, Exc):
                        out.append((s3, b, p2))
                    elif b == (tag[3] if len(tag) > 3 else True):
                        out.append((s3, v, p2))
                    else:
                        work.append((s3, p2))
        return out
    if tag and tag[0] == 'takewhile':
        out = []
        if pos == 'end':
            return [(st, STOP, 'end')]
        for s, v, p in pull(I, st, tag[2], pos):
            if v is STOP or v is SYM or isinstance(v, Exc):
                out.append((s, v, p))
                continue
            for s2, b in I.truth_of(I.call(s, tag[1], [v], {})):
                out.append((s2, b, p) if isinstance(b, Exc) else ((s2, v, p) if b else (s2, STOP, 'end')))
        return out
    if tag and tag[0] == 'count':
        k = pos or 0
        return [(st, nv(tag[1] + tag[2].scale(k)), k + 1)]
    if tag and tag[0] == 'repeat':
        return [(st, tag[1], None)]
    if tag and tag[0] == 'iterfn':
        out = []
        for s, v in I.call(st, tag[1], [], {}):
            if isinstance(v, Exc):
                out.append((s, v, None))
                continue
            for s2, b in I.eq(s, v, tag[2]):
                out.append((s2, STOP if b else v, None))
        return out
    if tag and tag[0] in ('keys', 'values', 'items'):
        f = dict_fields(I, st, Ref(tag[1]))
        k = pos or 0
        if f is None:
            st.note('dict iteration')
            return [(st, STOP, k)]
        ks = list(f)
        if k >= len(ks):
            return [(st, STOP, k)]
        kk = ks[k]
        return [(st, kk if tag[0] == 'keys' else (f[kk] if tag[0] == 'values' else Tup.of(kk, f[kk])), k + 1)]
    return _pull_segs(I, st, iv.segs, pos or 0)


def _pull_segs(I, st, segs, pos):
    if isinstance(pos, tuple):          # (segment index, offset N)
        k, off = pos
    else:
        k, off = pos, None
    if all(isinstance(s, One) for s in segs):
        i = k if off is None else int(off.cval())
        if i >= len(segs):
            return [(st, STOP, i)]
        return [(st, segs[i].v, i + 1)]
    # symbolic: position as absolute index
    i = N.const(k) if off is None else off
    out = []
    for s, more in I.split(st, segs_len(segs) - i - 1):
        if not more:
            out.append((s, STOP, (0, i)))
        else:
            r = seq_at(I, s, segs, i)
            out.extend((s2, v, (0, i + 1)) for s2, v in r)
    return out


def iter_len(I, st, iv):
    """symbolic number of items if known without pulling, else None"""
    tag = iv.tag
    if tag and tag[0] == 'live':
        return segs_len(st.get(tag[1]).segs)
    if tag and tag[0] == 'obj':
        o = st.get(tag[1])
        return iter_len(I, st, o.info) if o.fields['pos'] in (0, None) else None
    if tag and tag[0] == 'enum':
        return iter_len(I, st, tag[1])
    if tag and tag[0] in ('zip', 'map', 'filter', 'takewhile', 'count', 'repeat', 'iterfn'):
        return None
    if tag and tag[0] in ('keys', 'values', 'items'):
        f = dict_fields(I, st, Ref(tag[1]))
        return N.const(len(f)) if f is not None else None
    return segs_len(iv.segs)


def collect(I, st, v):
    """full iteration -> [(st, segs | Exc)]"""
    if isinstance(v, Ref):
        r = I.dunder(st, v, '__iter__', [])
        if r is not None:
            return [x for s, w in r for x in ([(s, w)] if isinstance(w, Exc) else collect(I, s, w))]
    iv = to_iterv(I, st, v)
    if isinstance(iv, Exc):
        return [(st, iv)]
    if isinstance(iv, Top):
        st.note(iv.why)
        return [(st, ())]
    return collect_iv(I, st, iv)


def collect_iv(I, st, iv):
    tag = iv.tag
    if tag and tag[0] == 'set':
        if len(iv.segs) > 1 or any(not isinstance(s, One) for s in iv.segs):
            st.ev('setorder', I.site)
        return [(st, iv.segs)]
    if tag and tag[0] == 'live':
        return [(st, st.get(tag[1]).segs)]
    if tag and tag[0] == 'obj':
        o = st.get(tag[1])
        if o.fields['pos'] in (0, None) and not (o.info.tag and o.info.tag[0] in ('zip', 'map', 'filter', 'takewhile', 'count', 'repeat', 'iterfn')):
            r = collect_iv(I, st, o.info)
            for s, segs in r:
                s.mut(tag[1]).fields['pos'] = 10 ** 6
            return r
        if o.fields['pos'] == 10 ** 6:
            return [(st, ())]
    elif tag and tag[0] in ('zip', 'map', 'filter', 'takewhile', 'count', 'repeat', 'iterfn'):
        r = sym_collect(I, st, iv)
        if r is not None:
            return r
    elif tag and tag[0] == 'enum':
        inner = collect_iv(I, st, tag[1])
        out = []
        for s, segs in inner:
            if isinstance(segs, Exc):
                out.append((s, segs))
                continue
            if all(isinstance(g, One) for g in segs):
                out.append((s, tuple(One(Tup.of(nv(tag[2] + i), g.v)) for i, g in enumerate(segs))))
            elif len(segs) == 1 and isinstance(segs[0], Sl):
                g = segs[0]
                base = mkbase(('enum', g.base, g.a, g.b, g.rev, tag[2]), g.b - g.a, elem_fn=lambda i, g=g, k=tag[2]: Tup.of(nv(k + i), g.at(i)))
                out.append((s, (Sl(base, 0, g.b - g.a),)))
            else:
                s.note('enumerate over mixed symbolic list')
                out.append((s, ()))
        return out
    elif tag and tag[0] in ('keys', 'values', 'items'):
        pass
    else:
        return [(st, iv.segs)]
    # generic pulling
    out = []
    work = [(st, None, ())]
    n = 0
    while work:
        s, pos, acc = work.pop()
        n += 1
        if n > 3000:
            s.note('iteration bound')
            out.append((s, acc))
            continue
        for s2, v, p2 in pull(I, s, iv, pos):
            if v is STOP:
                out.append((s2, acc))
            elif v is SYM:
                s2.note('symbolic iteration')
                out.append((s2, acc))
            elif isinstance(v, Exc):
                out.append((s2, v))
            else:
                if len(acc) > 200:
                    s2.note('iteration bound')
                    out.append((s2, acc))
                else:
                    work.append((s2, p2, acc + (One(v),)))
    return out


def sym_collect(I, st, iv):
    """zip over symbolic slices of equal length"""
    if iv.tag[0] != 'zip' or not iv.tag[1]:
        return None
    lens = [iter_len(I, st, x) for x in iv.tag[1]]
    if any(l is None for l in lens) or lens[0].is_const() or any(l != lens[0] for l in lens):
        return None
    parts = []
    for x in iv.tag[1]:
        r = collect_iv(I, st, x)
        if len(r) != 1 or isinstance(r[0][1], Exc):
            return None
        segs = r[0][1]
        if len(segs) != 1 or not isinstance(segs[0], Sl):
            return None
        parts.append(segs[0])
    base = mkbase(('zip', tuple((g.base, g.a, g.b, g.rev) for g in parts)), lens[0],
                  elem_fn=lambda i, ps=tuple(parts): Tup.of(*[g.at(i) for g in ps]))
    return [(st, (Sl(base, 0, lens[0]),))]
