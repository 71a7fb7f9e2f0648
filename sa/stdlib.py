"""Calls of builtin types/functions and of standard-library functions."""
import ast
import itertools as it
from .terms import N, T, mk, fresh, set_bounds, Fr, sym, BOUNDS, div
from .values import *
from . import ops, seqs
from .ops import binop, eq, floor_of, trunc_of, ceil_of, round_of, INF
from .seqs import *

EXPLICIT = 700       # largest number of outcomes of one random draw that is enumerated


def bind(res, f):
    out = []
    for st, v in res:
        if isinstance(v, Exc):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    return out


# ------------------------------------------------------------------ types
def call_type(I, st, name, args, kw):
    from . import models as M
    from .interp import BUILTIN_EXC
    if name in BUILTIN_EXC:
        return [(st, Ref(st.alloc(Obj('exc', cls=Cls(name=name), info={'args': tuple(args)}))))]
    a = args[0] if args else None
    if name == 'list':
        if a is None:
            return [(st, Ref(st.alloc(Obj('list', segs=()))))]
        return bind(collect(I, st, a), lambda s, g: [(s, Ref(s.alloc(Obj('list', segs=norm_segs(g)))))])
    if name == 'tuple':
        if a is None:
            return [(st, Tup(()))]
        return bind(collect(I, st, a), lambda s, g: [(s, Tup(norm_segs(g)))])
    if name in ('set', 'frozenset'):
        if a is None:
            return [(st, Ref(st.alloc(Obj('set', segs=(), info={'frozen': name == 'frozenset'}))))]
        return bind(collect(I, st, a), lambda s, g: make_set(I, s, g, name == 'frozenset'))
    if name == 'dict':
        if a is None:
            return [(st, Ref(st.alloc(Obj('dict', fields={K(k): v for k, v in kw.items()}))))]
        f = dict_fields(I, st, a)

        def upd(s, d):
            for k, v in kw.items():
                s.mut(d.key).fields[K(k)] = v
            return [(s, d)]
        if f is not None:
            return upd(st, Ref(st.alloc(Obj('dict', fields=f))))
        return bind(bind(collect(I, st, a), lambda s, g: make_dict(I, s, g)), upd)
    if name == 'int':
        if a is None:
            return [(st, N.const(0))]
        if is_str(a):
            return int_of_str(I, st, a, args[1] if len(args) > 1 else kw.get('base'))
        p = I.num(a)
        if p is None:
            if isinstance(a, Top):
                return [(st, Top('int'))]
            if isinstance(a, T):
                st.note('int of opaque value')
                return [(st, fresh('int', 'int'))]
            return [(st, Exc('TypeError', I.site, True))]
        return trunc_of(I, st, p)
    if name == 'float':
        if a is None:
            return [(st, NF({}))]
        if isinstance(a, K) and isinstance(a.v, str):
            t = a.v.strip().lower().lstrip('+')
            if t in ('inf', 'infinity'):
                return [(st, nv(N.atom(INF)))]
            if t in ('-inf', '-infinity'):
                return [(st, nv(-N.atom(INF)))]
            try:
                return [(st, NF(N.of(float(t)).d))]
            except ValueError:
                return [(st, Exc('ValueError', I.site, True))]
        p = I.num(a)
        if p is not None:
            return [(st, NF(p.d) if p.is_const() else nv(p))]
        if isinstance(a, (K, Tup, Ref)):
            return [(st, Exc('TypeError', I.site, True))]
        st.note('float of opaque value')
        return [(st, fresh('float', 'float'))]
    if name == 'str':
        if a is None:
            return [(st, K(''))]
        if is_str(a):
            return [(st, a)]
        if isinstance(a, N) and a.is_const() and a.cval().denominator == 1 and not isinstance(a, NF):
            return [(st, K(str(int(a.cval()))))]
        p = I.num(a)
        if p is not None:
            bits = ops.to_bits(st, p)
            if bits is not None and len(bits) == 1:
                return [(st, ops.bitchar(bits[0]))]
        return [(st, opaque_str('str', a if not isinstance(a, (SuperV, SliceV)) else K('?')))]
    if name == 'bool':
        return [(st, FALSE)] if a is None else [(s, b if isinstance(b, Exc) else K(b)) for s, b in I.truth(st, a)]
    if name == 'range':
        ps = [I.num(x) for x in args]
        if any(p is None for p in ps):
            if any(isinstance(x, Top) for x in args):
                st.note('range of unknown')
                return [(st, IterV(()))]
            return [(st, Exc('TypeError', I.site, True))]
        if any(not p.is_int() and p.is_const() for p in ps):
            return [(st, Exc('TypeError', I.site, True))]
        if len(ps) == 1:
            return range_iter(I, st, N.const(0), ps[0], N.const(1))
        return range_iter(I, st, ps[0], ps[1], ps[2] if len(ps) > 2 else N.const(1))
    if name == 'enumerate':
        iv = to_iterv(I, st, a)
        if isinstance(iv, Exc):
            return [(st, iv)]
        if isinstance(iv, Top):
            st.note(iv.why)
            return [(st, IterV(()))]
        start = args[1] if len(args) > 1 else kw.get('start', N.const(0))
        return [(st, mkiter(st, IterV((), ('enum', iv, I.num(start)))))]
    if name in ('zip', 'map', 'filter'):
        its = args if name == 'zip' else args[1:]
        ivs = []
        for x in its:
            iv = to_iterv(I, st, x)
            if isinstance(iv, Exc):
                return [(st, iv)]
            if isinstance(iv, Top):
                st.note(iv.why)
                iv = IterV(())
            ivs.append(iv)
        if name == 'zip':
            return [(st, mkiter(st, IterV((), ('zip', tuple(ivs)))))]
        if name == 'map':
            return [(st, mkiter(st, IterV((), ('map', a, tuple(ivs)))))]
        return [(st, mkiter(st, IterV((), ('filter', a, ivs[0]))))]
    if name == 'reversed':
        if isinstance(a, Ref):
            r = I.dunder(st, a, '__reversed__', [])
            if r is not None:
                return r
        return bind(collect(I, st, a), lambda s, g: [(s, mkiter(s, IterV(reverse_segs(s, g), 'rev' and None)))])
    if name == 'object':
        return [(st, Ref(st.alloc(Obj('obj', info={}))))]
    if name == 'slice':
        x = [None if isinstance(v, K) and v.v is None else v for v in args]
        if len(x) == 1:
            return [(st, SliceV(None, x[0], None))]
        return [(st, SliceV(x[0], x[1], x[2] if len(x) > 2 else None))]
    if name == 'type':
        if len(args) == 1:
            return type_of(I, st, a)
    if name == 'super':
        if len(args) == 2 and isinstance(a, Cls):
            return [(st, SuperV(a.info, args[1]))]
    if name in ('staticmethod', 'classmethod', 'property'):
        return [(st, Partial(Ext('deco.' + name), args[:1], {'fset': args[1]} if len(args) > 1 else {k: v for k, v in kw.items()}))]
    st.note('constructor ' + name)
    I.unmodelled.add('type ' + name)
    return [(st, Top(name))]


def type_of(I, st, v):
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None:
            st.note('type of unknown')
            return [(st, Top('type'))]
        if o.cls is not None:
            return [(st, o.cls)]
        return [(st, Cls(name={'ns': 'dict', 'iter': 'iterator', 'obj': 'object'}.get(o.kind, o.kind)))]
    if isinstance(v, K):
        return [(st, Cls(name={'NoneType': 'NoneType'}.get(type(v.v).__name__, type(v.v).__name__)))]
    if isinstance(v, NF):
        return [(st, Cls(name='float'))]
    if isinstance(v, N):
        if v.is_int():
            return [(st, Cls(name='int'))]
        if v.is_const():
            return [(st, Cls(name='float'))]
        return [(s, Cls(name='float' if b else 'int')) for s, b in I.split_lit(st, ('isfloat', v))]
    if is_str(v):
        return [(st, Cls(name='str'))]
    if isinstance(v, Tup):
        return [(st, v.nt or Cls(name='tuple'))]
    if isinstance(v, IterV):
        return [(st, Cls(name=(v.tag or ('iterator',))[0]))]
    if isinstance(v, T):
        if v.typ in ('int', 'float', 'bool', 'str'):
            return [(st, Cls(name=v.typ))]
        if v.typ == 'num':
            return [(s, Cls(name='float' if b else 'int')) for s, b in I.split_lit(st, ('isfloat', v))]
        if v.typ == 'fn':
            return [(st, Cls(name='function'))]
        if v.info and 'cls' in v.info:
            return [(st, v.info['cls'])]
        st.note('type of opaque value')
        return [(st, Top('type'))]
    if isinstance(v, Cls):
        return [(st, Cls(name='type'))]
    if isinstance(v, (Fn, Bound)):
        return [(st, Cls(name='function'))]
    st.note('type of unknown')
    return [(st, Top('type'))]


SUBT = {'bool': ('int',)}


def isinstance_of(I, st, v, c):
    """-> [(st, bool)]"""
    if isinstance(c, Tup):
        out = []
        cur = [st]
        for x in c.items() or []:
            nxt = []
            for s in cur:
                for s2, b in isinstance_of(I, s, v, x):
                    (out.append((s2, True)) if b else nxt.append(s2))
            cur = nxt
        return out + [(s, False) for s in cur]
    if isinstance(c, Ext) and c.name in ('typing.Union', 'typing.Optional'):
        st.note('isinstance against a union')
        return [(st.clone(), True), (st, False)]
    if isinstance(c, Ext):
        nm = c.name.split('.')[-1]
        grp = {'Callable': ('function', 'fn'), 'Sequence': ('list', 'tuple', 'str', 'range'), 'Iterable': ('list', 'tuple', 'str', 'set', 'dict', 'range', 'iterator', 'frozenset'),
               'Sized': ('list', 'tuple', 'str', 'set', 'dict', 'range', 'frozenset'),
               'Mapping': ('dict',), 'Number': ('int', 'float', 'bool'), 'Real': ('int', 'float', 'bool'), 'Integral': ('int', 'bool'),
               'Collection': ('list', 'tuple', 'str', 'set', 'dict', 'range'), 'List': ('list',), 'Tuple': ('tuple',), 'Dict': ('dict',),
               'MutableSequence': ('list',)}.get(nm)
        if grp is None:
            st.note('isinstance against ' + c.name)
            return [(st.clone(), True), (st, False)]
        out = []
        for s, t in type_of(I, st, v):
            if isinstance(t, Top):
                out.extend(I.split_lit(s, ('isinst', v, c)))
            elif t.info is not None and t.info.listlike:
                out.append((s, 'list' in grp))
            else:
                out.append((s, t.name in grp))
        return out
    if isinstance(v, T) and v.typ in ('any', 'val', 'obj') and not (v.info and 'cls' in v.info):
        return I.split_lit(st, ('isinst', v, c))
    out = []
    for s, t in type_of(I, st, v):
        if isinstance(t, Top) or not isinstance(c, Cls):
            out.extend([(s.clone(), True), (s, False)])
            continue
        if c.info is None and c.name == 'object':
            out.append((s, True))
            continue
        if t.info is not None:
            if c.info is not None:
                out.append((s, c in t.info.mro))
            else:
                out.append((s, any(b.name == c.name for b in t.info.mro if b.info is None) or (c.name == 'tuple' and t.info.names is not None)))
        else:
            out.append((s, c.info is None and (t.name == c.name or c.name in SUBT.get(t.name, ()))))
    return out


def int_of_str(I, st, a, base):
    b = I.num(base) if base is not None else N.const(10)
    if isinstance(a, K):
        try:
            return [(st, N.const(int(a.v, int(b.cval()))))]
        except ValueError:
            return [(st, Exc('ValueError', I.site, True))]
    segs = str_segs(a)
    if segs is not None and b is not None and b.is_const() and all(isinstance(g, One) for g in segs):
        chars = [g.v for g in segs]
        if b.cval() == 2 or len(chars) == 1:
            forms = [ops.char_form(st, c) for c in chars]
            # skip a literal prefix 0b
            if len(chars) > 2 and chars[0] == K('0') and chars[1] == K('b'):
                forms = forms[2:]
            if all(f is not None for f in forms) and forms:
                return [(st, nv(ops.from_bits(list(reversed(forms)))))]
        if not chars:
            return [(st, Exc('ValueError', I.site, True))]
    t = mk('intstr', (a, b), 'int')
    set_bounds(t, 0)
    return [(st, t)]


# ------------------------------------------------------------------ copies
def deepcopy(I, st, v, memo=None):
    """-> [(st, value)]"""
    memo = {} if memo is None else memo

    def go(v):
        if isinstance(v, Ref):
            if v.key in memo:
                return memo[v.key]
            o = st.get(v.key)
            if o is None:
                st.note('deepcopy of unknown object')
                return v
            if o.kind == 'inst' and o.cls is not None and o.cls.info is not None and o.cls.info.enum:
                return v
            if o.kind == 'dict' and o.lazy is not None:
                dict_fields(I, st, v)
                o = st.get(v.key)
            n = Obj(o.kind, o.cls, {}, None, None, frozenset(), None, o.info if o.kind not in ('obj',) else o.info)
            k = st.alloc(n)
            r = Ref(k)
            memo[v.key] = r
            if o.kind in ('obj',) and isinstance(o.info, dict) and o.info.get('atomic'):
                memo[v.key] = v
                return v
            fields = {kk: go(x) for kk, x in o.fields.items()} if o.kind != 'iter' else dict(o.fields)
            segs = None
            if o.segs is not None:
                segs = tuple(goseg(s) for s in o.segs)
            ns = None
            if o.ns is not None:
                ns = go(Ref(o.ns)).key
            m = st.mut(k)
            m.fields, m.segs, m.ns = fields, segs, ns
            if isinstance(m.info, dict):
                m.info = dict(m.info)
            elif m.info is None:
                m.info = None
            return r
        if isinstance(v, Tup):
            return Tup(goseg(s) for s in v.segs)
        return v

    def goseg(s):
        if isinstance(s, One):
            return One(go(s.v))
        if isinstance(s, Sl) and (s.base.family is not None or s.base.etyp == 'list'):
            st.note('deepcopy of a symbolic list of objects')
        return s
    return [(st, go(v))]


def shallow(I, st, v):
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None:
            st.note('copy of unknown object')
            return [(st, v)]
        if o.kind == 'inst':
            ns = st.alloc(Obj('ns', fields=dict(st.get(o.ns).fields)))
            return [(st, Ref(st.alloc(Obj('inst', o.cls, dict(o.fields), o.segs, ns))))]
        if o.kind == 'dict':
            return [(st, Ref(st.alloc(Obj('dict', fields=dict_fields(I, st, v)))))]
        return [(st, Ref(st.alloc(Obj(o.kind, o.cls, dict(o.fields), o.segs, o.ns, frozenset(), None, o.info))))]
    return [(st, v)]


# ------------------------------------------------------------------ random
def rnd(I, st, name, *what):
    if I.rand_events:
        st.ev('rand', name, what, I.site)


def choice_of(I, st, segs, name='choice'):
    segs = norm_segs(segs)
    n = segs_len(segs)
    if n.is_const() and not n.d:
        return [(st, Exc('IndexError', I.site, True))]
    out = []
    if all(isinstance(s, One) for s in segs):
        if I.setup:
            return [(st, segs[I.draw(len(segs))].v)]
        vals = []
        for s in segs:
            if s.v not in vals:
                vals.append(s.v)
        for j, v in enumerate(vals):
            s2 = st.clone() if j < len(vals) - 1 else st
            out.append((s2, v))
        return out
    for s, ok in I.split(st, n - 1):
        if not ok:
            out.append((s, Exc('IndexError', I.site, True, 'maybe')))
            continue
        i = fresh('choice', 'int')
        s.assume(N.atom(i))
        s.assume(n - 1 - N.atom(i))
        out.extend(seq_at(I, s, segs, N.atom(i)))
    return out


def sample_of(I, st, segs, k):
    segs = norm_segs(segs)
    n = segs_len(segs)
    k = ops.gf_norm(st, k)
    if not k.is_const():
        if n.is_const() and n.cval() <= 8:
            out = []
            for j in range(int(n.cval()) + 1):
                s = st.clone()
                if s.assume_eq(k - j):
                    out.extend(sample_of(I, s, segs, N.const(j)))
            for q in (-k, k - n):
                s = st.clone()
                if s.assume(q, True):
                    out.append((s, Exc('ValueError', I.site, True, 'maybe')))
            return out
        # symbolic size: opaque selection
        out = []
        for s, ok in I.split(st, k):
            for s2, ok2 in (I.split(s, n - k) if ok else [(s, False)]):
                if not ok2:
                    out.append((s2, Exc('ValueError', I.site, True, 'maybe')))
                    continue
                t = fresh('samp')
                base = freshbase('sample', k, member_of=segs, distinct=_distinct(segs),
                                 elem_fn=_sampler(t, segs, n))
                out.append((s2, (Sl(base, 0, k),)))
        return out
    kk = int(k.cval())
    if kk < 0:
        return [(st, Exc('ValueError', I.site, True))]
    if all(isinstance(s, One) for s in segs):
        if kk > len(segs):
            return [(st, Exc('ValueError', I.site, True))]
        if I.setup:
            left = list(segs)
            return [(st, tuple(left.pop(I.draw(len(left))) for _ in range(kk)))]
        cnt = 1
        for j in range(kk):
            cnt *= len(segs) - j
        if cnt <= EXPLICIT:
            out = []
            for p in it.permutations(segs, kk):
                out.append((st.clone(), tuple(p)))
            return out
        st.note('sample with too many outcomes')
        return [(st, tuple(segs[:kk]))]
    out = []
    for s, ok in I.split(st, n - kk):
        if not ok:
            out.append((s, Exc('ValueError', I.site, True, 'maybe')))
            continue
        ids = []
        for j in range(kk):
            i = fresh('sample', 'int')
            s.assume(N.atom(i))
            s.assume(n - 1 - N.atom(i))
            for q in ids:
                s.set_lit(('eqn', I.canon_eq(N.atom(i) - N.atom(q))), False)
            ids.append(i)
        cur = [(s, ())]
        for i in ids:
            cur = [(s3, acc + (One(v),)) for s2, acc in cur for s3, v in seq_at(I, s2, segs, N.atom(i))]
        out.extend(cur)
    return out


def _distinct(segs):
    return len(segs) == 1 and isinstance(segs[0], Sl) and bool(segs[0].base.meta.get('distinct'))


def _sampler(t, segs, n):
    def f(i):
        j = mk('sampidx', (t, i), 'int')
        set_bounds(j, 0, n - 1)
        g = segs[0]
        if len(segs) == 1 and isinstance(g, Sl):
            return g.at(N.atom(j))
        return None
    return f


def randint(I, st, a, b, name):
    """integer in [a, b]"""
    out = []
    if I.setup:
        if a.is_const() and b.is_const() and b.cval() >= a.cval():
            return [(st, nv(a + I.draw(int(b.cval()) - int(a.cval()) + 1)))]
        return [(st, nv(a))]
    for s, ok in I.split(st, b - a):
        if not ok:
            out.append((s, Exc('ValueError', I.site, True, 'maybe')))
            continue
        if a == b:
            out.append((s, nv(a)))
            continue
        if I.fork_draws and a.is_const() and b.is_const() and b.cval() - a.cval() < 16:
            for j in range(int(b.cval() - a.cval()) + 1):
                out.append((s.clone(), nv(a + j)))
            continue
        if a.is_const() and b.is_const() and not a.d and b.cval() >= 1 and not (int(b.cval()) & (int(b.cval()) + 1)) and b.cval() < 2 ** 12:
            t = fresh(name, 'int')
            k = int(b.cval()).bit_length()
            out.append((s, nv(ops.from_bits([ops.bitvar('%r.%d' % (t, j)) for j in range(k)]))))
            continue
        t = fresh(name, 'int', info={'rand': (a, b)})
        s.assume(N.atom(t) - a)
        s.assume(b - N.atom(t))
        out.append((s, t))
    return out


def call_random(I, st, f, args, kw):
    if I.max_draws is not None and f != 'seed' and sum(1 for e in st.events if e[0] == 'rand') >= I.max_draws:
        I.loops_cut += 1
        I.cut_sites.add(I.site)
        return []
    rnd(I, st, f, tuple(args))
    if f == 'seed':
        st.ev('seed', tuple(args), I.site)
        return [(st, NONE)]
    if f == 'random' and I.setup:
        return [(st, NF(N.of(Fr(I.draw(144), 144)).d))]
    if f == 'random':
        t = fresh('random', 'float', info={'rand': 'unit'})
        set_bounds(t, 0, 1, False, True)
        if I.rand_events:
            st.ev('draw', t)
        return [(st, t)]
    if f in ('randint', 'randrange'):
        ps = [I.num(a) for a in args]
        ps += [I.num(kw[k]) for k in ('a', 'b') if k in kw]
        if any(p is None for p in ps):
            if any(isinstance(a, Top) for a in args):
                st.note('random range of unknown')
                return [(st, fresh('rnd', 'int'))]
            return [(st, Exc('TypeError', I.site, True))]
        if f == 'randint':
            return randint(I, st, ps[0], ps[1], 'randint')
        if len(ps) == 1:
            return randint(I, st, N.const(0), ps[0] - 1, 'randrange')
        if len(ps) == 2 or ps[2] == N.const(1):
            return randint(I, st, ps[0], ps[1] - 1, 'randrange')

        def k(s, r):
            if not r.segs:
                return [(s, Exc('ValueError', I.site, True))]
            n = segs_len(r.segs)
            return bind(randint(I, s, N.const(0), n - 1, 'randrange'), lambda s2, j: [(s2, nv(ps[0] + ps[2] * N.of(I.num(j))))])
        return bind(range_iter(I, st, ps[0], ps[1], ps[2]), k)
    if f == 'choice':
        return bind(collect_seq(I, st, args[0] if args else kw['seq']), lambda s, g: choice_of(I, s, g))
    if f == 'sample':
        pop = args[0] if args else kw.get('population')
        k = args[1] if len(args) > 1 else kw.get('k')
        kn = I.num(k)
        if kn is None:
            st.note('sample of unknown size')
            return [(st, Top('sample'))]

        def fin(s, g):
            def mkl(s2, r):
                if I.rand_events:
                    s2.ev('sample', tuple(g), tuple(r), I.site)
                return [(s2, Ref(s2.alloc(Obj('list', segs=tuple(r)))))]
            return bind(sample_of(I, s, g, kn), mkl)
        return bind(collect_seq(I, st, pop), fin)
    if f == 'choices':
        pop = args[0] if args else kw.get('population')
        k = I.num(kw.get('k', N.const(1)))
        if 'weights' in kw or 'cum_weights' in kw or len(args) > 1:
            w = kw.get('weights', kw.get('cum_weights', args[1] if len(args) > 1 else None))
            st.ev('weights', pop, w, 'cum_weights' in kw, I.site)
        if k is None or not k.is_const():
            st.note('choices of symbolic size')
            return [(st, Top('choices'))]

        def fin(s, g):
            cur = [(s, ())]
            for _ in range(int(k.cval())):
                cur = [(s3, acc + (One(v),)) for s2, acc in cur for s3, v in choice_of(I, s2, g) if not isinstance(v, Exc)]
            if I.rand_events:
                for s2, acc in cur:
                    s2.ev('sample', tuple(g), acc, I.site)
            return [(s2, Ref(s2.alloc(Obj('list', segs=acc)))) for s2, acc in cur]
        return bind(collect_seq(I, st, pop), fin)
    if f == 'shuffle':
        o = st.get(args[0].key) if isinstance(args[0], Ref) else None
        if o is None or o.segs is None:
            st.note('shuffle of unknown')
            return [(st, NONE)]
        if I.setup and all(isinstance(s, One) for s in o.segs):
            left = list(o.segs)
            I.mutate(st, args[0].key, 'shuffle').segs = tuple(left.pop(I.draw(len(left))) for _ in range(len(left)))
            return [(st, NONE)]
        if all(isinstance(s, One) for s in o.segs) and len(o.segs) <= 5:
            out = []
            for p in it.permutations(o.segs):
                s = st.clone()
                I.mutate(s, args[0].key, 'shuffle').segs = tuple(p)
                out.append((s, NONE))
            return out
        st.note('shuffle of symbolic list')
        return [(st, NONE)]
    if f == 'getrandbits':
        p = I.num(args[0])
        if p is not None and p.is_const():
            return randint(I, st, N.const(0), N.const(2 ** int(p.cval()) - 1), 'bits')
    if f == 'uniform':
        t = fresh('uniform', 'float', info={'rand': 'uniform'})
        a, b = I.num(args[0]), I.num(args[1])
        if I.rand_events:
            st.ev('draw', t)
        out = []
        for s, b2 in I.split(st, b - a):
            lo, hi = (a, b) if b2 else (b, a)
            s.assume(N.atom(t) - lo)
            s.assume(hi - N.atom(t))
            out.append((s, t))
        return out
    if f in ('gauss', 'normalvariate', 'expovariate', 'triangular', 'betavariate', 'lognormvariate', 'vonmisesvariate', 'gammavariate', 'paretovariate', 'weibullvariate'):
        return [(st, fresh(f, 'float'))]
    if f in ('Random', 'SystemRandom'):
        st.ev('entropy', 'random.' + f, tuple(args), I.site)
        own = bool(args) and args[0] != NONE
        return [(st, Ext(('rng2s' if own else 'rng2') if f == 'Random' else 'secrets'))]
    if f in ('getstate',):
        return [(st, fresh('rngstate', 'obj'))]
    if f in ('setstate',):
        st.ev('seed', tuple(args), I.site)
        return [(st, NONE)]
    st.note('random.' + f)
    return [(st, Top('random.' + f))]


def collect_seq(I, st, v):
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is not None and o.kind == 'set':
            return [(st, Exc('TypeError', I.site, True))]
    return collect(I, st, v)


ENTROPY = ('time.', 'os.urandom', 'os.getpid', 'uuid.', 'secrets', 'numpy.random', 'datetime.', 'builtins.id', 'builtins.hash', 'tempfile.',
           'threading.get_ident', 'socket.')


# ------------------------------------------------------------------ functions
def fold_minmax(I, st, vals, key, mx):
    """-> [(st, value|Exc)] first extremal element, as the builtins do"""
    def keyed(s, v):
        if key is None or (isinstance(key, K) and key.v is None):
            return [(s, v)]
        return I.call(s, key, [v], {})
    cur = [(st, None)]
    for v in vals:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                nxt.append((s, acc))
                continue
            for s2, k in keyed(s, v):
                if isinstance(k, Exc):
                    nxt.append((s2, k))
                elif acc is None:
                    nxt.append((s2, (k, v)))
                else:
                    for s3, b in ops.order(I, s2, '>' if mx else '<', k, acc[0]):
                        nxt.append((s3, b if isinstance(b, Exc) else ((k, v) if b else acc)))
        cur = nxt
    return [(s, a if isinstance(a, Exc) else a[1]) for s, a in cur]


def sum_segs(I, st, segs, start):
    cur = [(st, start)]
    for g in segs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                nxt.append((s, acc))
            elif isinstance(g, One):
                nxt.extend(binop(I, s, ast.Add, acc, g.v))
            elif isinstance(g, Sl) and 'range' in g.base.meta:
                a, c = g.base.meta['range']
                n = g.b - g.a
                tot = n * (a + c * g.a) + c * (n * (n - 1)).scale(Fr(1, 2))
                nxt.extend(binop(I, s, ast.Add, acc, nv(tot)))
            elif isinstance(g, Sl):
                t = mk('sum', (g.base, g.a, g.b), 'num')
                nxt.extend(binop(I, s, ast.Add, acc, t))
            else:
                s.note('sum of unbounded repetition')
                nxt.append((s, Top('sum')))
        cur = nxt
    return cur


def call_ext(I, st, name, args, kw):
    from . import models as M
    a = args[0] if args else None
    h = I.hooks.get(('ext', name))
    if h is not None:
        r = h(I, st, name, args, kw)
        if r is not None:
            return r
    if name == 'noop':
        return [(st, NONE)]
    if name.startswith('random.'):
        return call_random(I, st, name[7:], args, kw)
    if name.startswith('rng2'):
        # a generator object of the library's own
        h, f = name.split('.', 1)
        st.ev('rand2', h, f, I.site)
        return [(st, NONE)] if f in ('seed', 'setstate') else call_random(I, st, f, args, kw)
    for e in ENTROPY:
        if name.startswith(e):
            st.ev('entropy', name, tuple(args), I.site)
            I.entropy = True
            return [(st, fresh(name, 'int' if name.split('.')[-1] in ('id', 'hash', 'getpid', 'time_ns', 'randbelow') else 'num', info={'entropy': name}))]
    mod, _, f = name.rpartition('.')
    fn = TABLE.get(name)
    if fn is not None:
        return fn(I, st, args, kw)
    if name.startswith('cls:'):
        return call_cls_attr(I, st, name[4:], args, kw)
    if mod in ('typing', 'abc', 'logging', 'warnings', 'typing_extensions') or mod.startswith('logging'):
        if mod == 'warnings' and f == 'warn':
            st.ev('warn', I.site)
            return [(st, NONE)]
        if f in ('cast',):
            return [(st, args[1])]
        if f == 'getLogger':
            return [(st, Ext('logging.logger'))]
        return [(st, NONE)]
    if mod == 'math':
        return call_math(I, st, f, args, kw)
    if mod == 'operator':
        return call_operator(I, st, f, args, kw)
    if mod == 'itertools':
        return call_itertools(I, st, f, args, kw)
    if name.startswith('numpy'):
        st.ev('entropy', name, (), I.site) if 'random' in name else None
    st.note('external function %s' % name)
    I.unmodelled.add(name)
    return [(st, Top(name))]


def call_cls_attr(I, st, name, args, kw):
    from . import models as M
    cls, _, f = name.rpartition('.')
    if name == 'dict.fromkeys':
        v = args[1] if len(args) > 1 else NONE

        def k(s, segs):
            if not all(isinstance(g, One) for g in segs):
                s.note('fromkeys of symbolic sequence')
            d = Ref(s.alloc(Obj('dict', fields={})))
            cur = [s]
            for g in segs:
                if isinstance(g, One):
                    cur = [s3 for s2 in cur for s3, _ in dict_set(I, s2, d.key, g.v, v)]
            return [(s2, d) for s2 in cur]
        return bind(collect(I, st, args[0]), k)
    if f == '__new__':
        c = args[0]
        if isinstance(c, Cls) and c.info is not None:
            miss = I.abstract_left(st, c.info)
            if miss:
                return [(st, Exc('TypeError', I.site, True, (miss,)))]
            return [(st, I.raw_new(st, c))]
    if f == '__init__':
        r = args[0] if args else None
        if isinstance(r, Ref) and st.get(r.key).segs is not None and len(args) > 1:
            return M.list_method(I, st, r, 'extend', args[1:], {})
        return [(st, NONE)]
    if f == '__setattr__':
        return I.raw_setattr(st, args[0], args[1].v, args[2])
    if cls == 'chain' and f == 'from_iterable':
        return call_itertools(I, st, 'chain.from_iterable', args, kw)
    if cls in ('list', 'dict', 'set', 'str', 'tuple', 'int', 'float') and args:
        if cls == 'str' and f == 'maketrans':
            return [(st, Top('maketrans'))]
        return M.call_method(I, st, args[0], f, args[1:], kw)
    if f in ('__name__',):
        return [(st, K(cls))]
    st.note('class attribute ' + name)
    return [(st, Top(name))]


# table of builtin / stdlib functions ---------------------------------------------------------------
TABLE = {}


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


@reg('builtins.len')
def b_len(I, st, args, kw):
    v = args[0]
    if isinstance(v, Top):
        return [(st, Top('len'))]
    if isinstance(v, Ref):
        r = I.dunder(st, v, '__len__', [])
        if r is not None:
            return r
        o = st.get(v.key)
        if o is None:
            st.note('len of unknown')
            return [(st, Top('len'))]
        from . import models as M
        if o.kind == 'set':
            return M.set_method(I, st, v, '__len__', [], {})
        if o.segs is not None:
            return [(st, nv(segs_len(o.segs)))]
        f = dict_fields(I, st, v)
        if f is not None:
            return [(st, N.const(len(f)))]
        return [(st, Exc('TypeError', I.site, True, ('len',)))]
    segs = any_segs(st, v)
    if segs is not None:
        return [(st, nv(segs_len(segs)))]
    if isinstance(v, IterV):
        n = iter_len(I, st, v)
        if n is not None:
            return [(st, nv(n))]
        return [(st, Exc('TypeError', I.site, True))]
    if isinstance(v, T) and v.typ in ('any', 'val', 'obj', 'str'):
        if v.info and 'len' in v.info:
            return [(st, v.info['len'])]
        t = mk('len', (v,), 'int')
        set_bounds(t, 0)
        if v.typ != 'str':
            st.note('len of opaque value')
        return [(st, t)]
    return [(st, Exc('TypeError', I.site, True, ('len',)))]


@reg('builtins.abs', 'math.fabs', 'operator.abs')
def b_abs(I, st, args, kw):
    p = I.num(args[0])
    if p is None:
        if isinstance(args[0], Top):
            return [(st, Top('abs'))]
        return [(st, Exc('TypeError', I.site, True))]
    if p.is_const():
        return [(st, I.mkn(N.const(abs(p.cval())), [args[0]]))]
    return [(s, nv(p if b else -p)) for s, b in I.split(st, p)]


def _minmax(mx):
    def f(I, st, args, kw):
        key = kw.get('key')
        if len(args) == 1:
            def k(s, segs):
                segs = norm_segs(segs)
                if not segs:
                    if 'default' in kw:
                        return [(s, kw['default'])]
                    return [(s, Exc('ValueError', I.site, True))]
                if not all(isinstance(g, One) for g in segs):
                    s.note('extremum of symbolic list')
                    return [(s, Top('minmax'))]
                return fold_minmax(I, s, [g.v for g in segs], key, mx)
            return bind(collect(I, st, args[0]), k)
        return fold_minmax(I, st, args, key, mx)
    return f


TABLE['builtins.max'] = _minmax(True)
TABLE['builtins.min'] = _minmax(False)


@reg('builtins.sum', 'math.fsum')
def b_sum(I, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', N.const(0))
    return bind(collect(I, st, args[0]), lambda s, g: sum_segs(I, s, norm_segs(g), start))


@reg('math.prod')
def b_prod(I, st, args, kw):
    def k(s, segs):
        cur = [(s, N.const(1))]
        for g in segs:
            if not isinstance(g, One):
                s.note('product of symbolic list')
                return [(s, Top('prod'))]
            cur = bind(cur, lambda s2, acc: binop(I, s2, ast.Mult, acc, g.v))
        return cur
    return bind(collect(I, st, args[0]), k)


@reg('builtins.sorted')
def b_sorted(I, st, args, kw):
    from . import models as M
    return bind(collect(I, st, args[0]), lambda s, g: bind(M.sort_segs(I, s, g, kw.get('key'), kw.get('reverse')), lambda s2, r: [(s2, Ref(s2.alloc(Obj('list', segs=r))))]))


@reg('builtins.print')
def b_print(I, st, args, kw):
    st.ev('print', I.site)
    return [(st, NONE)]


@reg('dc.init')
def dc_init(I, st, args, kw):
    if len(args) < 2 or not isinstance(args[1], Ref):
        return [(st, Exc('TypeError', I.site, True, ('__init__ without an instance',)))]
    return bind(I.init_dataclass(st, args[1], args[0].info, args[2:], kw), lambda st, _: [(st, NONE)])


@reg('nt.make')
def nt_make(I, st, args, kw):
    iv = any_segs(st, args[1])
    if iv is None or not all(isinstance(g, One) for g in iv):
        st.note('named tuple of unknown length')
        return [(st, Top('namedtuple'))]
    return I.instantiate(st, args[0], [g.v for g in iv], {})


@reg('nt.replace')
def nt_replace(I, st, args, kw):
    t = args[0]
    return I.instantiate(st, t.nt, [], dict(zip(t.nt.info.names, t.items()), **kw))


@reg('nt.asdict')
def nt_asdict(I, st, args, kw):
    t = args[0]
    return [(st, Ref(st.alloc(Obj('dict', fields={K(n): v for n, v in zip(t.nt.info.names, t.items())}))))]


@reg('collections.namedtuple')
def b_namedtuple(I, st, args, kw):
    import ast as _ast
    names = None
    if len(args) >= 2 and isinstance(args[0], K):
        if isinstance(args[1], K) and isinstance(args[1].v, str):
            names = args[1].v.replace(',', ' ').split()
        else:
            g = any_segs(st, args[1])
            if g is not None and all(isinstance(x, One) and isinstance(x.v, K) for x in g):
                names = [x.v.v for x in g]
    if not names or set(kw) - {'defaults'}:
        st.note('call of unknown function: collections.namedtuple')
        return [(st, Top('namedtuple'))]
    node = _ast.parse('class %s:\n%s' % (args[0].v, '\n'.join('    %s: object' % n for n in names))).body[0]
    c = I.synthetic_class(st, node)
    c.info.names = names
    if 'defaults' in kw:
        d = any_segs(st, kw['defaults'])
        if d is None:
            st.note('defaults of a named tuple')
            return [(st, Top('namedtuple'))]
        for n, x in zip(names[len(names) - len(d):], d):
            st.mut(c.info.ns).fields[n] = x.v
    return [(st, c)]


@reg('builtins.isinstance')
def b_isinstance(I, st, args, kw):
    return [(s, K(b)) for s, b in isinstance_of(I, st, args[0], args[1])]


@reg('builtins.__import__', 'importlib.import_module')
def b_import(I, st, args, kw):
    if args and isinstance(args[0], K) and isinstance(args[0].v, str) and (len(args) == 1 or '.' not in args[0].v):
        I.do_import(st, args[0].v)
        return [(st, I.mod_value(args[0].v))]
    st.note('dynamic import')
    return [(st, Top('module'))]


@reg('builtins.issubclass')
def b_issubclass(I, st, args, kw):
    c, p = args
    ps = p.items() if isinstance(p, Tup) else [p]
    if isinstance(c, Cls) and all(isinstance(x, Cls) for x in ps):
        if c.info is not None:
            return [(st, K(any(x in c.info.mro or x.name == 'object' for x in ps)))]
        return [(st, K(any(x == c or x.name == 'object' for x in ps)))]
    st.note('issubclass')
    return [(st.clone(), TRUE), (st, FALSE)]


@reg('builtins.round')
def b_round(I, st, args, kw):
    p = I.num(args[0])
    if p is None:
        return [(st, Top('round') if isinstance(args[0], Top) else Exc('TypeError', I.site, True))]
    nd = args[1] if len(args) > 1 else kw.get('ndigits')
    if nd is not None and not (isinstance(nd, K) and nd.v is None):
        q = I.num(nd)
        if p.is_const() and q is not None and q.is_const():
            return [(st, NF(N.const(round(p.cval(), int(q.cval()))).d))]
        t = mk('roundn', (p, nd), 'num')
        return [(st, t)]
    return [(st, round_of(I, st, p))]


@reg('builtins.iter')
def b_iter(I, st, args, kw):
    if len(args) == 2:
        return [(st, mkiter(st, IterV((), ('iterfn', args[0], args[1]))))]
    if isinstance(args[0], Ref):
        o = st.get(args[0].key)
        if o is not None and o.kind == 'iter':
            return [(st, args[0])]
        r = I.dunder(st, args[0], '__iter__', [])
        if r is not None:
            return r
    iv = to_iterv(I, st, args[0])
    if isinstance(iv, Exc):
        return [(st, iv)]
    if isinstance(iv, Top):
        st.note(iv.why)
        iv = IterV(())
    return [(st, mkiter(st, iv))]


@reg('builtins.next')
def b_next(I, st, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        r = I.dunder(st, v, '__next__', [])
        if r is not None:
            return r
        o = st.get(v.key)
        if o is not None and o.kind == 'iter':
            iv = IterV((), ('obj', v.key))
        else:
            return [(st, Exc('TypeError', I.site, True))]
    elif isinstance(v, IterV):
        iv = v
    else:
        st.note('next of unknown')
        return [(st, Top('next'))]
    out = []
    for s, x, p in pull(I, st, iv, None):
        if x is STOP:
            out.append((s, args[1] if len(args) > 1 else Exc('StopIteration', I.site, True)))
        elif x is SYM:
            s.note('symbolic next')
            out.append((s, Top('next')))
        else:
            out.append((s, x))
    return out


@reg('builtins.getattr')
def b_getattr(I, st, args, kw):
    if not isinstance(args[1], K):
        st.note('getattr with computed name')
        return [(st, Top('getattr'))]
    r = I.getattr(st, args[0], args[1].v)
    if len(args) > 2:
        return [(s, args[2] if isinstance(v, Exc) and v.name == 'AttributeError' else v) for s, v in r]
    return r


@reg('builtins.setattr')
def b_setattr(I, st, args, kw):
    if not isinstance(args[1], K):
        st.note('setattr with computed name')
        return [(st, NONE)]
    return I.setattr(st, args[0], args[1].v, args[2])


@reg('builtins.hasattr')
def b_hasattr(I, st, args, kw):
    return [(s, K(not (isinstance(v, Exc) and v.name == 'AttributeError'))) for s, v in I.getattr(st, args[0], args[1].v)]


@reg('builtins.delattr')
def b_delattr(I, st, args, kw):
    from . import models as M
    return M.delattr(I, st, args[0], args[1].v)


@reg('builtins.vars')
def b_vars(I, st, args, kw):
    return I.getattr(st, args[0], '__dict__')


@reg('builtins.bin')
def b_bin(I, st, args, kw):
    from . import models as M
    p = I.num(args[0])
    if p is None:
        return [(st, Top('bin'))]
    out = []
    for s, d in M.bin_digits(I, st, p):
        out.append((s, opaque_str('bin', args[0]) if d is None else mkstr(str_segs(K('0b')) + tuple(One(x) for x in d))))
    return out


@reg('builtins.format')
def b_format(I, st, args, kw):
    from . import models as M
    if len(args) == 1:
        return call_type(I, st, 'str', args, {})
    return M.format_value(I, st, args[0], args[1])


@reg('builtins.divmod')
def b_divmod(I, st, args, kw):
    return bind(binop(I, st, ast.FloorDiv, args[0], args[1]), lambda s, q: bind(binop(I, s, ast.Mod, args[0], args[1]), lambda s2, r: [(s2, Tup.of(q, r))]))


@reg('builtins.pow', 'math.pow')
def b_pow(I, st, args, kw):
    return binop(I, st, ast.Pow, args[0], args[1])


@reg('builtins.callable')
def b_callable(I, st, args, kw):
    v = args[0]
    return [(st, K(isinstance(v, (Fn, Bound, Cls, Ext, BM, Partial)) or (isinstance(v, T) and v.typ == 'fn')))]


def _anyall(isany):
    def f(I, st, args, kw):
        def k(s, segs):
            cur = [(s, None)]
            for g in segs:
                nxt = []
                for s2, r in cur:
                    if r is not None:
                        nxt.append((s2, r))
                        continue
                    if not isinstance(g, One):
                        s2.note('any/all of symbolic list')
                        nxt.append((s2.clone(), isany))
                        nxt.append((s2, None))
                        continue
                    for s3, b in I.truth(s2, g.v):
                        nxt.append((s3, b if isinstance(b, Exc) else (isany if b == isany else None)))
                cur = nxt
            return [(s2, r if isinstance(r, Exc) else K((not isany) if r is None else r)) for s2, r in cur]
        return bind(collect(I, st, args[0]), k)
    return f


TABLE['builtins.any'] = _anyall(True)
TABLE['builtins.all'] = _anyall(False)


@reg('builtins.repr', 'builtins.ascii', 'builtins.hex', 'builtins.oct', 'builtins.chr')
def b_repr(I, st, args, kw):
    return [(st, opaque_str('repr', args[0]))]


@reg('builtins.ord')
def b_ord(I, st, args, kw):
    v = args[0]
    if isinstance(v, K):
        return [(st, N.const(ord(v.v)))]
    f = ops.char_form(st, v)
    if f is not None:
        return [(st, nv(N.const(48) + ops.gf_num(f)))]
    return [(st, fresh('ord', 'int'))]


@reg('builtins.locals')
def b_locals(I, st, args, kw):
    f = I.frame(st)
    if f.info.scopekind != 'fn':
        return b_dyn(I, st, args, kw)
    return [(st, Ref(st.alloc(Obj('dict', fields={K(k): v for k, v in f.fields.items() if k.isidentifier()}))))]


@reg('builtins.input', 'builtins.open', 'builtins.eval', 'builtins.exec', 'builtins.globals', 'builtins.dir')
def b_dyn(I, st, args, kw):
    st.note('dynamic builtin')
    return [(st, Top('dynamic'))]


@reg('copy.deepcopy')
def b_deepcopy(I, st, args, kw):
    return deepcopy(I, st, args[0])


@reg('copy.copy')
def b_copy(I, st, args, kw):
    return shallow(I, st, args[0])


@reg('functools.partial')
def b_partial(I, st, args, kw):
    return [(st, Partial(args[0], args[1:], kw))]


@reg('functools.wraps')
def b_wraps(I, st, args, kw):
    return [(st, Partial(Ext('functools.wraps'), args, {}))]


@reg('functools.cmp_to_key')
def b_cmpkey(I, st, args, kw):
    return [(st, Partial(Ext('cmp_to_key'), [args[0]], {}))]


@reg('functools.reduce')
def b_reduce(I, st, args, kw):
    def k(s, segs):
        if not all(isinstance(g, One) for g in segs):
            s.note('reduce of symbolic list')
            return [(s, Top('reduce'))]
        vals = [g.v for g in segs]
        if len(args) > 2:
            cur = [(s, args[2])]
        else:
            if not vals:
                return [(s, Exc('TypeError', I.site, True))]
            cur = [(s, vals[0])]
            vals = vals[1:]
        for v in vals:
            cur = bind(cur, lambda s2, acc, v=v: I.call(s2, args[0], [acc, v], {}))
        return cur
    return bind(collect(I, st, args[1]), k)


@reg('operator.itemgetter')
def b_ig(I, st, args, kw):
    return [(st, Getter('item', args))]


@reg('operator.attrgetter')
def b_ag(I, st, args, kw):
    return [(st, Getter('attr', args))]


@reg('statistics.mean', 'statistics.fmean')
def b_mean(I, st, args, kw):
    def k(s, segs):
        n = segs_len(segs)
        return bind(sum_segs(I, s, segs, N.const(0)), lambda s2, t: binop(I, s2, ast.Div, t, nv(n)))
    return bind(collect(I, st, args[0]), k)


def _bisect(right):
    def f(I, st, args, kw):
        key = kw.get('key')

        def k(s, segs):
            if not all(isinstance(g, One) for g in segs):
                s.note('bisect in symbolic list')
                t = fresh('bisect', 'int')
                s.assume(N.atom(t))
                s.assume(segs_len(segs) - N.atom(t))
                return [(s, t)]
            out = []
            cur = [s]
            for j, g in enumerate(segs):
                nxt = []
                for s2 in cur:
                    for s3, b in ops.order(I, s2, '<' if right else '<=', args[1], g.v):
                        if isinstance(b, Exc):
                            out.append((s3, b))
                        elif b:
                            out.append((s3, N.const(j)))
                        else:
                            nxt.append(s3)
                cur = nxt
            return out + [(s2, N.const(len(segs))) for s2 in cur]
        return bind(collect(I, st, args[0]), k)
    return f


TABLE['bisect.bisect'] = TABLE['bisect.bisect_right'] = _bisect(True)
TABLE['bisect.bisect_left'] = _bisect(False)


@reg('collections.defaultdict')
def b_dd(I, st, args, kw):
    df = args[0] if args and not (isinstance(args[0], K) and args[0].v is None) else None
    return [(st, Ref(st.alloc(Obj('dict', fields={}, info={'default': df}))))]


@reg('collections.Counter')
def b_counter(I, st, args, kw):
    d = Ref(st.alloc(Obj('dict', fields={}, info={'default': Partial(Ext('const0'), [], {})})))
    if not args:
        return [(st, d)]

    def k(s, segs):
        cur = [s]
        for g in segs:
            if not isinstance(g, One):
                s.note('counter of symbolic list')
                continue
            nxt = []
            for s2 in cur:
                for s3, v in dict_get(I, s2, d.key, g.v):
                    nxt.extend(s4 for s4, _ in dict_set(I, s3, d.key, g.v, nv(N.const(1) + (I.num(v) if v is not None else 0))))
            cur = nxt
        return [(s2, d) for s2 in cur]
    return bind(collect(I, st, args[0]), k)


@reg('const0')
def b_c0(I, st, args, kw):
    return [(st, N.const(0))]


@reg('heapq.nlargest', 'heapq.nsmallest')
def b_heap(I, st, args, kw):
    st.note('heapq')
    return [(st, Top('heapq'))]


@reg('contextlib.suppress')
def b_supp(I, st, args, kw):
    st.note('suppress')
    return [(st, Top('suppress'))]


@reg('gc.collect', 'sys.stdout.write', 'sys.stdout.flush')
def b_nop(I, st, args, kw):
    return [(st, NONE)]


def call_math(I, st, f, args, kw):
    p = I.num(args[0]) if args else None
    if p is None:
        st.note('math.' + f)
        return [(st, Top('math'))]
    if f == 'floor':
        return [(st, floor_of(I, st, p))]
    if f == 'ceil':
        return [(st, ceil_of(I, st, p))]
    if f == 'trunc':
        return trunc_of(I, st, p)
    if f == 'log2' and p.is_const() and p.cval() > 0:
        c = p.cval()
        if c.denominator == 1 and int(c) & (int(c) - 1) == 0:
            return [(st, NF(N.const(int(c).bit_length() - 1).d))]
        t = mk('log2', (p,), 'num')
        n = c.numerator // c.denominator
        if n >= 1:
            set_bounds(t, n.bit_length() - 1, n.bit_length(), True, True)
        return [(st, t)]
    if f in ('sqrt', 'log', 'log2', 'log10', 'exp', 'sin', 'cos', 'tan', 'exp2', 'log1p', 'atan', 'tanh'):
        t = mk(f, (p,) + tuple(I.num(x) for x in args[1:]), 'num')
        if f in ('sqrt',):
            set_bounds(t, 0)
        if f in ('exp', 'exp2'):
            set_bounds(t, 0, None, True)
        return [(st, t)]
    if f in ('isnan', 'isinf'):
        return [(st, FALSE)]
    if f == 'isfinite':
        return [(st, TRUE)]
    if f == 'isclose':
        return [(s, K(b)) for s, b in I.split_lit(st, ('isclose', p, I.num(args[1])))]
    if f in ('comb', 'gcd', 'lcm', 'factorial', 'isqrt', 'copysign', 'hypot', 'fmod', 'dist'):
        if all(I.num(x) is not None and I.num(x).is_const() for x in args) and f in ('comb', 'gcd', 'lcm', 'factorial', 'isqrt'):
            import math
            return [(st, N.const(getattr(math, f)(*[int(I.num(x).cval()) for x in args])))]
        return [(st, mk(f, tuple(I.num(x) for x in args), 'num'))]
    st.note('math.' + f)
    return [(st, Top('math.' + f))]


OPS = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod, 'pow': ast.Pow,
       'xor': ast.BitXor, 'and_': ast.BitAnd, 'or_': ast.BitOr, 'lshift': ast.LShift, 'rshift': ast.RShift, 'concat': ast.Add}
COPS = {'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'eq': ast.Eq, 'ne': ast.NotEq, 'is_': ast.Is, 'is_not': ast.IsNot}


def call_operator(I, st, f, args, kw):
    from . import models as M
    if f in OPS:
        return binop(I, st, OPS[f], args[0], args[1])
    if f in COPS:
        return I.compare(st, COPS[f], args[0], args[1])
    if f in ('neg', 'pos'):
        p = I.num(args[0])
        return [(st, nv(-p if f == 'neg' else p))]
    if f == 'not_':
        return [(s, b if isinstance(b, Exc) else K(not b)) for s, b in I.truth(st, args[0])]
    if f == 'truth':
        return [(s, b if isinstance(b, Exc) else K(b)) for s, b in I.truth(st, args[0])]
    if f == 'getitem':
        return I.getitem(st, args[0], args[1])
    if f == 'setitem':
        return I.setitem(st, args[0], args[1], args[2])
    if f == 'contains':
        return [(s, K(b)) for s, b in contains(I, st, args[0], args[1])]
    if f == 'index':
        return [(st, args[0])]
    if f == 'methodcaller':
        return [(st, Partial(Ext('methodcall'), args, kw))]
    st.note('operator.' + f)
    return [(st, Top('operator'))]


def call_itertools(I, st, f, args, kw):
    from . import models as M

    def lst(s, segs):
        return [(s, mkiter(s, IterV(tuple(segs))))]

    def expl(s, segs):
        if all(isinstance(g, One) for g in segs):
            return [g.v for g in segs]
        s.note('itertools.%s of symbolic sequence' % f)
        return []
    if f in ('chain', 'chain.from_iterable'):
        if f == 'chain.from_iterable':
            return bind(collect(I, st, args[0]), lambda s, g: call_itertools(I, s, 'chain', expl(s, g), {}))
        cur = [(st, ())]
        for a in args:
            cur = bind(cur, lambda s, acc, a=a: [(s2, g if isinstance(g, Exc) else acc + tuple(g)) for s2, g in collect(I, s, a)])
        return bind(cur, lst)
    if f == 'islice':
        iv = to_iterv(I, st, args[0])
        if isinstance(iv, (Exc, Top)):
            st.note('islice')
            return [(st, Top('islice'))]
        ns = [None if isinstance(x, K) and x.v is None else I.num(x) for x in args[1:]]
        if len(ns) == 1:
            a, b, c = N.const(0), ns[0], N.const(1)
        else:
            a, b, c = ns[0] or N.const(0), ns[1], (ns[2] if len(ns) > 2 else None) or N.const(1)
        infinite = iv.tag and iv.tag[0] in ('count', 'repeat', 'iterfn', 'obj', 'map')
        if not infinite:
            return bind(collect(I, st, args[0]), lambda s, g: bind(seq_slice(I, s, g, SliceV(nv(a), nv(b) if b is not None else None, nv(c) if c != N.const(1) else None)), lst))
        if b is not None and b.is_const() and a.is_const():
            cur = [(st, None, (), False)]
            for j in range(int(b.cval())):
                nxt = []
                for s, pos, acc, done in cur:
                    if done:
                        nxt.append((s, pos, acc, done))
                        continue
                    for s2, v, p in pull(I, s, iv, pos):
                        if v is STOP:
                            nxt.append((s2, p, acc, True))
                        elif isinstance(v, Exc) or v is SYM:
                            s2.note('islice')
                            nxt.append((s2, p, acc, True))
                        else:
                            nxt.append((s2, p, acc + (One(v),), False))
                cur = nxt
            return [x for s, _, acc, _ in cur for x in lst(s, acc[int(a.cval())::int(c.cval())])]
    if f == 'count':
        return [(st, mkiter(st, IterV((), ('count', I.num(args[0]) if args else N.const(0), I.num(args[1]) if len(args) > 1 else N.const(1)))))]
    if f == 'repeat':
        if len(args) > 1 or 'times' in kw:
            return bind(seq_repeat(I, st, (One(args[0]),), I.num(args[1] if len(args) > 1 else kw['times'])), lst)
        return [(st, mkiter(st, IterV((), ('repeat', args[0]))))]
    if f in ('accumulate',):
        fn = args[1] if len(args) > 1 else kw.get('func')
        init = kw.get('initial')

        def k(s, segs):
            vals = expl(s, segs)
            if init is not None and not (isinstance(init, K) and init.v is None):
                vals = [init] + vals
            if not vals:
                return lst(s, ())
            cur = [(s, (vals[0],))]
            for v in vals[1:]:
                def step(s2, acc, v=v):
                    r = binop(I, s2, ast.Add, acc[-1], v) if fn is None else I.call(s2, fn, [acc[-1], v], {})
                    return [(s3, x if isinstance(x, Exc) else acc + (x,)) for s3, x in r]
                cur = bind(cur, step)
            return bind(cur, lambda s2, acc: lst(s2, tuple(One(x) for x in acc)))
        return bind(collect(I, st, args[0]), k)
    if f in ('combinations', 'permutations', 'pairwise', 'product', 'zip_longest'):
        cur = [(st, ())]
        its = args if f in ('product', 'zip_longest') else args[:1]
        for a in its:
            cur = bind(cur, lambda s, acc, a=a: [(s2, g if isinstance(g, Exc) else acc + (expl(s2, g),)) for s2, g in collect(I, s, a)])

        def k(s, ls):
            if f == 'pairwise':
                r = list(zip(ls[0], ls[0][1:]))
            elif f == 'product':
                rp = int(I.num(kw['repeat']).cval()) if 'repeat' in kw else 1
                r = list(it.product(*ls, repeat=rp))
            elif f == 'zip_longest':
                r = list(it.zip_longest(*ls, fillvalue=kw.get('fillvalue', NONE)))
            else:
                n = I.num(args[1]) if len(args) > 1 else N.const(len(ls[0]))
                r = list(getattr(it, f)(ls[0], int(n.cval())))
            return lst(s, tuple(One(Tup.of(*x)) for x in r))
        return bind(cur, k)
    if f == 'starmap':
        return bind(collect(I, st, args[1]), lambda s, segs: _starmap(I, s, args[0], expl(s, segs)))
    if f in ('takewhile',):
        iv = to_iterv(I, st, args[1])
        if not isinstance(iv, (Exc, Top)):
            return [(st, mkiter(st, IterV((), ('takewhile', args[0], iv))))]
    if f == 'filterfalse':
        iv = to_iterv(I, st, args[1])
        if not isinstance(iv, (Exc, Top)):
            return [(st, mkiter(st, IterV((), ('filter', args[0], iv, False))))]
    if f == 'dropwhile':
        def k(s, segs):
            vals = expl(s, segs)
            out = []
            cur = [s]
            for j, v in enumerate(vals):
                nxt = []
                for s2 in cur:
                    for s3, b in I.truth_of(I.call(s2, args[0], [v], {})):
                        if b is True:
                            nxt.append(s3)
                        else:
                            out.extend(lst(s3, tuple(One(x) for x in vals[j:])))
                cur = nxt
            for s2 in cur:
                out.extend(lst(s2, ()))
            return out
        return bind(collect(I, st, args[1]), k)
    if f == 'groupby':
        def k(s, segs):
            vals = expl(s, segs)
            key = args[1] if len(args) > 1 else kw.get('key')
            cur = [(s, ())]
            for v in vals:
                nxt = []
                for s2, acc in cur:
                    for s3, kv in ([(s2, v)] if key is None else I.call(s2, key, [v], {})):
                        if isinstance(kv, Exc):
                            s3.note('groupby key')
                            continue
                        if acc:
                            for s4, b in eq(I, s3, acc[-1][0], kv):
                                nxt.append((s4, acc[:-1] + ((acc[-1][0], acc[-1][1] + (v,)),) if b else acc + ((kv, (v,)),)))
                        else:
                            nxt.append((s3, ((kv, (v,)),)))
                cur = nxt
            out = []
            for s2, acc in cur:
                out.extend(lst(s2, tuple(One(Tup.of(kv, mkiter(s2, IterV(tuple(One(x) for x in g))))) for kv, g in acc)))
            return out
        return bind(collect(I, st, args[0]), k)
    if f == 'compress':
        st.note('compress')
    if f == 'cycle':
        pass
    st.note('itertools.' + f)
    I.unmodelled.add('itertools.' + f)
    return [(st, Top('itertools.' + f))]


@reg('methodcall')
def b_mc(I, st, args, kw):
    # methodcaller(name, *args)(obj): the receiver arrives last
    name, rest, obj = args[0], args[1:-1], args[-1]
    return bind(I.getattr(st, obj, name.v), lambda s, m: I.call(s, m, rest, kw))


def _starmap(I, st, fn, vals):
    cur = [(st, ())]
    for v in vals:
        def step(s, acc, v=v):
            return bind(collect(I, s, v), lambda s2, g: [(s3, r if isinstance(r, Exc) else acc + (One(r),)) for s3, r in I.call(s2, fn, [x.v for x in g], {})])
        cur = bind(cur, step)
    return bind(cur, lambda s, acc: [(s, mkiter(s, IterV(acc)))])
