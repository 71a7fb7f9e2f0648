"""Models of builtins and of the parts of the standard library the repository (or a refactoring of it) may use."""
import ast
from .terms import N, T, mk, fresh, set_bounds, Fr, sym, BOUNDS, div
from .values import *
from . import ops, seqs
from .ops import binop, compare, eq, identical, floor_of, trunc_of, ceil_of, round_of, INF
from .seqs import *

LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', 'copy', 'clear',
                '__len__', '__iter__', '__getitem__', '__setitem__', '__delitem__', '__contains__', '__add__', '__iadd__', '__eq__', '__mul__',
                '__reversed__'}
DICT_METHODS = {'get', 'keys', 'values', 'items', 'update', 'pop', 'setdefault', 'copy', 'clear', 'fromkeys', 'popitem',
                '__getitem__', '__setitem__', '__contains__', '__len__', '__iter__', '__delitem__'}
SET_METHODS = {'add', 'update', 'remove', 'discard', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy',
               'pop', 'clear', 'symmetric_difference', 'isdisjoint', 'difference_update', 'intersection_update', '__len__', '__contains__'}
STR_METHODS = {m for m in dir(str)}


def install(I):
    pass


def bind(res, f):
    out = []
    for st, v in res:
        if isinstance(v, Exc):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    return out


# ------------------------------------------------------------------ external names
CONSTS = {
    'math.inf': nv(N.atom(INF)), 'math.pi': mk('sym', ('pi',), 'num'), 'math.e': mk('sym', ('e',), 'num'),
}
TYPE_ALIASES = {'collections.OrderedDict': 'dict', 'collections.deque': 'list', 'collections.UserList': 'list'}


def ext_value(full):
    if full in CONSTS:
        return CONSTS[full]
    if full in TYPE_ALIASES:
        return Cls(name=TYPE_ALIASES[full])
    if full.startswith('builtins.'):
        n = full[9:]
        from .interp import BUILTIN_TYPES, BUILTIN_EXC
        if n in BUILTIN_TYPES or n in BUILTIN_EXC:
            return Cls(name=n)
    return Ext(full)


# ------------------------------------------------------------------ subscripts
def getitem(I, st, o, i):
    if isinstance(o, Top):
        return [(st, Top(o.why))]
    if isinstance(i, Top):
        st.note('unknown index')
        return [(st, Top('index'))]
    if isinstance(o, Cls) and o.info is not None and o.info.enum:
        if isinstance(i, K) and not o.info.opaque:
            m = dict(o.info.members).get(i.v)
            return [(st, m if m is not None else Exc('KeyError', I.site, True))]
        st.note('enumeration subscript')
        return [(st, Top('enum'))]
    if isinstance(o, (Cls, Ext)):
        return [(st, o)]               # typing subscripts
    if isinstance(o, Ref):
        ob = st.get(o.key)
        if ob is None:
            st.note('subscript of unknown object')
            return [(st, Top('subscript'))]
        r = I.dunder(st, o, '__getitem__', [i])
        if r is not None:
            return r
        return raw_getitem(I, st, o, i)
    if isinstance(o, (Tup, StrV)) or is_str(o):
        segs = any_segs(st, o)
        if segs is None:
            return [(st, opaque_str('idx', o, i if not isinstance(i, SliceV) else K(None)))]
        if isinstance(i, SliceV):
            mkv = (lambda g: Tup(g)) if isinstance(o, Tup) else mkstr
            return [(s, g if isinstance(g, Exc) else mkv(g)) for s, g in seq_slice(I, st, segs, i)]
        p = I.num(i)
        if p is None:
            return [(st, Exc('TypeError', I.site, True))]
        return seq_at(I, st, segs, p)
    if isinstance(o, IterV):
        if o.tag and o.tag[0] == 'range':
            if isinstance(i, SliceV):
                return [(s, g if isinstance(g, Exc) else IterV(g, o.tag)) for s, g in seq_slice(I, st, o.segs, i)]
            return seq_at(I, st, o.segs, I.num(i))
        return [(st, Exc('TypeError', I.site, True))]
    if isinstance(o, T):
        h = o.info.get('getitem') if o.info else None
        if h:
            return h(I, st, i)
        if o.typ in ('any', 'val', 'obj'):
            st.note('subscript of opaque value')
            return [(st, Top('subscript'))]
        return [(st, Exc('TypeError', I.site, True, ('subscript',)))]
    return [(st, Exc('TypeError', I.site, True, ('subscript',)))]


def raw_getitem(I, st, o, i):
    ob = st.get(o.key)
    if ob.segs is not None and ob.kind != 'set':
        if isinstance(i, SliceV):
            return [(s, g if isinstance(g, Exc) else Ref(s.alloc(Obj('list', segs=g)))) for s, g in seq_slice(I, st, ob.segs, i)]
        p = I.num(i)
        if p is None:
            return [(st, Exc('TypeError', I.site, True, ('list index',)))]
        return seq_at(I, st, ob.segs, p)
    if ob.kind in ('dict', 'ns') or (ob.kind == 'inst' and ob.cls.info.dictlike):
        out = []
        for s, v in dict_get(I, st, o.key, i):
            if v is None:
                d = s.get(o.key)
                df = d.info.get('default') if isinstance(d.info, dict) else None
                if df is not None:
                    for s2, nvv in I.call(s, df, [], {}):
                        if isinstance(nvv, Exc):
                            out.append((s2, nvv))
                        else:
                            out.extend((s3, nvv) for s3, _ in dict_set(I, s2, o.key, i, nvv))
                    continue
                out.append((s, Exc('KeyError', I.site, True, (i,))))
            else:
                out.append((s, v))
        return out
    if ob.kind == 'iter' or ob.kind == 'set':
        return [(st, Exc('TypeError', I.site, True))]
    return [(st, Exc('TypeError', I.site, True, ('subscript',)))]


def setitem(I, st, o, i, v):
    if isinstance(o, Top) or isinstance(i, Top):
        st.note('write through unknown reference')
        return [(st, NONE)]
    if isinstance(o, Ref):
        ob = st.get(o.key)
        if ob is None:
            st.note('write to unknown object')
            return [(st, NONE)]
        r = I.dunder(st, o, '__setitem__', [i, v])
        if r is not None:
            return r
        if ob.kind in ('dict', 'ns') or (ob.kind == 'inst' and ob.cls.info.dictlike):
            return dict_set(I, st, o.key, i, v)
        if ob.segs is not None and ob.kind != 'set':
            if isinstance(i, SliceV):
                return set_slice(I, st, o, i, v)
            return set_at(I, st, o, i, (One(v),))
    if isinstance(o, T) and o.typ in ('any', 'obj', 'val'):
        st.note('write to opaque value')
        return [(st, NONE)]
    return [(st, Exc('TypeError', I.site, True, ('item assignment',)))]


def set_at(I, st, o, i, new):
    """replace element i by the segments `new` (empty = delete)"""
    p = I.num(i)
    if p is None:
        return [(st, Exc('TypeError', I.site, True))]
    segs = st.get(o.key).segs
    ln = segs_len(segs)
    p = ops.gf_norm(st, p)
    if p.is_const() and all(isinstance(s, One) for s in segs):
        k, n = int(p.cval()), len(segs)
        if not -n <= k < n:
            return [(st, Exc('IndexError', I.site, True))]
        k %= n
        I.mutate(st, o.key, 'item').segs = segs[:k] + tuple(new) + segs[k + 1:]
        return [(st, NONE)]
    out = []
    for s, nn in I.split(st, p):
        q = p if nn else p + ln
        for s2, ok in (I.split(s, ln - q - 1) if nn else I.split(s, q)):
            if not ok:
                out.append((s2, Exc('IndexError', I.site, True, 'maybe')))
                continue
            for s3, left, rest in cut(I, s2, segs, q):
                for s4, _, right in cut(I, s3, rest, 1):
                    I.mutate(s4, o.key, 'item').segs = norm_segs(left + tuple(new) + right)
                    out.append((s4, NONE))
    return out


def set_slice(I, st, o, sl, v):
    out = []
    for s, new in collect(I, st, v):
        if isinstance(new, Exc):
            out.append((s, new))
            continue
        segs = s.get(o.key).segs
        ln = segs_len(segs)
        if sl.c is not None and not (isinstance(sl.c, K)) and I.num(sl.c) != N.const(1):
            if all(isinstance(x, One) for x in segs + tuple(new)) and all(x is None or (I.num(x) is not None and I.num(x).is_const()) for x in (sl.a, sl.b, sl.c)):
                l = list(segs)
                try:
                    l[slice(*[None if x is None else int(I.num(x).cval()) for x in (sl.a, sl.b, sl.c)])] = list(new)
                except ValueError:
                    out.append((s, Exc('ValueError', I.site, True)))
                    continue
                I.mutate(s, o.key, 'slice').segs = tuple(l)
                out.append((s, NONE))
                continue
            s.note('strided slice assignment')
            out.append((s, NONE))
            continue
        for s2, lo in clamp(I, s, sl.a, ln, N.const(0)):
            for s3, hi in clamp(I, s2, sl.b, ln, ln):
                for s4, empty in I.split(s3, lo - hi):
                    h = lo if empty else hi
                    for s5, left, right in cut(I, s4, segs, h):
                        for s6, l2, _ in cut(I, s5, left, lo):
                            I.mutate(s6, o.key, 'slice').segs = norm_segs(l2 + tuple(new) + right)
                            out.append((s6, NONE))
    return out


def delitem(I, st, o, i):
    if isinstance(o, Ref):
        ob = st.get(o.key)
        if ob is not None and ob.segs is not None and ob.kind != 'set':
            if isinstance(i, SliceV):
                if i.c is not None and I.num(i.c) not in (None, N.const(1)) and all(isinstance(x, One) for x in ob.segs):
                    l = list(ob.segs)
                    del l[slice(*[None if x is None else int(I.num(x).cval()) for x in (i.a, i.b, i.c)])]
                    I.mutate(st, o.key, 'del').segs = tuple(l)
                    return [(st, NONE)]
                return set_slice(I, st, o, i, Tup(()))
            return set_at(I, st, o, i, ())
        if ob is not None and (ob.kind in ('dict', 'ns') or (ob.kind == 'inst' and ob.cls.info.dictlike)):
            return bind(call_method(I, st, o, 'pop', [i], {}), lambda s, _: [(s, NONE)])
    st.note('del of unknown item')
    return [(st, NONE)]


def delattr(I, st, o, name):
    if isinstance(o, Ref):
        ob = st.get(o.key)
        if ob is not None and ob.kind == 'inst':
            f = st.get(ob.ns).fields
            if name in f:
                I.mutate(st, ob.ns, name).fields.pop(name, None)
                return [(st, NONE)]
            return [(st, Exc('AttributeError', I.site, True, (name,)))]
    st.note('del attribute')
    return [(st, NONE)]


# ------------------------------------------------------------------ attributes of builtin values
def builtin_attr(I, st, o, name):
    kind = None
    if isinstance(o, Ref):
        ob = st.get(o.key)
        kind = ob.kind
        table = {'list': LIST_METHODS, 'dict': DICT_METHODS, 'ns': DICT_METHODS, 'set': SET_METHODS, 'iter': {'__next__', '__iter__'}}.get(kind, set())
        if kind == 'ns' and name in ob.fields:
            return [(st, ob.fields[name])]
        if name in table:
            return [(st, BM(o, name))]
        if name == '__class__':
            return [(st, Cls(name={'ns': 'dict', 'iter': 'iterator'}.get(kind, kind)))]
        if kind == 'obj':
            h = ob.info.get('attr') if isinstance(ob.info, dict) else None
            if name in ob.fields:
                return [(st, ob.fields[name])]
            if h:
                return h(I, st, o, name)
            return [(st, BM(o, name))]
        if kind == 'list' and name in ('popleft', 'appendleft', 'extendleft', 'rotate'):
            return [(st, BM(o, name))]
        return [(st, Exc('AttributeError', I.site, True, (name, kind)))]
    if is_str(o):
        if name in STR_METHODS:
            return [(st, BM(o, name))]
        return [(st, Exc('AttributeError', I.site, True, (name, 'str')))]
    if isinstance(o, Tup):
        if name in ('index', 'count', '__len__', '__iter__', '__contains__', '__getitem__'):
            return [(st, BM(o, name))]
        if o.nt is not None:
            ci = o.nt.info
            if name in ci.names:
                return [(st, o.segs[ci.names.index(name)].v)]
            if name == '_replace':
                return [(st, Partial(Ext('nt.replace'), [o], {}))]
            if name == '_asdict':
                return [(st, Partial(Ext('nt.asdict'), [o], {}))]
            if name == '_fields':
                return [(st, Tup.of(*[K(n) for n in ci.names]))]
            v, _ = I.class_lookup(st, ci.mro, name)
            if isinstance(v, Partial) and isinstance(v.fn, Ext) and v.fn.name == 'deco.property':
                return I.call(st, v.args[0], [o], {})
            if v is not None:
                return [(st, I.bind_attr(v, o, o.nt))]
        return [(st, Exc('AttributeError', I.site, True, (name, 'tuple')))]
    if isinstance(o, IterV):
        if o.tag and o.tag[0] == 'range' and name in ('start', 'stop', 'step'):
            return [(st, nv(o.tag[1 + ('start', 'stop', 'step').index(name)]))]
        return [(st, BM(o, name))]
    if isinstance(o, Partial):
        if name in ('setter', 'getter', 'deleter'):
            return [(st, BM(o, name))]
        return [(st, Top('partial attr'))]
    if isinstance(o, K) and o.v is None:
        return [(st, Exc('AttributeError', I.site, True, (name, 'NoneType')))]
    if isinstance(o, (N,)) or (isinstance(o, T) and o.typ in ('int', 'num', 'float')) or isinstance(o, K):
        if name in ('bit_length', 'is_integer', 'as_integer_ratio', 'real', '__class__', 'bit_count', '__abs__', '__add__', '__lt__', '__gt__'):
            return [(st, BM(o, name))]
        return [(st, Exc('AttributeError', I.site, True, (name, 'number')))]
    if isinstance(o, T):
        h = o.info.get('attr') if o.info else None
        if h:
            return h(I, st, o, name)
        st.note('attribute of opaque value')
        return [(st, Top('attr ' + name))]
    st.note('attribute %s of %s' % (name, type(o).__name__))
    return [(st, Top('attr ' + name))]


# ------------------------------------------------------------------ methods
def call_method(I, st, recv, name, args, kw):
    if name.startswith('\0list.'):
        name = name[6:]
    if isinstance(recv, Ref):
        o = st.get(recv.key)
        if o is None:
            st.note('method of unknown object')
            return [(st, Top('method'))]
        if name == '__init__':
            if o.segs is not None and args:
                return list_method(I, st, recv, 'extend', args, kw)
            return [(st, NONE)]
        if name == '__setattr__':
            return I.raw_setattr(st, recv, args[0].v, args[1])
        if o.kind == 'set':
            return set_method(I, st, recv, name, args, kw)
        if o.segs is not None:
            return list_method(I, st, recv, name, args, kw)
        if o.kind in ('dict', 'ns') or (o.kind == 'inst' and o.cls.info.dictlike):
            return dict_method(I, st, recv, name, args, kw)
        if o.kind == 'iter':
            if name == '__next__':
                return call_ext(I, st, 'builtins.next', [recv], {})
            return [(st, recv)]
        if o.kind == 'obj':
            h = o.info.get('call') if isinstance(o.info, dict) else None
            if h:
                return h(I, st, recv, name, args, kw)
        if name in ('__repr__', '__str__'):
            return [(st, opaque_str('repr', recv))]
    if is_str(recv):
        return str_method(I, st, recv, name, args, kw)
    if isinstance(recv, Tup):
        return list_method(I, st, recv, name, args, kw)
    if isinstance(recv, IterV):
        if name in ('index', 'count', '__len__', '__contains__', '__getitem__'):
            return list_method(I, st, Tup(recv.segs), name, args, kw)
        if name == 'isdisjoint':
            pass
    if isinstance(recv, (N, T)):
        p = I.num(recv)
        if name == 'bit_length' and p is not None:
            if p.is_const():
                return [(st, N.const(int(p.cval()).bit_length()))]
            bits = ops.to_bits(st, p)
            if bits is not None:
                return msb_split(I, st, bits)
            t = mk('bitlen', (p,), 'int')
            set_bounds(t, 0)
            return [(st, t)]
        if name == 'is_integer' and p is not None and p.is_const():
            return [(st, K(p.cval().denominator == 1))]
    st.note('method %s' % name)
    I.unmodelled.add('method ' + name)
    return [(st, Top('method ' + name))]


def msb_split(I, st, bits):
    out = []
    cur = st
    for k in range(len(bits) - 1, -1, -1):
        s1 = cur.clone()
        if ops.gf_assume(s1, bits[k] ^ frozenset([1])):
            out.append((s1, N.const(k + 1)))
        if not ops.gf_assume(cur, bits[k]):
            return out
    out.append((cur, N.const(0)))
    return out


def list_method(I, st, recv, name, args, kw):
    segs = any_segs(st, recv)
    if name in ('__len__',):
        return [(st, nv(segs_len(segs)))]
    if name == '__getitem__':
        return raw_getitem(I, st, recv, args[0]) if isinstance(recv, Ref) else getitem(I, st, recv, args[0])
    if name == '__setitem__':
        return set_at(I, st, recv, args[0], (One(args[1]),)) if not isinstance(args[0], SliceV) else set_slice(I, st, recv, args[0], args[1])
    if name == '__delitem__':
        return delitem(I, st, recv, args[0])
    if name == '__contains__':
        return [(s, K(b)) for s, b in seg_contains(I, st, segs, args[0])]
    if name == '__iter__':
        return [(st, mkiter(st, to_iterv(I, st, recv)))]
    if name == '__reversed__':
        return call_ext(I, st, 'builtins.reversed', [recv], {})
    if name == '__add__':
        return binop(I, st, ast.Add, recv, args[0])
    if name == '__eq__':
        return [(s, K(b)) for s, b in eq(I, st, recv, args[0])]
    if name in ('append',):
        o = I.mutate(st, recv.key, 'append')
        o.segs = norm_segs(o.segs + (One(args[0]),))
        return [(st, NONE)]
    if name in ('extend', '__iadd__'):
        def k(s, new):
            o = I.mutate(s, recv.key, 'extend')
            o.segs = norm_segs(o.segs + tuple(new))
            return [(s, recv if name == '__iadd__' else NONE)]
        return bind(collect(I, st, args[0]), k)
    if name == 'appendleft':
        o = I.mutate(st, recv.key, 'append')
        o.segs = norm_segs((One(args[0]),) + o.segs)
        return [(st, NONE)]
    if name == 'popleft':
        return list_method(I, st, recv, 'pop', [N.const(0)], {})
    if name == 'rotate':
        p = I.num(args[0]) if args else N.const(1)
        n = len(segs)
        if p is not None and p.is_const() and all(isinstance(x, One) for x in segs) and n:
            k = int(p.cval()) % n
            I.mutate(st, recv.key, 'rotate').segs = segs[n - k:] + segs[:n - k]
            return [(st, NONE)]
    if name in ('insert', 'pop') and args and (args[0] == NONE or isinstance(args[0], K) and isinstance(args[0].v, str)):
        return [(st, Exc('TypeError', I.site, True, (name,)))]
    if name == 'insert':
        p = I.num(args[0])
        if p is None:
            st.note('insert at unknown position')
            return [(st, NONE)]
        out = []
        for s, pos in clamp(I, st, nv(p), segs_len(segs), N.const(0)):
            for s2, l, r in cut(I, s, segs, pos):
                I.mutate(s2, recv.key, 'insert').segs = norm_segs(l + (One(args[1]),) + r)
                out.append((s2, NONE))
        return out
    if name == 'pop':
        i = args[0] if args else N.const(-1)

        def k(s, v):
            def k2(s2, _):
                return [(s2, v)]
            return bind(set_at(I, s, recv, i, ()), k2)
        return bind(seq_at(I, st, segs, I.num(i)), k)
    if name == 'clear':
        I.mutate(st, recv.key, 'clear').segs = ()
        return [(st, NONE)]
    if name == 'reverse':
        I.mutate(st, recv.key, 'reverse').segs = reverse_segs(st, segs)
        return [(st, NONE)]
    if name == 'copy':
        return [(st, Ref(st.alloc(Obj('list', segs=segs))))]
    if name in ('index', 'remove'):
        return index_of(I, st, recv, segs, args, name)
    if name == 'count':
        cur = [(st, N.const(0))]
        for g in segs:
            nxt = []
            for s, c in cur:
                if not isinstance(g, One):
                    s.note('count in symbolic list')
                    nxt.append((s, c))
                    continue
                nxt.extend((s2, c + (1 if b else 0)) for s2, b in eq(I, s, g.v, args[0]))
            cur = nxt
        return [(s, nv(c)) for s, c in cur]
    if name == 'sort':
        def k(s, new):
            I.mutate(s, recv.key, 'sort').segs = new
            s.ev('sorted', recv.key, kw.get('reverse', FALSE))
            return [(s, NONE)]
        return bind(sort_segs(I, st, segs, kw.get('key'), kw.get('reverse')), k)
    st.note('list method %s' % name)
    return [(st, Top('list.' + name))]


def index_of(I, st, recv, segs, args, name):
    out = []
    cur = [st]
    lo = 0
    if name == 'index' and len(args) > 1:
        p = I.num(args[1])
        if p is None or not p.is_const():
            st.note('index with symbolic start')
            return [(st, Top('index'))]
        lo = int(p.cval())
        lo = max(0, lo + len(segs)) if lo < 0 else lo
    off = N.const(0)
    for j, g in enumerate(segs):
        nxt = []
        for s in cur:
            if isinstance(g, One):
                if j < lo:
                    nxt.append(s)
                    continue
                for s2, b in eq(I, s, g.v, args[0]):
                    if b:
                        if name == 'index':
                            out.append((s2, nv(off)))
                        else:
                            o = I.mutate(s2, recv.key, 'remove')
                            o.segs = o.segs[:j] + o.segs[j + 1:]
                            out.append((s2, NONE))
                    else:
                        nxt.append(s2)
            else:
                s.note('index in symbolic list')
                out.append((s, Top('index') if name == 'index' else NONE))
        cur = nxt
        off = off + seg_len(g)
    return out + [(s, Exc('ValueError', I.site, True)) for s in cur]


def sort_segs(I, st, segs, key, reverse):
    """stable sort by case distinction on the order of the keys -> [(st, segs|Exc)]"""
    segs = norm_segs(segs)
    rev = False
    if reverse is not None:
        r = I.truth(st, reverse)
        if len(r) != 1:
            return [x for s, b in r for x in sort_segs(I, s, segs, key, K(b))]
        rev = r[0][1]
    if not all(isinstance(s, One) for s in segs):
        if len(segs) == 1 and isinstance(segs[0], Sl) and key is None and 'range' in segs[0].base.meta:
            a, c = segs[0].base.meta['range']
            if c.is_const() and (c.cval() > 0) != rev and not segs[0].rev:
                return [(st, segs)]
        st.note('sort of symbolic list')
        return [(st, segs)]
    vals = [s.v for s in segs]
    cur = [(st, [])]
    for v in vals:
        nxt = []
        for s, ks in cur:
            if isinstance(ks, Exc):
                nxt.append((s, ks))
            elif key is None or (isinstance(key, K) and key.v is None):
                nxt.append((s, ks + [v]))
            elif isinstance(key, Partial) and isinstance(key.fn, Ext) and key.fn.name == 'cmp_to_key':
                nxt.append((s, ks + [('cmp', key.args[0], v)]))
            else:
                for s2, kv in I.call(s, key, [v], {}):
                    nxt.append((s2, kv if isinstance(kv, Exc) else ks + [kv]))
        cur = nxt
    out = []
    for s, ks in cur:
        if isinstance(ks, Exc):
            out.append((s, ks))
            continue
        states = [(s, [])]
        for i in range(len(vals)):
            nxt = []
            for s2, acc in states:
                if isinstance(acc, Exc):
                    nxt.append((s2, acc))
                else:
                    nxt.extend(_insert(I, s2, acc, len(acc), (ks[i], vals[i]), rev))
            states = nxt
        out.extend((s2, a if isinstance(a, Exc) else tuple(One(v) for _, v in a)) for s2, a in states)
    return out


def _key_lt(I, st, a, b):
    if isinstance(a, tuple) and a and a[0] == 'cmp':
        return bind_b(I.call(st, a[1], [a[2], b[2]], {}), lambda s, v: ops.order(I, s, '<', v, N.const(0)))
    return ops.order(I, st, '<', a, b)


def bind_b(res, f):
    out = []
    for s, v in res:
        out.extend([(s, v)] if isinstance(v, Exc) else f(s, v))
    return out


def _insert(I, st, acc, pos, item, rev):
    """insertion from the right, stable"""
    if pos == 0:
        return [(st, [item] + acc)]
    prev = acc[pos - 1]
    # move left while item precedes prev strictly
    r = _key_lt(I, st, prev[0], item[0]) if rev else _key_lt(I, st, item[0], prev[0])
    out = []
    for s, b in r:
        if isinstance(b, Exc):
            out.append((s, b))
        elif b:
            out.extend(_insert(I, s, acc, pos - 1, item, rev))
        else:
            out.append((s, acc[:pos] + [item] + acc[pos:]))
    return out


def dict_method(I, st, recv, name, args, kw):
    key = recv.key
    if name in ('keys', 'values', 'items'):
        return [(st, IterV((), (name, key)))]
    if name == '__iter__':
        return [(st, mkiter(st, IterV((), ('keys', key))))]
    if name == '__len__':
        f = dict_fields(I, st, recv)
        return [(st, N.const(len(f)))]
    if name == '__contains__':
        return [(s, K(v is not None)) for s, v in dict_get(I, st, key, args[0])]
    if name == '__getitem__':
        return raw_getitem(I, st, recv, args[0])
    if name == '__setitem__':
        return dict_set(I, st, key, args[0], args[1])
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return [(s, d if v is None else v) for s, v in dict_get(I, st, key, args[0])]
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, v in dict_get(I, st, key, args[0]):
            if v is None:
                out.extend((s2, d) for s2, _ in dict_set(I, s, key, args[0], d))
            else:
                out.append((s, v))
        return out
    if name == 'pop':
        out = []
        for s, v in dict_get(I, st, key, args[0]):
            if v is None:
                out.append((s, args[1] if len(args) > 1 else Exc('KeyError', I.site, True, (args[0],))))
            else:
                o = s.get(key)
                kk = hkey(I, s, args[0])
                if o.kind == 'ns':
                    kk = kk.v
                if o.lazy is not None:
                    dict_fields(I, s, recv)
                    s.mut(key).lazy = None
                I.mutate(s, key, kk).fields.pop(kk, None)
                out.append((s, v))
        return out
    if name == 'update':
        cur = [(st, NONE)]
        srcs = list(args)
        for a in srcs:
            nxt = []
            for s, _ in cur:
                f = dict_fields(I, s, a)
                if f is None:
                    for s2, segs in collect(I, s, a):
                        if isinstance(segs, Exc):
                            nxt.append((s2, segs))
                            continue
                        for s3, d in make_dict(I, s2, segs):
                            f = dict_fields(I, s3, d)
                            for k, v in f.items():
                                I.write_field(s3, key, k.v if s3.get(key).kind == 'ns' and isinstance(k, K) else k, v)
                            nxt.append((s3, NONE))
                    continue
                for k, v in f.items():
                    I.write_field(s, key, k.v if s.get(key).kind == 'ns' and isinstance(k, K) else k, v)
                nxt.append((s, NONE))
            cur = nxt
        for s, _ in cur:
            for k, v in kw.items():
                I.write_field(s, key, k if s.get(key).kind == 'ns' else K(k), v)
        return cur
    if name == 'copy':
        return [(st, Ref(st.alloc(Obj('dict', fields=dict_fields(I, st, recv)))))]
    if name == 'clear':
        o = I.mutate(st, key, 'clear')
        o.fields = {}
        o.lazy = None
        return [(st, NONE)]
    if name == 'fromkeys':
        return call_ext(I, st, 'cls:dict.fromkeys', args, kw)
    if name == 'popitem':
        f = dict_fields(I, st, recv)
        if not f:
            return [(st, Exc('KeyError', I.site, True))]
        k = list(f)[-1]
        I.mutate(st, key, k).fields.pop(k)
        return [(st, Tup.of(k, f[k]))]
    st.note('dict method ' + name)
    return [(st, Top('dict.' + name))]


def set_method(I, st, recv, name, args, kw):
    key = recv.key
    o = st.get(key)
    if name == '__len__':
        if (o.info or {}).get('symbolic'):
            t = mk('setlen', (o.segs,), 'int')
            set_bounds(t, 0, segs_len(o.segs))
            return [(st, t)]
        return [(st, N.const(len(o.segs)))]
    if name == 'add':
        I.mutate(st, key, 'add')
        return [(s, e if isinstance(e, Exc) else NONE) for s, e in set_add(I, st, key, (One(args[0]),))]
    if name == 'update':
        I.mutate(st, key, 'update')
        cur = [(st, NONE)]
        for a in args:
            cur = [x for s, _ in cur for s2, segs in collect(I, s, a) for x in set_add(I, s2, key, segs)]
        return cur
    if name == '__contains__':
        return [(s, K(b)) for s, b in seg_contains(I, st, o.segs, args[0])]
    if name in ('remove', 'discard'):
        out = []
        cur = [st]
        for g in o.segs:
            nxt = []
            for s in cur:
                for s2, b in eq(I, s, g.v, args[0]):
                    if b:
                        ob = I.mutate(s2, key, 'remove')
                        ob.segs = tuple(x for x in ob.segs if x is not g)
                        out.append((s2, NONE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, NONE if name == 'discard' else Exc('KeyError', I.site, True)) for s in cur]
    if name == 'copy':
        return [(st, Ref(st.alloc(Obj('set', segs=o.segs, info=o.info))))]
    if name == 'clear':
        I.mutate(st, key, 'clear').segs = ()
        return [(st, NONE)]
    if name == 'pop' and all(isinstance(g, One) for g in o.segs):
        if not o.segs:
            return [(st, Exc('KeyError', I.site, True))]
        st.ev('setorder', I.site)
        from .seqs import set_order
        g = set_order(I, o.segs)[0]
        ob = I.mutate(st, key, 'pop')
        ob.segs = tuple(x for x in ob.segs if x is not g)
        return [(st, g.v)]
    bop = {'union': ast.BitOr, 'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor,
           'difference_update': ast.Sub, 'intersection_update': ast.BitAnd}.get(name)
    if bop is not None:
        out = []
        cur = [(st, recv)]
        for a in args:
            nxt = []
            for s, r in cur:
                for s2, segs in collect(I, s, a):
                    if isinstance(segs, Exc):
                        out.append((s2, segs))
                        continue
                    for s3, b in make_set(I, s2, segs):
                        nxt.extend(set_binop(I, s3, bop, r, b))
            cur = nxt
        if name.endswith('_update'):
            for s, r in cur:
                I.mutate(s, key, name).segs = s.get(r.key).segs
            return out + [(s, NONE) for s, _ in cur]
        return out + cur
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        out = []
        for s, segs in collect(I, st, args[0]):
            if name == 'issuperset':
                a, b, want = segs, s.get(key).segs, True
            else:
                a, b, want = s.get(key).segs, segs, name == 'issubset'
            cur = [(s, True)]
            for g in a:
                cur = [y for s2, ok in cur for y in ([(s2, False)] if not ok else [(s3, c == want) for s3, c in seg_contains(I, s2, b, g.v)])]
            out.extend((s2, K(ok)) for s2, ok in cur)
        return out
    st.note('set method ' + name)
    return [(st, Top('set.' + name))]


def str_method(I, st, recv, name, args, kw):
    if name == 'join':
        def k(s, segs):
            out = ()
            if not all(isinstance(g, One) for g in segs):
                if isinstance(recv, K) and recv.v == '' and all(isinstance(g, (One, Sl)) for g in segs):
                    return [(s, mkstr(tuple(segs)))]
                return [(s, opaque_str('join', recv, tuple(segs)))]
            for j, g in enumerate(segs):
                if not is_str(g.v):
                    return [(s, Exc('TypeError', I.site, True, ('join',)))]
                p = str_segs(g.v)
                q = str_segs(recv)
                if p is None or q is None:
                    return [(s, opaque_str('join', recv, tuple(segs)))]
                out = out + (q if j else ()) + p
            return [(s, mkstr(out))]
        return bind(collect(I, st, args[0]), k)
    if isinstance(recv, K) and all(isinstance(a, K) or (isinstance(a, N) and a.is_const()) for a in args) and not kw and name != 'format':
        pa = [a.v if isinstance(a, K) else int(a.cval()) for a in args]
        try:
            r = getattr(recv.v, name)(*pa)
        except Exception as e:
            return [(st, Exc(type(e).__name__, I.site, True))]
        return [(st, lift(st, r))]
    if name == 'format':
        return [(st, opaque_str('format', recv, tuple(args), tuple(sorted(kw.items()))))]
    segs = str_segs(recv)
    if segs is not None and name in ('zfill', 'rjust', 'ljust', 'center'):
        w = I.num(args[0])
        ch = args[1] if len(args) > 1 else (K('0') if name == 'zfill' else K(' '))
        ln = segs_len(segs)
        if w is not None:
            out = []
            for s, need in I.split(st, w - ln, True):
                if not need:
                    out.append((s, recv))
                    continue
                for s2, pad in seq_repeat(I, s, (One(ch),), w - ln):
                    out.append((s2, mkstr(pad + segs if name in ('zfill', 'rjust') else segs + pad)))
            return out
    if segs is not None and name in ('count', 'index', 'find') and all(isinstance(g, One) for g in segs):
        r = list_method(I, st, Tup(segs), 'index' if name != 'count' else 'count', args, {})
        if name == 'find':
            return [(s, N.const(-1) if isinstance(v, Exc) else v) for s, v in r]
        return r
    if segs is not None and name in ('lstrip', 'removeprefix') and args and isinstance(args[0], K):
        cur = list(segs)
        if name == 'removeprefix':
            pre = args[0].v
            if all(isinstance(g, One) and isinstance(g.v, K) for g in cur[:len(pre)]) and ''.join(g.v.v for g in cur[:len(pre)]) == pre:
                return [(st, mkstr(cur[len(pre):]))]
        else:
            out = []
            work = [(st, cur)]
            while work:
                s, c = work.pop()
                if not c or not isinstance(c[0], One):
                    out.append((s, mkstr(c)))
                    continue
                for s2, b in seg_contains(I, s, tuple(One(K(x)) for x in args[0].v), c[0].v):
                    if b:
                        work.append((s2, c[1:]))
                    else:
                        out.append((s2, mkstr(c)))
            return out
    if name in ('translate', 'replace') and segs is not None:
        st.note('string method ' + name)
        return [(st, Top('str.' + name))]
    if name in ('upper', 'lower', 'strip', 'capitalize', 'title', 'encode'):
        return [(st, opaque_str(name, recv))]
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'isdecimal'):
        return [(s, K(b)) for s, b in I.split_lit(st, ('strpred', name, recv, tuple(args)))]
    st.note('string method ' + name)
    return [(st, Top('str.' + name))]


def lift(st, r):
    """python constant -> abstract value"""
    from .interp import Interp
    if isinstance(r, (list,)):
        return Ref(st.alloc(Obj('list', segs=tuple(One(lift(st, x)) for x in r))))
    if isinstance(r, tuple):
        return Tup.of(*[lift(st, x) for x in r])
    if isinstance(r, dict):
        return Ref(st.alloc(Obj('dict', fields={lift(st, k): lift(st, v) for k, v in r.items()})))
    if isinstance(r, Fr):
        return N.const(r)
    return Interp.const(r)


def fstring(I, st, parts, vals):
    out = [(st, K(''))]
    for p, v in zip(parts, vals):
        nxt = []
        for s, acc in out:
            if isinstance(p, ast.Constant):
                nxt.append((s, str_concat(acc, v)))
                continue
            spec = p.format_spec
            if spec is None and p.conversion == -1:
                if is_str(v):
                    nxt.append((s, str_concat(acc, v)))
                elif isinstance(v, N) and v.is_const() and v.cval().denominator == 1 and not isinstance(v, NF):
                    nxt.append((s, str_concat(acc, K(str(int(v.cval()))))))
                else:
                    nxt.append((s, opaque_str('f', acc, v if not isinstance(v, (SuperV, SliceV)) else K('x'))))
                continue
            if spec is not None:
                for s2, sp in I.ev(spec, s):
                    if isinstance(sp, Exc):
                        nxt.append((s2, sp))
                        continue
                    for s3, r in format_value(I, s2, v, sp):
                        nxt.append((s3, str_concat(acc, r) if is_str(r) else opaque_str('f', acc, K('spec'))))
                continue
            nxt.append((s, opaque_str('f', acc, K('conv'))))
        out = nxt
    return out


def format_value(I, st, v, sp):
    p = I.num(v)
    if isinstance(sp, K) and p is not None and sp.v.endswith('b'):
        body = sp.v[:-1]
        pre = ''
        if body.startswith('#'):
            body = body[1:]
            pre = '0b'
        zero = body.startswith('0')
        w = int(body) if body else 0
        out = []
        for s, b in bin_digits(I, st, p):
            if b is None:
                out.append((s, opaque_str('bin', v)))
                continue
            n = len(b)
            pad = ('0' if zero else ' ') * max(0, w - n - len(pre))
            out.append((s, mkstr(str_segs(K(pre + pad)) + tuple(One(x) for x in b))))
        return out
    return [(st, opaque_str('fmt', v, sp))]


def bin_digits(I, st, p):
    """binary digits, most significant first, without prefix -> [(st, list | None)]"""
    p = ops.gf_norm(st, p)
    if p.is_const() and p.cval().denominator == 1 and p.cval() >= 0:
        return [(st, [K(c) for c in bin(int(p.cval()))[2:]])]
    bits = ops.to_bits(st, p)
    if bits is None:
        return [(st, None)]
    out = []
    for s, n in msb_split(I, st, bits):
        k = int(n.cval())
        if k == 0:
            out.append((s, [K('0')]))
        else:
            out.append((s, [ops.bitchar(ops.gf_reduce(s, bits[i])) for i in range(k - 1, -1, -1)]))
    return out


def dataclass(I, st, ci, node):
    st.note('decorated class %s' % ci.name)


def enter(I, st, v):
    if isinstance(v, Ref):
        r = I.dunder(st, v, '__enter__', [])
        if r is not None:
            return r
    if isinstance(v, Ext) or isinstance(v, Top):
        return [(st, Top('context'))]
    st.note('context manager')
    return [(st, Top('context'))]


def call_getter(I, st, g, args):
    v = args[0]
    cur = [(st, [])]
    for k in g.keys:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Exc):
                nxt.append((s, acc))
                continue
            r = getitem(I, s, v, k) if g.kind == 'item' else (I.getattr(s, v, k.v) if g.kind == 'attr' else None)
            nxt.extend((s2, x if isinstance(x, Exc) else acc + [x]) for s2, x in r)
        cur = nxt
    return [(s, a if isinstance(a, Exc) else (a[0] if len(a) == 1 else Tup.of(*a))) for s, a in cur]


from .stdlib import call_ext, call_type, deepcopy     # noqa: E402
