"""Abstract values, list segments, heap objects and states."""
from .terms import N, T, mk, fresh, Facts, set_bounds, BOUNDS, Fr, _BY_UID, infeasible, relevant


class K:
    """non-numeric constant"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(('K', self.v))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


class NF(N):
    """float constant (numerically an N; remembers it is a float)"""
    __slots__ = ()


class Ref:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Ref) and self.key == o.key

    def __hash__(self):
        return hash(('R', self.key))

    def __repr__(self):
        return '&%r' % (self.key,)


class Tup:
    __slots__ = ('segs', 'nt')       # nt: class of a named tuple

    def __init__(self, segs, nt=None):
        self.segs = tuple(segs)
        self.nt = nt

    @staticmethod
    def of(*vals):
        return Tup(One(v) for v in vals)

    def items(self):
        if all(isinstance(s, One) for s in self.segs):
            return [s.v for s in self.segs]
        return None

    def __eq__(self, o):
        return isinstance(o, Tup) and self.segs == o.segs

    def __hash__(self):
        return hash(('Tup', self.segs))

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.segs))


class StrV:
    """string known as a sequence of segments"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __eq__(self, o):
        return isinstance(o, StrV) and self.segs == o.segs

    def __hash__(self):
        return hash(('StrV', self.segs))

    def __repr__(self):
        return 'str<%s>' % ','.join(map(repr, self.segs))


class Top:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'TOP<%s>' % self.why


class Undef(Top):
    __slots__ = ()


class Fn:
    __slots__ = ('info', 'closure')

    def __init__(self, info, closure):
        self.info, self.closure = info, closure

    def __eq__(self, o):
        return isinstance(o, Fn) and self.info is o.info and self.closure == o.closure

    def __hash__(self):
        return hash((id(self.info), self.closure))

    def __repr__(self):
        return '<fn %s>' % self.info.name


class Bound:
    __slots__ = ('fn', 'recv')

    def __init__(self, fn, recv):
        self.fn, self.recv = fn, recv

    def __eq__(self, o):
        return isinstance(o, Bound) and self.fn == o.fn and self.recv == o.recv

    def __hash__(self):
        return hash(('B', self.fn, self.recv))

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.recv)


class Cls:
    """repo class (info) or builtin/external class (name)"""
    __slots__ = ('info', 'name')

    def __init__(self, info=None, name=None):
        self.info = info
        self.name = name or info.name

    def __eq__(self, o):
        return isinstance(o, Cls) and (self.info is o.info) and self.name == o.name

    def __hash__(self):
        return hash(('C', self.name))

    def __repr__(self):
        return '<class %s>' % self.name


class Ext:
    """external function/module/constant, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(('E', self.name))

    def __repr__(self):
        return '<ext %s>' % self.name


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mod) and self.name == o.name

    def __hash__(self):
        return hash(('M', self.name))


class BM:
    """builtin method bound to a receiver"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, BM) and self.recv == o.recv and self.name == o.name

    def __hash__(self):
        return hash(('BM', self.recv, self.name))

    def __repr__(self):
        return '<builtin %s of %r>' % (self.name, self.recv)


class SuperV:
    __slots__ = ('cls', 'recv')

    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Partial:
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw.items()))

    def __eq__(self, o):
        return isinstance(o, Partial) and (self.fn, self.args, self.kw) == (o.fn, o.args, o.kw)

    def __hash__(self):
        return hash(('P', self.fn, self.args))


class Getter:
    """operator.itemgetter / attrgetter"""
    __slots__ = ('kind', 'keys')

    def __init__(self, kind, keys):
        self.kind, self.keys = kind, tuple(keys)

    def __eq__(self, o):
        return isinstance(o, Getter) and (self.kind, self.keys) == (o.kind, o.keys)

    def __hash__(self):
        return hash(('G', self.kind, self.keys))


class IterV:
    """lazily enumerable value: list of iteration segments (range, enumerate, zip, generator ...)"""
    __slots__ = ('segs', 'tag')

    def __init__(self, segs, tag=None):
        self.segs = tuple(segs)
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, IterV) and self.segs == o.segs

    def __hash__(self):
        return hash(('I', len(self.segs)))

    def __repr__(self):
        return 'iter<%s>' % ','.join(map(repr, self.segs))


class SliceV:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Exc:
    __slots__ = ('name', 'site', 'implicit', 'args')

    def __init__(self, name, site=None, implicit=False, args=()):
        self.name, self.site, self.implicit, self.args = name, site, implicit, args

    def __repr__(self):
        return 'raise %s@%s' % (self.name, self.site)


def nv(p):
    """canonical numeric value"""
    if isinstance(p, N):
        t = p.as_atom()
        return t if t is not None else p
    return p


NUMT = ('int', 'num', 'float', 'bool', 'any', 'nn')


def to_num(v):
    if isinstance(v, N):
        return v
    if isinstance(v, T):
        return N.atom(v) if v.typ in NUMT else None
    if isinstance(v, K) and isinstance(v.v, bool):
        return N.const(int(v.v))
    return None


# ------------------------------------------------------------------ sequences

class Base:
    """opaque immutable sequence; elements are terms elem(base, index)"""
    _reg = {}
    __slots__ = ('name', 'length', 'etyp', 'family', 'meta', 'track', 'uid')

    def __repr__(self):
        return str(self.name)

    def __lt__(self, o):
        return self.uid < o.uid


def mkbase(name, length, etyp='any', family=None, track=False, **meta):
    b = Base._reg.get(name)
    if b is None:
        b = Base()
        b.name, b.length, b.etyp, b.family, b.track, b.meta = name, N.of(length), etyp, family, track, meta
        b.uid = len(Base._reg)
        Base._reg[name] = b
    return b


_bc = [0]


def freshbase(name, length, etyp='any', family=None, track=False, **meta):
    _bc[0] += 1
    return mkbase('%s~%d' % (name, _bc[0]), length, etyp, family, track, **meta)


def elem(base, idx):
    """value of element idx of base"""
    idx = N.of(idx)
    m = base.meta
    if 'elem_fn' in m:
        r = m['elem_fn'](idx)
        if r is not None:
            return r
    t = mk('elem', (base, idx), base.etyp if base.family is None else 'dict')
    if 'lo' in m or 'hi' in m:
        set_bounds(t, m.get('lo'), m.get('hi'))
    if base.family is not None:
        return Ref(t)
    if base.etyp == 'list':
        return Ref(t)
    return t


class One:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, One) and self.v == o.v

    def __hash__(self):
        return hash(('1', self.v))

    def __repr__(self):
        return repr(self.v)


class Sl:
    __slots__ = ('base', 'a', 'b', 'rev')

    def __init__(self, base, a, b, rev=False):
        self.base, self.a, self.b, self.rev = base, N.of(a), N.of(b), rev

    def __eq__(self, o):
        return isinstance(o, Sl) and (self.base is o.base and self.a == o.a and self.b == o.b and self.rev == o.rev)

    def __hash__(self):
        return hash(('S', self.base, self.a, self.b))

    def __repr__(self):
        return '%s%r[%r:%r]' % ('rev ' if self.rev else '', self.base, self.a, self.b)

    def at(self, i):
        i = N.of(i)
        return elem(self.base, (self.b - 1 - i) if self.rev else (self.a + i))


class Rep:
    """count repetitions; for the arbitrary repetition k the content is segs"""
    __slots__ = ('count', 'k', 'segs', 'unit', 'loop')

    def __init__(self, count, k, segs, unit, loop=None):
        self.count, self.k, self.segs, self.unit, self.loop = N.of(count), k, tuple(segs), unit, loop

    def __eq__(self, o):
        return isinstance(o, Rep) and (self.count, self.k, self.segs, self.unit, self.loop) == (o.count, o.k, o.segs, o.unit, o.loop)

    def __hash__(self):
        return hash(('Rep', self.count, self.k))

    def __repr__(self):
        return 'Rep[%r<%r](%s)' % (self.k, self.count, ', '.join(map(repr, self.segs)))


def seg_len(s):
    if isinstance(s, One):
        return N.const(1)
    if isinstance(s, Sl):
        return s.b - s.a
    if isinstance(s, Rep):
        if s.unit is not None:
            return s.count * s.unit
        t = mk('replen', (s.loop, s.k, s.count), 'int')
        set_bounds(t, 0)
        return N.atom(t)
    raise TypeError(s)


def segs_len(segs):
    n = N.const(0)
    for s in segs:
        n = n + seg_len(s)
    return n


def norm_segs(segs):
    """merge adjacent slices, drop empty ones"""
    out = []
    for s in segs:
        if isinstance(s, Sl):
            if s.a == s.b:
                continue
            if out and isinstance(out[-1], Sl) and out[-1].base is s.base and out[-1].rev == s.rev:
                p = out[-1]
                if not s.rev and p.b == s.a:
                    out[-1] = Sl(s.base, p.a, s.b)
                    continue
                if s.rev and p.a == s.b:
                    out[-1] = Sl(s.base, s.a, p.b, True)
                    continue
        elif isinstance(s, Rep):
            if not s.count.d:
                continue
            if not s.segs and s.unit is not None and not N.of(s.unit).d:
                continue
        out.append(s)
    return tuple(out)


# ------------------------------------------------------------------ heap

class Obj:
    __slots__ = ('kind', 'cls', 'fields', 'segs', 'ns', 'flags', 'lazy', 'dirty', 'owner', 'parent', 'info')

    def __init__(self, kind, cls=None, fields=None, segs=None, ns=None, flags=frozenset(), lazy=None, info=None):
        self.kind, self.cls = kind, cls
        self.fields = fields if fields is not None else {}
        self.segs, self.ns, self.flags, self.lazy = segs, ns, flags, lazy
        self.dirty = frozenset()
        self.owner = None
        self.parent = None
        self.info = info

    def copy(self):
        o = Obj(self.kind, self.cls, dict(self.fields), self.segs, self.ns, self.flags, self.lazy, self.info)
        o.dirty = self.dirty
        o.parent = self.parent
        return o

    def same(self, o):
        return (self is o) or (self.kind == o.kind and self.cls == o.cls and self.fields == o.fields
                               and self.segs == o.segs and self.ns == o.ns and self.flags == o.flags)


class Family:
    """schema of opaque dictionaries (individuals)"""

    def __init__(self, name, keys):
        self.name = name
        self.keys = keys          # ordered dict key -> factory(st, T) -> value

    def __repr__(self):
        return 'family ' + self.name


class State:
    __slots__ = ('heap', 'cur', 'facts', 'events', 'imprecise', 'tok', 'next', 'univ', 'gf2', 'ghosts', 'dead', 'loops')

    def __init__(self):
        self.heap = {}
        self.cur = None
        self.facts = Facts()
        self.events = ()
        self.imprecise = ()
        self.tok = object()
        self.next = 1
        self.univ = {}
        self.gf2 = ()
        self.ghosts = ()
        self.dead = False
        self.loops = ()

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.cur, s.events, s.imprecise = self.cur, self.events, self.imprecise
        s.facts = self.facts.copy()
        s.next = self.next
        s.univ = dict(self.univ)
        s.gf2 = self.gf2
        s.ghosts = self.ghosts
        s.loops = self.loops
        self.tok = object()
        return s

    def alloc(self, obj):
        k = self.next
        self.next += 1
        obj.owner = self.tok
        self.heap[k] = obj
        return k

    def get(self, key):
        o = self.heap.get(key)
        if o is None and isinstance(key, T):
            o = self.materialise(key)
        return o

    def materialise(self, t):
        """lazily created object for an opaque dict/list term"""
        o = None
        if t.k == 'elem':
            base = t.a[0]
            if base.family is not None:
                o = Obj('dict', lazy=(base.family, t))
            elif base.etyp == 'list':
                mkl = base.meta.get('mklist')
                if mkl:
                    o = Obj('list', segs=mkl(t))
        elif t.info and 'mkobj' in t.info:
            o = t.info['mkobj'](t)
        if o is not None:
            if t.info and 'flags' in t.info:
                o.flags = o.flags | t.info['flags']
            o.owner = self.tok
            self.heap[t] = o
        return o

    def mut(self, key):
        o = self.get(key)
        if o.owner is not self.tok:
            o = o.copy()
            o.owner = self.tok
            self.heap[key] = o
        return o

    def ev(self, *e):
        self.events = self.events + ((e + (('loops', self.loops),)) if False else e,)

    def note(self, why):
        if why not in self.imprecise:
            self.imprecise = self.imprecise + (why,)

    # ---- facts
    def assume(self, p, strict=False):
        """p >= 0; returns False if inconsistent"""
        from .terms import _norm, _trivial
        q, s = _norm(N.of(p), strict)
        t = _trivial(q, s)
        if t is True:
            return True
        if t is False:
            return False
        if not self.facts.consistent_with([(q, s)]):
            return False
        self.facts.add_lin(q, s)
        return self._neq_check(q)

    def assume_eq(self, p):
        p = N.of(p)
        return self.assume(p) and self.assume(-p)

    def _neq_check(self, q):
        atoms = q.atoms()
        for key, val in list(self.facts.lits.items()):
            if key[0] == 'eqn' and val is False:
                d = key[1]
                if not (d.atoms() & atoms):
                    continue
                ge, le = self.facts.entails(d), self.facts.entails(-d)
                if ge and le:
                    return False
                if ge:
                    self.facts.add_lin(d, True)
                elif le:
                    self.facts.add_lin(-d, True)
        return True

    def lit(self, key):
        return self.facts.lits.get(key)

    def set_lit(self, key, val):
        self.facts.lits[key] = val


def contains_atom(x, t, depth=0):
    """does value/term x mention atom t?"""
    if x is t:
        return True
    if depth > 12:
        return False
    if isinstance(x, T):
        return any(contains_atom(a, t, depth + 1) for a in x.a)
    if isinstance(x, N):
        for m in x.d:
            for u, _ in m:
                if contains_atom(_BY_UID[u], t, depth + 1):
                    return True
        return False
    if isinstance(x, Ref):
        return contains_atom(x.key, t, depth + 1)
    if isinstance(x, (Tup, StrV)):
        return any(contains_atom(s, t, depth + 1) for s in x.segs)
    if isinstance(x, One):
        return contains_atom(x.v, t, depth + 1)
    if isinstance(x, Sl):
        return contains_atom(x.a, t, depth + 1) or contains_atom(x.b, t, depth + 1) or contains_atom(x.base.name, t, depth + 1)
    if isinstance(x, Base):
        return contains_atom(x.name, t, depth + 1) or contains_atom(x.length, t, depth + 1)
    if isinstance(x, Rep):
        return x.k is t or contains_atom(x.count, t, depth + 1) or any(contains_atom(s, t, depth + 1) for s in x.segs)
    if isinstance(x, tuple):
        return any(contains_atom(s, t, depth + 1) for s in x)
    return False


def subst(x, m, depth=0):
    """substitute atoms (dict T -> value) in a term/value"""
    if depth > 14:
        return x
    if isinstance(x, T):
        if x in m:
            return m[x]
        if not x.a or x.k in ('sym', 'fresh'):
            return x
        na = tuple(_sub_arg(a, m, depth) for a in x.a)
        if na == x.a:
            return x
        if x.k == 'inv':
            from .terms import inv
            return nv(inv(N.of(na[0])))
        if x.k == 'elem':
            return _unref(elem(na[0], na[1]))
        t = mk(x.k, na, x.typ, x.info)
        for p, s in BOUNDS.get(x.uid, ()):
            q = subst_n(p, dict(m, **{}) if True else m, depth + 1, skip=x, repl=t)
            e = (q, s)
            b = BOUNDS.setdefault(t.uid, [])
            if e not in b:
                b.append(e)
        return t
    if isinstance(x, N):
        return nv(subst_n(x, m, depth))
    if isinstance(x, Ref):
        if isinstance(x.key, T):
            k = subst(x.key, m, depth + 1)
            return k if isinstance(k, Ref) else Ref(k)
        return x
    if isinstance(x, Tup):
        return Tup(subst(s, m, depth + 1) for s in x.segs)
    if isinstance(x, StrV):
        return StrV(subst(s, m, depth + 1) for s in x.segs)
    if isinstance(x, One):
        return One(subst(x.v, m, depth + 1))
    if isinstance(x, Sl):
        return Sl(_sub_arg(x.base, m, depth), N.of(subst(x.a, m, depth + 1)), N.of(subst(x.b, m, depth + 1)), x.rev)
    if isinstance(x, Rep):
        return Rep(N.of(subst(x.count, m, depth + 1)), x.k, tuple(subst(s, m, depth + 1) for s in x.segs), x.unit, x.loop)
    return x


def _unref(v):
    return v.key if isinstance(v, Ref) else v


def _sub_arg(a, m, depth):
    if isinstance(a, (T, N, Ref, Tup, StrV, One, Sl, Rep)):
        r = subst(a, m, depth + 1)
        if isinstance(a, N):
            return N.of(r) if isinstance(r, (N, T)) else r
        if isinstance(a, T) and isinstance(r, Ref):
            return r.key
        return r
    if isinstance(a, Base):
        nn = _sub_arg(a.name, m, depth) if isinstance(a.name, tuple) else a.name
        if nn != a.name:
            return mkbase(nn, N.of(subst(a.length, m, depth + 1)), a.etyp, a.family, a.track, **a.meta)
        return a
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, m, depth) for x in a)
    return a


def subst_n(p, m, depth=0, skip=None, repl=None):
    out = N({})
    for mono, c in p.d.items():
        term = N.const(c)
        for u, e in mono:
            t = _BY_UID[u]
            if skip is not None and t is skip:
                r = N.atom(repl)
            else:
                r = subst(t, m, depth + 1)
                r = to_num(r)
                if r is None:
                    r = N.atom(t)
            if e < 0:
                from .terms import inv
                r = inv(r)
            for _ in range(abs(e)):
                term = term * r
        out = out + term
    return out
