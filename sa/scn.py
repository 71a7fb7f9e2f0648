"""Scenario construction: abstract worlds in which public entry points are analysed."""
import itertools
from .terms import N, T, mk, fresh, sym, set_bounds, Fr
from .values import *
from . import ops


SKIP = [False]          # set while a scenario that is finished or undecided is passed over


class Missing(Exception):
    """a public anchor of a property is gone"""


class Undecided(Exception):
    pass


def cls(I, st, name):
    for mod in ('baumeva.ga', 'baumeva', 'client'):
        c = I.cls(st, mod + '.' + name)
        if c is not None:
            return c
    raise Missing('public class %s is not exported by baumeva.ga or baumeva' % name)


def arg(v):
    if v is None or isinstance(v, (bool, str)):
        return K(v)
    if isinstance(v, int):
        return N.const(v)
    if isinstance(v, float):
        return NF(N.of(v).d)
    return v


def new(I, st, name, *args, **kw):
    if SKIP[0]:
        return []
    c = name if isinstance(name, Cls) else cls(I, st, name)
    return I.instantiate(st, c, [arg(a) for a in args], {k: arg(v) for k, v in kw.items()})


def meth(I, st, o, name, *args, **kw):
    out = []
    if SKIP[0]:
        return out
    for s, f in I.getattr(st, o, name):
        if isinstance(f, Exc):
            out.append((s, f))
        else:
            out.extend(I.call(s, f, [arg(a) for a in args], {k: arg(v) for k, v in kw.items()}))
    return out


def attr(I, st, o, name):
    """attribute value in a single state (None when absent)"""
    r = I.getattr(st, o, name)
    if len(r) != 1:
        return None
    v = r[0][1]
    return None if isinstance(v, Exc) else v


def setattrs(I, st, o, **kw):
    for k, v in kw.items():
        r = I.setattr(st, o, k, arg(v))
        if len(r) != 1:
            raise Undecided('attribute %s' % k)
    return st


def lst(st, vals, flags=(), info=None):
    return Ref(st.alloc(Obj('list', segs=tuple(One(arg(v)) for v in vals), flags=frozenset(flags), info=info)))


def tup(*vals):
    return Tup.of(*[arg(v) for v in vals])


def dct(st, flags=(), info=None, **kw):
    return Ref(st.alloc(Obj('dict', fields={K(k): arg(v) for k, v in kw.items()}, flags=frozenset(flags), info=info)))


def field(st, d, key):
    """value of an individual's key (None if absent)"""
    if not isinstance(d, Ref):
        return None
    o = st.get(d.key)
    if o is None:
        return None
    return o.fields.get(K(key))


def setfield(st, d, key, v):
    st.mut(d.key).fields[K(key)] = arg(v)


def elems(st, v):
    """explicit members of a list/population/tuple value, or None"""
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None or o.segs is None:
            return None
        segs = o.segs
    elif isinstance(v, (Tup, StrV)):
        segs = v.segs
    elif isinstance(v, K) and isinstance(v.v, str):
        return [K(c) for c in v.v]
    else:
        return None
    segs = norm_segs(segs)
    if all(isinstance(s, One) for s in segs):
        return [s.v for s in segs]
    return None


def segs(st, v):
    if isinstance(v, Ref):
        o = st.get(v.key)
        return None if o is None or o.segs is None else norm_segs(o.segs)
    if isinstance(v, Tup):
        return norm_segs(v.segs)
    return None


class SetUp(Exception):
    """every continuation of a set-up step with documented arguments raises"""

    def __init__(self, st, exc, what):
        self.st, self.exc, self.what = st, exc, what


def ok1(res, what):
    """single successful continuation of a set-up step"""
    good = [(s, v) for s, v in res if not isinstance(v, Exc)]
    if not good and not SKIP[0]:
        bad = [(s, v) for s, v in res if not s.imprecise and v.site]
        if bad and len(bad) == len(res) and what not in ('get_empty_copy', 'get_empty_individ'):
            raise SetUp(bad[0][0], bad[0][1], what)
        raise Undecided('set-up step %s does not complete: %r' % (what, [v for _, v in res][:1]))
    return good


GENS = {
    'cat': lambda st: tup(tup(0, 9, 1), tup(0, 9, 1), tup(0, 9, 1), tup(0, 9, 1)),
    'order': lambda st: tup(0, 9, 4),
    'bin': lambda st: tup(tup(0, 7, 1), tup(0, 1, 1)),
    'gray': lambda st: tup(tup(0, 7, 1), tup(0, 1, 1)),
}
POPCLS = {'cat': 'CatPopulation', 'order': 'OrderCatPopulation', 'bin': 'BinaryPopulation', 'gray': 'BinaryGrayPopulation'}
BINARY = ('bin', 'gray')


def gene(name):
    return sym(name, 'val')


def population(I, st, kind, n, glen=4, bits=None, num_individ=None, gens=None, scored=True, distinct=False,
               multi=0, tag='x', feasible=None, unsorted=True, evaluated=True):
    """population filled by the repository's own fill(), then its members' contents made opaque.
    -> [(st, pop Ref, [individual Refs])]"""
    out = []
    gens_v = gens if gens is not None else GENS[kind](st)
    for s, p in ok1(new(I, st, POPCLS[kind]), 'population constructor'):
        for s2, _ in ok1(meth(I, s, p, 'set_params', n, gens_v), 'set_params'):
            I.setup = True          # any one initial population will do: its contents are replaced below
            try:
                filled = ok1(meth(I, s2, p, 'fill'), 'fill')[:1]
            finally:
                I.setup = False
            for s3, _ in filled:
                # facts of the discarded contents are irrelevant
                s3.facts.lin, s3.facts.lits, s3.facts.eqc, s3.gf2 = (), {}, {}, ()
                s3.imprecise = ()
                inds = elems(s3, p)
                if inds is None or len(inds) != n:
                    raise Undecided('fill() gives %r individuals for num_individ=%d' % (None if inds is None else len(inds), n))
                for i, d in enumerate(inds):
                    opaque_individual(I, s3, d, kind, i, glen, tag, scored, multi, feasible, evaluated)
                if num_individ is not None:
                    setattrs(I, s3, p, num_individ=num_individ)
                s3.events = ()
                out.append((s3, p, inds))
    return out


def opaque_individual(I, st, d, kind, i, glen, tag, scored, multi, feasible, evaluated=True):
    if kind in BINARY:
        g = [mk('bitc', (ops.bitvar('%s%d_%d' % (tag, i, j)),), 'bit') for j in range(glen)]
        setfield(st, d, 'genotype', lst(st, g))
        if evaluated:
            setfield(st, d, 'phenotype', lst(st, [sym('%sph%d_%d' % (tag, i, j), 'num') for j in range(2)]))
        else:
            setfield(st, d, 'phenotype', None)
    else:
        g = [gene('%sg%d_%d' % (tag, i, j)) for j in range(glen)]
        if kind == 'order':
            for a, b in itertools.combinations(g, 2):
                ops.opq_ne(st, a, b)
        setfield(st, d, 'genotype', lst(st, g))
    if scored:
        if multi:
            setfield(st, d, 'score', lst(st, [sym('%ss%d_%d' % (tag, i, j), 'num') for j in range(multi)]))
            setfield(st, d, 'obj_score', lst(st, [sym('%so%d_%d' % (tag, i, j), 'num') for j in range(multi)]))
        else:
            setfield(st, d, 'score', sym('%ss%d' % (tag, i), 'num'))
            setfield(st, d, 'obj_score', sym('%so%d' % (tag, i), 'num'))
    if feasible is not None:
        setfield(st, d, 'feasible', feasible(i) if callable(feasible) else feasible)
    elif scored:
        setfield(st, d, 'feasible', sym('%sfeas%d' % (tag, i), 'bool'))


def gadata(I, st, pop, name='GaData', fresh_=False, **kw):
    """-> [(st, gd)]"""
    a = dict(num_generations=sym('num_generations', 'int', 1), children_percent=sym('children_percent', 'num'),
             early_stop=sym('early_stop', 'int', 0))
    set_bounds(a['children_percent'], 0, 1)
    a.update(kw)
    out = []
    for s, g in ok1(new(I, st, name, **a), name):
        if pop is not None:
            setattrs(I, s, g, population=pop)
        if fresh_:
            s.events = ()
            out.append((s, g))
            continue
        # somewhere in a run
        gen, stale = sym('idx_generation', 'int', 0), sym('num_generation_no_improve', 'int', 0)
        s.assume(N.of(gen) - N.of(stale))
        setattrs(I, s, g, idx_generation=gen, num_generation_no_improve=stale)
        s.events = ()
        out.append((s, g))
    return out


def show(st, v, depth=0):
    """readable rendering of an abstract value"""
    if depth > 4:
        return '...'
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is None:
            return repr(v)
        if o.segs is not None:
            return '[%s]' % ', '.join(show(st, s.v, depth + 1) if isinstance(s, One) else repr(s) for s in o.segs)
        if o.kind == 'dict':
            return '{%s}' % ', '.join('%r: %s' % (k, show(st, x, depth + 1)) for k, x in o.fields.items())
        return '<%s %r>' % (o.kind if o.cls is None else o.cls.name, v.key)
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(st, s.v, depth + 1) if isinstance(s, One) else repr(s) for s in v.segs)
    return repr(v)
