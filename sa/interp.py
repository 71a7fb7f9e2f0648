"""Abstract interpreter over the Python syntax tree of /repo (the code is never imported or run).

Every statement maps a set of abstract states to a set of abstract states (trace partitioning);
values are value-numbered terms, numbers are polynomials with linear facts (polyhedra), lists are
segment sequences over opaque bases, and anything not modelled becomes Top and marks the state
as imprecise, so that no rule may report on it."""
import ast
import os
from .terms import N, T, mk, fresh, set_bounds, Fr, div, BOUNDS, eq_rational
from .values import *
from .values import _unref
from .terms import _norm as _norm_fact


class Limit(Exception):
    pass


def entropy_of(p, depth=0):
    for t in p.atoms():
        if isinstance(t.info, dict) and 'entropy' in t.info:
            return t.info['entropy']
        if depth < 4:
            for a in t.a:
                e = entropy_of(N.of(a), depth + 1) if isinstance(a, (N, T)) else None
                if e:
                    return e
    return None


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.ns = None
        self.state = 0


class FnInfo:
    __slots__ = ('name', 'qual', 'node', 'module', 'gkey', 'cls', 'args', 'defaults', 'kwdefaults', 'is_gen',
                 'locals', 'globs', 'nonlocs', 'kind', 'body', 'scopekind', 'path')


ENUMS = ('Enum', 'IntEnum', 'StrEnum')


def ann_names(node):
    return [b.target.id for b in node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and 'ClassVar' not in ast.dump(b.annotation)]


def dataclass_fields(I, st, ci, node, deco):
    """fields of a data class: [(name, init, keyword only, factory)]"""
    out = {}
    for b in reversed(ci.mro[1:]):
        if b.info is not None and b.info.dc:
            out.update({f[0]: f for f in b.info.dc})
    opts = {k.arg: k.value for k in deco.keywords} if isinstance(deco, ast.Call) else {}
    kwonly = getattr(opts.get('kw_only'), 'value', False) is True
    ns = st.mut(ci.ns).fields
    for b in node.body:
        if not isinstance(b, ast.AnnAssign) or not isinstance(b.target, ast.Name) or 'ClassVar' in ast.dump(b.annotation):
            continue
        n = b.target.id
        if 'KW_ONLY' in ast.dump(b.annotation):
            kwonly = True
            continue
        init, fac, kwo = True, None, kwonly
        v = b.value
        if isinstance(v, ast.Call) and (getattr(v.func, 'id', None) == 'field' or getattr(v.func, 'attr', None) == 'field'):
            ns.pop(n, None)
            for k in v.keywords:
                if k.arg in ('default', 'default_factory'):
                    r = I.ev(k.value, st)
                    if len(r) != 1 or isinstance(r[0][1], Exc):
                        ci.opaque = True
                    elif k.arg == 'default':
                        ns[n] = r[0][1]
                    else:
                        fac = r[0][1]
                elif k.arg == 'init':
                    init = getattr(k.value, 'value', True)
                elif k.arg == 'kw_only':
                    kwo = getattr(k.value, 'value', False)
        out[n] = (n, init, kwo, fac, 'InitVar' in ast.dump(b.annotation))
    ci.dc = list(out.values())
    if '__init__' not in ns and getattr(opts.get('init'), 'value', True) is not False:
        ns['__init__'] = Partial(Ext('dc.init'), [Cls(ci)], {})
    ci.dceq = not (isinstance(opts.get('eq'), ast.Constant) and opts['eq'].value is False)


class ClassInfo:
    enum, members, names, dc, dceq, opaque = None, (), None, None, False, False

    def __init__(self, name, qual, module, bases, ns, mro, node, path):
        self.members = []
        self.name, self.qual, self.module, self.bases, self.ns, self.mro, self.node = name, qual, module, bases, ns, mro, node
        self.path = path
        self.listlike = any(b.info is None and b.name == 'list' for b in mro)
        self.dictlike = any(b.info is None and b.name in ('dict', 'OrderedDict') for b in mro)

    def __repr__(self):
        return 'class ' + self.qual


BUILTIN_EXC = {
    'BaseException': [], 'Exception': ['BaseException'], 'ArithmeticError': ['Exception'],
    'ZeroDivisionError': ['ArithmeticError'], 'OverflowError': ['ArithmeticError'], 'AssertionError': ['Exception'],
    'AttributeError': ['Exception'], 'LookupError': ['Exception'], 'IndexError': ['LookupError'],
    'KeyError': ['LookupError'], 'NameError': ['Exception'], 'UnboundLocalError': ['NameError'],
    'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'], 'RecursionError': ['RuntimeError'],
    'StopIteration': ['Exception'], 'TypeError': ['Exception'], 'ValueError': ['Exception'],
    'ImportError': ['Exception'], 'ModuleNotFoundError': ['ImportError'], 'OSError': ['Exception'],
    'Warning': ['Exception'], 'UserWarning': ['Warning'], 'DeprecationWarning': ['Warning'],
    'RuntimeWarning': ['Warning'], 'FutureWarning': ['Warning'], 'KeyboardInterrupt': ['BaseException'],
    'StopAsyncIteration': ['Exception'], 'SystemExit': ['BaseException'], 'UnicodeError': ['ValueError'],
    'IOError': ['Exception'], 'FileNotFoundError': ['OSError'],
}
BUILTIN_TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type', 'bytes',
                 'complex', 'range', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'property', 'staticmethod',
                 'classmethod', 'super', 'slice', 'bytearray'}
BUILTIN_FNS = {'len', 'abs', 'min', 'max', 'sum', 'sorted', 'print', 'isinstance', 'issubclass', 'round', 'iter', 'next',
               'getattr', 'setattr', 'hasattr', 'delattr', 'bin', 'hex', 'oct', 'format', 'divmod', 'pow', 'callable',
               'any', 'all', 'id', 'hash', 'repr', 'vars', 'ord', 'chr', 'input', 'open', 'dir', 'globals', 'locals',
               'exec', 'eval', '__import__', 'ascii'}


def exc_isa(name, target):
    if name == target:
        return True
    return any(exc_isa(b, target) for b in BUILTIN_EXC.get(name, ['Exception'] if name not in BUILTIN_EXC else []))


STOP = object()


class FnScan(ast.NodeVisitor):
    """local names of one function body"""

    def __init__(self):
        self.store, self.globs, self.nonlocs, self.is_gen = set(), set(), set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.store.add(n.id)

    def visit_FunctionDef(self, n):
        self.store.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.store.add(n.name)

    def visit_Lambda(self, n):
        for d in n.args.defaults:
            self.visit(d)

    def comp(self, n):
        # targets live in the comprehension's own scope; walrus targets escape
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.store.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocs.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.store.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.store.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.store.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.is_gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, n):
        if n.name:
            self.store.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.store.add(n.name)


def bind(res, f):
    out = []
    for st, v in res:
        if isinstance(v, Exc):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    return out


class Interp:
    MAXDEPTH = 60
    MAXSTATES = 6000
    WHILE_MAX = 9
    UNROLL_MAX = 40
    SYM_UNROLL = 3
    GHOST_UNROLL = 0

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.site = ('?', 0, '?')
        self.depth = 0
        self.fninfos = {}
        self.hooks = {}
        self.clients = {}
        self.steps = 0
        self.steps0 = 0
        self._thr = None
        self.max_steps = 3_000_000
        self.analysed_fns = set()
        self.call_sites = set()
        self.loops_unrolled = 0
        self.loops_summarised = 0
        self.setup = False
        self.draws = 0
        self.setrev = False
        self.loops_cut = 0
        self.loops_fix = 0
        self.cut_sites = set()
        self.Limit = Limit
        self.base_state = None
        self.fork_draws = False      # small integer draws explicitly, one path per value
        self.rand_events = False
        self.max_draws = None        # paths with more random decisions than this are cut
        self.entropy = False         # a value of another source of variation exists
        self.keep_draws = False      # facts on draws are part of the result
        self.residual = 0
        self.unmodelled = set()
        from . import models
        self.models = models
        models.install(self)

    def steps_from(self):
        """the step budget counts per scenario"""
        self.steps0 = self.steps

    def thresholds(self, hi=64):
        from .harvest import thresholds
        if self._thr is None:
            self._thr = thresholds(self.root)
        return [x for x in self._thr if x <= hi][:4]

    def constants(self, lo, hi):
        """constants of the source in lo..hi that a count may be compared with"""
        from .harvest import thresholds
        return thresholds(self.root, lo, hi)[:6]

    # ------------------------------------------------------------------ program loading
    def find_module(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def define(self, st, name, src):
        """client code of the library: a module that exists only in the analysis"""
        if name not in self.clients:
            self.clients[name] = src
            self.import_module(st, name)
            st.events, st.imprecise = (), ()
        return self.modules[name]

    def import_module(self, st, name):
        """returns Mod or None if external; executes the module body on first import"""
        if name in self.modules:
            return self.modules[name]
        path, is_pkg = (name, False) if name in self.clients else self.find_module(name)
        if path is None:
            return None
        # parents first
        if '.' in name:
            self.import_module(st, name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        if name in self.clients:
            src = self.clients[name]
        else:
            with open(path) as f:
                src = f.read()
        tree = ast.parse(src, path)
        m = Module(name, path if name in self.clients else os.path.relpath(path, self.root), tree, is_pkg)
        self.modules[name] = m
        m.ns = st.alloc(Obj('ns', fields={'__name__': K(name)}, flags=frozenset(['module'])))
        info = FnInfo()
        info.name, info.qual, info.node, info.module, info.gkey, info.cls = '<module>', name, tree, m, m.ns, None
        info.args, info.defaults, info.kwdefaults, info.is_gen = None, [], {}, False
        info.locals, info.globs, info.nonlocs, info.kind = set(), set(), set(), 'module'
        info.body, info.scopekind, info.path = tree.body, 'module', m.path
        save = st.cur
        fk = st.alloc(Obj('frame', fields={}, info=info))
        st.cur = fk
        res = self.exec_block(tree.body, st)
        live = [(s, c) for s, c in res if c is None]
        if not live:
            raise RuntimeError('module %s cannot be loaded: %r' % (name, [c for _, c in res]))
        # module bodies are straight-line in this repository: keep the first state
        s = live[0][0]
        if s is not st:
            st.heap, st.facts, st.next, st.events = s.heap, s.facts, s.next, s.events
            st.imprecise = s.imprecise
            st.tok = object()
        st.cur = save
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            if par in self.modules:
                st.mut(self.modules[par].ns).fields.setdefault(leaf, Mod(name))
        return m

    def load(self, pkg):
        st = State()
        self.loading = True
        self.import_module(st, pkg)
        # sub-modules that nothing imports are still part of the program
        base = os.path.join(self.root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.import_module(st, rel)
        self.loading = False
        st.events = ()
        for k, o in list(st.heap.items()):
            if 'module' in o.flags or o.kind in ('frame',):
                pass
            o2 = st.mut(k)
            o2.flags = o2.flags | {'shared'}
        st.imprecise = ()
        self.base_state = st
        return st

    def draw(self, n):
        """next draw from range(n) of the fixed resolution used while self.setup is set"""
        self.draws += 1
        x = self.draws * 2654435761 % 2 ** 32
        x ^= x >> 15
        x = x * 2246822519 % 2 ** 32
        x ^= x >> 13
        return x % n

    def new_state(self):
        s = self.base_state.clone()
        s.tok = object()
        return s

    # ------------------------------------------------------------------ names
    def frame(self, st):
        return st.get(st.cur)

    def lookup(self, st, name):
        key = st.cur
        f = st.get(key)
        info = f.info
        first = True
        if info.scopekind == 'fn' and name in info.globs:
            return self.lookup_global(st, info, name)
        if info.scopekind == 'module':
            return self.lookup_global(st, info, name)
        while key is not None:
            f = st.get(key)
            if f is None:
                break
            if first or f.info.scopekind != 'class':
                if name in f.fields:
                    return f.fields[name]
                if f.info.scopekind == 'fn' and name in f.info.locals:
                    return Exc('UnboundLocalError', self.site, True, (name,))
            first = False
            if f.info.scopekind == 'module':
                break
            key = f.parent
        return self.lookup_global(st, info, name)

    def lookup_global(self, st, info, name):
        g = st.get(info.gkey)
        if name in g.fields:
            return g.fields[name]
        return self.builtin(name)

    def builtin(self, name):
        if name in BUILTIN_TYPES or name in BUILTIN_EXC:
            return Cls(name=name)
        if name in BUILTIN_FNS:
            return Ext('builtins.' + name)
        if name in ('NotImplemented', 'Ellipsis', '__debug__'):
            return Ext('builtins.' + name)
        return Exc('NameError', self.site, True, (name,))

    def store_name(self, st, name, v):
        key = st.cur
        f = st.get(key)
        info = f.info
        if info.scopekind == 'module' or (info.scopekind == 'fn' and name in info.globs):
            self.write_field(st, info.gkey, name, v)
            return
        if info.scopekind == 'comp':
            st.mut(key).fields[name] = v
            return
        if info.scopekind == 'fn' and name in info.nonlocs:
            k = f.parent
            while k is not None:
                g = st.get(k)
                if g.info.scopekind == 'fn' and (name in g.fields or name in g.info.locals):
                    st.mut(k).fields[name] = v
                    return
                k = g.parent
        st.mut(key).fields[name] = v

    # ------------------------------------------------------------------ heap writes (effect analysis)
    def mutate(self, st, key, what):
        """object about to be modified; records effects on caller-owned or shared objects"""
        o = st.mut(key)
        if o.flags:
            if 'foreign' in o.flags:
                st.ev('write', 'foreign', key, what, self.site, o.info)
            if 'shared' in o.flags and not getattr(self, 'loading', False):
                st.ev('write', 'shared', key, what, self.site, o.info)
            if 'watch' in o.flags:
                st.ev('write', 'watch', key, what, self.site, o.info)
        return o

    def write_field(self, st, key, name, v):
        o = self.mutate(st, key, name)
        o.fields[name] = v
        return o

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        states = [(st, None)]
        for s in stmts:
            nxt = []
            for cs, ctl in states:
                if ctl is not None:
                    nxt.append((cs, ctl))
                else:
                    nxt.extend(self.exec_stmt(s, cs))
            states = self.join(nxt) if len(nxt) > 1 else nxt
            if len(states) > self.MAXSTATES:
                raise Limit('too many disjuncts at %s' % (self.site,))
        return states

    def join(self, states):
        """drop states that are covered by another one (same heap and control, weaker or equal facts)"""
        if len(states) < 2:
            return states
        buckets = {}
        out = []
        for st, ctl in states:
            key = (len(st.heap), st.cur, len(st.events), hash(st.events[-3:]), len(st.imprecise), None if ctl is None else ctl[0])
            hit = False
            for o in buckets.get(key, ()):
                if self.same_state(o[0], st) and self.same_ctl(o[1], ctl) and self.meet_facts(o[0], st):
                    hit = True
                    break
            if not hit:
                e = (st, ctl)
                buckets.setdefault(key, []).append(e)
                out.append(e)
        return out

    def same_ctl(self, a, b):
        if a is None or b is None:
            return a is b
        if a[0] != b[0]:
            return False
        if a[0] == 'raise':
            return a[1].name == b[1].name and a[1].site == b[1].site
        return len(a) == len(b) and all(x == y for x, y in zip(a[1:], b[1:]))

    def same_state(self, a, b):
        if a.cur != b.cur or a.events != b.events or a.imprecise != b.imprecise or a.gf2 != b.gf2 or a.ghosts != b.ghosts:
            return False
        ha, hb = a.heap, b.heap
        if len(ha) != len(hb):
            return False
        for k, o in ha.items():
            p = hb.get(k)
            if p is o:
                continue
            if p is None or not o.same(p) or o.info is not p.info:
                return False
        return a.univ == b.univ

    def meet_facts(self, a, b):
        """exact union of two fact sets into a, if it is expressible; -> bool"""
        la, lb = set(a.facts.lin), set(b.facts.lin)
        if a.facts.eqc != b.facts.eqc:
            return False
        xa, xb = a.facts.lits, b.facts.lits
        da = [k for k in xa if xb.get(k) != xa[k]]
        db = [k for k in xb if xa.get(k) != xb[k]]
        ra, rb = la - lb, lb - la
        if not ra and not da:
            return True                                   # a is weaker
        if not rb and not db:
            a.facts.lin, a.facts.lits = b.facts.lin, dict(xb)
            return True
        if not da and not db and len(ra) == 1 and len(rb) == 1:
            (p, s), (q, t) = next(iter(ra)), next(iter(rb))
            n1 = _norm_fact(-p, not s)
            n2 = _norm_fact(-q, not t)
            if n1 == (q, t) or n2 == (p, s):
                a.facts.lin = tuple(c for c in a.facts.lin if c in lb)
                return True
        if not ra and not rb and len(da) == 1 and da == db:
            a.facts.lits = {k: v for k, v in xa.items() if k != da[0]}
            return True
        return False

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps - self.steps0 > self.max_steps:
            raise Limit('step budget exhausted at %s' % (self.site,))
        f = st.get(st.cur)
        self.site = (f.info.path, getattr(s, 'lineno', 0), f.info.qual)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            st.note('statement %s' % type(s).__name__)
            return [(st, None)]
        return m(s, st)

    def ctl(self, res):
        """expression results used as statement"""
        return [(st, ('raise', v) if isinstance(v, Exc) else None) for st, v in res]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return self.ctl(self.ev(s.value, st))

    def s_Pass(self, s, st):
        return [(st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            self.do_import(st, a.name)
            if a.asname:
                self.store_name(st, a.asname, self.mod_value(a.name))
            else:
                top = a.name.split('.')[0]
                self.store_name(st, top, self.mod_value(top))
        return [(st, None)]

    def do_import(self, st, name):
        return self.import_module(st, name)

    def mod_value(self, name):
        return Mod(name) if name in self.modules else Ext(name)

    def s_ImportFrom(self, s, st):
        f = self.frame(st)
        mod = f.info.module
        name = s.module or ''
        if s.level:
            base = mod.name.split('.')
            if not mod.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_module(st, name)
        for a in s.names:
            if m is None:
                if a.name == '*':
                    st.note('star import of ' + name)
                    continue
                self.store_name(st, a.asname or a.name, self.ext_attr(name, a.name))
                continue
            ns = st.get(m.ns)
            if a.name == '*':
                for k, v in list(ns.fields.items()):
                    if not k.startswith('_'):
                        self.store_name(st, k, v)
                continue
            if a.name in ns.fields:
                v = ns.fields[a.name]
            else:
                sub = self.import_module(st, name + '.' + a.name)
                if sub is None:
                    return [(st, ('raise', Exc('ImportError', self.site, True, (name, a.name))))]
                v = Mod(sub.name)
            self.store_name(st, a.asname or a.name, v)
        return [(st, None)]

    def ext_attr(self, mod, name):
        full = mod + '.' + name
        return self.models.ext_value(full)

    def s_FunctionDef(self, s, st):
        res = self.make_fn(s, st)

        def dec(st, fn, decs):
            if not decs:
                self.store_name(st, s.name, fn)
                return [(st, None)]
            out = []
            for st2, d in self.ev(decs[-1], st):
                if isinstance(d, Exc):
                    out.append((st2, ('raise', d)))
                    continue
                for st3, v in self.apply_decorator(st2, d, fn):
                    if isinstance(v, Exc):
                        out.append((st3, ('raise', v)))
                    else:
                        out.extend(dec(st3, v, decs[:-1]))
            return out

        out = []
        for st2, fn in res:
            if isinstance(fn, Exc):
                out.append((st2, ('raise', fn)))
            else:
                out.extend(dec(st2, fn, s.decorator_list))
        return out

    def apply_decorator(self, st, d, fn):
        if isinstance(d, Cls) and d.info is None and d.name in ('staticmethod', 'classmethod', 'property'):
            return [(st, Partial(Ext('deco.' + d.name), [fn], {}))]
        if isinstance(d, Ext):
            n = d.name
            if n in ('abc.abstractmethod', 'typing.override', 'typing.final', 'functools.wraps', 'typing.no_type_check',
                     'typing.overload'):
                return [(st, fn)]
            if n in ('functools.cached_property', 'abc.abstractproperty'):
                return [(st, Partial(Ext('deco.property'), [fn], {}))]
            if n in ('functools.lru_cache', 'functools.cache'):
                st.note('cached function')
                return [(st, fn)]
            if n == 'contextlib.contextmanager':
                st.note('context manager function')
                return [(st, Top('contextmanager'))]
        if isinstance(d, BM) and d.name in ('setter', 'getter', 'deleter') and isinstance(d.recv, Partial):
            if d.name == 'setter':
                kw = dict(d.recv.kw)
                kw['fset'] = fn
                return [(st, Partial(d.recv.fn, d.recv.args, kw))]
            return [(st, d.recv)]
        if isinstance(d, Partial) and isinstance(d.fn, Ext) and d.fn.name == 'functools.wraps':
            return [(st, fn)]
        return self.call(st, d, [fn], {})

    def make_fn(self, node, st, is_lambda=False):
        a = node.args
        dn = list(a.defaults) + [x for x in a.kw_defaults if x is not None]

        def k(st, vals):
            nd = len(a.defaults)
            key = (id(node), st.cur if False else None)
            f = st.get(st.cur)
            info = FnInfo()
            info.name = '<lambda>' if is_lambda else node.name
            info.node, info.module, info.gkey = node, f.info.module, f.info.gkey
            info.cls = f.info.cls
            info.qual = (f.info.qual + '.' if f.info.scopekind != 'module' else f.info.module.name + '.') + info.name
            info.args = a
            info.defaults = list(vals[:nd])
            kwn = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            info.kwdefaults = dict(zip(kwn, vals[nd:]))
            info.path = f.info.path
            info.kind = 'lambda' if is_lambda else 'func'
            info.body = node.body
            info.scopekind = 'fn'
            sc = self.scan(node, is_lambda)
            info.locals, info.globs, info.nonlocs, info.is_gen = sc
            ck = (id(node), tuple(info.defaults), tuple(info.kwdefaults.items()), id(info.cls) if info.cls is None else info.cls)
            try:
                info = self.fninfos.setdefault(ck, info)
            except TypeError:
                pass
            clo = None
            if f.info.scopekind in ('fn', 'comp'):
                clo = st.cur
                st.mut(st.cur).flags |= {'captured'}
                kk = f.parent
                while kk is not None:
                    g = st.get(kk)
                    st.mut(kk).flags |= {'captured'}
                    kk = g.parent
            elif f.info.scopekind == 'class':
                clo = f.parent
            return [(st, Fn(info, clo))]
        return self.evs_then(dn, st, k)

    _scans = {}

    def scan(self, node, is_lambda):
        r = self._scans.get(id(node))
        if r is None:
            v = FnScan()
            for b in ([node.body] if is_lambda else node.body):
                v.visit(b)
            loc = set(v.store)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                loc.add(x.arg)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            loc -= v.globs | v.nonlocs
            r = (frozenset(loc), frozenset(v.globs), frozenset(v.nonlocs), v.is_gen)
            self._scans[id(node)] = r
            self._keep = getattr(self, '_keep', [])
            self._keep.append(node)
        return r

    def s_ClassDef(self, s, st):
        out = []
        for st, bases in self.evs(s.bases, st):
            if isinstance(bases, Exc):
                out.append((st, ('raise', bases)))
                continue
            f = self.frame(st)
            bb = []
            for b in bases:
                if isinstance(b, Cls):
                    bb.append(b)
                elif isinstance(b, Ext) and b.name in ('abc.ABC', 'typing.Generic', 'typing.Protocol'):
                    bb.append(Cls(name=b.name))
                elif isinstance(b, Ext) and b.name in ('typing.TypedDict', 'typing_extensions.TypedDict'):
                    bb.append(Cls(name='dict'))
                elif isinstance(b, Ext) and b.name == 'typing.NamedTuple' or isinstance(b, Ext) and b.name.startswith('enum.') and b.name[5:] in ENUMS:
                    bb.append(Cls(name=b.name))
                    if b.name in ('enum.IntEnum', 'enum.StrEnum'):
                        bb.append(Cls(name={'enum.IntEnum': 'int', 'enum.StrEnum': 'str'}[b.name]))
                else:
                    bb.append(Cls(name='unknown:%r' % (b,)))
                    st.note('class %s has an unmodelled base' % s.name)
            ns = st.alloc(Obj('ns', fields={}, info={'class': s.name}))
            ci = ClassInfo(s.name, f.info.module.name + '.' + s.name, f.info.module, bb, ns, None or [], s, f.info.path)
            c = Cls(ci)
            ci.mro = [c] + self.c3(bb)
            ci.listlike = any(b.info is None and b.name in ('list', 'deque', 'UserList') for b in ci.mro)
            ci.dictlike = any(b.info is None and b.name in ('dict', 'OrderedDict', 'defaultdict', 'Counter') for b in ci.mro)
            ext = [b.name for b in ci.mro if b.info is None]
            if any(n.startswith('enum.') for n in ext):
                ci.enum = next((n for n in ext if n in ('int', 'str', 'float')), True)
            ci.names = ann_names(s) if 'typing.NamedTuple' in ext else None
            for b in ci.mro[1:]:
                if b.info is not None and b.info.names is not None:
                    ci.names = b.info.names
            ci.opaque = any(n.startswith('unknown:') for n in ext) or bool(s.keywords)
            info = FnInfo()
            info.name, info.qual, info.node, info.module, info.gkey, info.cls = s.name, f.info.module.name + '.' + s.name, s, f.info.module, f.info.gkey, ci
            info.args, info.defaults, info.kwdefaults, info.is_gen = None, [], {}, False
            info.locals, info.globs, info.nonlocs, info.kind = set(), set(), set(), 'class'
            info.body, info.scopekind, info.path = s.body, 'class', f.info.path
            fr = Obj('frame', fields={}, info=info)
            fr.parent = st.cur if f.info.scopekind in ('fn', 'comp') else None
            save = st.cur
            st.cur = st.alloc(fr)
            for st2, ctl in self.exec_block(s.body, st):
                if ctl is not None:
                    st2.cur = save
                    out.append((st2, ctl))
                    continue
                fields = st2.get(st2.cur).fields
                st2.mut(ns).fields.update({self.mangle(k, ci): v for k, v in fields.items()})
                del st2.heap[st2.cur]
                st2.cur = save
                for d in s.decorator_list:
                    r = self.ev(d.func if isinstance(d, ast.Call) else d, st2)
                    v = r[0][1] if len(r) == 1 else None
                    if isinstance(v, Ext) and v.name == 'dataclasses.dataclass':
                        dataclass_fields(self, st2, ci, s, d)
                    elif not (isinstance(v, Ext) and v.name in ('typing.final', 'enum.unique', 'typing.runtime_checkable')):
                        ci.decorated = ci.opaque = True
                if ci.enum:
                    self.enum_members(st2, c, s)
                self.store_name(st2, s.name, c)
                out.append((st2, None))
        return out

    def c3(self, bases):
        seqs = [[b] + list(b.info.mro[1:] if b.info else self.ext_mro(b)) for b in bases] + [list(bases)]
        res = []
        while True:
            seqs = [x for x in seqs if x]
            if not seqs:
                return res
            for q in seqs:
                c = q[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                return res
            res.append(c)
            for q in seqs:
                if q[0] == c:
                    del q[0]

    def ext_mro(self, b):
        if b.name in BUILTIN_EXC:
            out = []
            n = b.name
            while BUILTIN_EXC.get(n):
                n = BUILTIN_EXC[n][0]
                out.append(Cls(name=n))
            return out
        return []

    @staticmethod
    def mangle(name, ci):
        if ci is not None and name.startswith('__') and not name.endswith('__'):
            return '_' + ci.name.lstrip('_') + name
        return name

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ('return', NONE))]
        return [(st2, ('raise', v) if isinstance(v, Exc) else ('return', v)) for st2, v in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            f = self.frame(st)
            cur = f.fields.get('\0exc')
            return [(st, ('raise', cur if isinstance(cur, Exc) else Exc('Exception', self.site)))]
        site = self.site
        out = []
        for st2, v in self.ev(s.exc, st):
            if isinstance(v, Exc):
                out.append((st2, ('raise', v)))
                continue
            self.site = site
            out.append((st2, ('raise', self.to_exc(st2, v, site))))
        return out

    def to_exc(self, st, v, site):
        if isinstance(v, Cls):
            return Exc(v.name, site, False, v)
        if isinstance(v, Ref):
            o = st.get(v.key)
            if o is not None and o.kind == 'exc':
                return Exc(o.cls.name, site, False, v)
            if o is not None and o.cls is not None:
                return Exc(o.cls.name, site, False, v)
        return Exc('Exception', site, False, v)

    def s_Assert(self, s, st):
        out = []
        site = self.site
        for st2, b in self.cond(s.test, st):
            if isinstance(b, Exc):
                out.append((st2, ('raise', b)))
            elif b:
                out.append((st2, None))
            else:
                out.append((st2, ('raise', Exc('AssertionError', site))))
        return out

    def s_Break(self, s, st):
        return [(st, ('break',))]

    def s_Continue(self, s, st):
        return [(st, ('continue',))]

    def s_Global(self, s, st):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, s, st):
        site = self.site
        out = []
        for st2, v in self.ev(s.value, st):
            if isinstance(v, Exc):
                out.append((st2, ('raise', v)))
                continue
            self.site = site
            cur = [(st2, None)]
            for t in s.targets:
                nxt = []
                for st3, c in cur:
                    if c is not None:
                        nxt.append((st3, c))
                    else:
                        nxt.extend(self.assign(t, st3, v))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        out = []
        for st2, v in self.ev(s.value, st):
            if isinstance(v, Exc):
                out.append((st2, ('raise', v)))
            else:
                out.extend(self.assign(s.target, st2, v))
        return out

    def assign(self, t, st, v):
        """-> [(st, ctl)]"""
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, st, v)
        if isinstance(t, ast.Attribute):
            return self.ctl(bind(self.ev(t.value, st), lambda st, o: self.setattr(st, o, self.mangle(t.attr, self.frame(st).info.cls), v)))
        if isinstance(t, ast.Subscript):
            def k(st, o):
                return bind(self.ev(t.slice, st), lambda st, i: self.setitem(st, o, i, v))
            return self.ctl(bind(self.ev(t.value, st), k))
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v)
        st.note('assignment target %s' % type(t).__name__)
        return [(st, None)]

    def unpack(self, elts, st, v):
        site = self.site
        out = []
        for st2, segs in self.collect(st, v):
            if isinstance(segs, Exc):
                out.append((st2, ('raise', segs)))
                continue
            n = len(elts)
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            for st3, vals in self.explicit(st2, segs, n if not star else None, n - 1 if star else None):
                if isinstance(vals, Exc):
                    out.append((st3, ('raise', vals)))
                    continue
                if vals is None:
                    st3.note('unpacking of an unbounded sequence')
                    vals = [Top('unpack') for _ in elts]
                if star:
                    i = star[0]
                    m = len(vals) - (n - 1)
                    if m < 0:
                        out.append((st3, ('raise', Exc('ValueError', site, True))))
                        continue
                    lst = Ref(st3.alloc(Obj('list', segs=tuple(One(x) for x in vals[i:i + m]))))
                    vals = vals[:i] + [lst] + vals[i + m:]
                elif len(vals) != n:
                    out.append((st3, ('raise', Exc('ValueError', site, True))))
                    continue
                cur = [(st3, None)]
                for e, x in zip(elts, vals):
                    cur = [r for st4, c in cur for r in ([(st4, c)] if c is not None else self.assign(e, st4, x))]
                out.extend(cur)
        return out

    def explicit(self, st, segs, want=None, atleast=None):
        """segments -> explicit list of values; for a symbolic length and known arity, split on the length"""
        segs = norm_segs(segs)
        if all(isinstance(s, One) for s in segs):
            return [(st, [s.v for s in segs])]
        ln = segs_len(segs)
        if ln.is_const():
            n = int(ln.cval())
            if n <= 64:
                return self.explode(st, segs, n)
        if want is not None:
            st2 = st.clone()
            out = []
            if st.assume_eq(ln - want):
                out.extend(self.explode(st, segs, want))
            for q in (ln - want, want - ln):
                st3 = st2.clone()
                if st3.assume(q, True):
                    out.append((st3, Exc('ValueError', self.site, True)))
            return out
        return [(st, None)]

    def explode(self, st, segs, n):
        vals = []
        for i in range(n):
            r = self.seq_at(st, segs, N.const(i))
            if len(r) != 1:
                return [(st, None)]
            vals.append(r[0][1])
        return [(st, vals)]

    def s_AugAssign(self, s, st):
        site = self.site
        op = type(s.op)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id)
            if isinstance(cur, Exc):
                return [(st, ('raise', cur))]

            def k(st, b):
                self.site = site
                return bind(self.inplace(st, op, cur, b), lambda st, v: (self.store_name(st, t.id, v), [(st, NONE)])[1])
            return self.ctl(bind(self.ev(s.value, st), k))
        if isinstance(t, ast.Attribute):
            attr = self.mangle(t.attr, self.frame(st).info.cls)

            def k(st, o):
                def k2(st, cur):
                    def k3(st, b):
                        self.site = site
                        return bind(self.inplace(st, op, cur, b), lambda st, v: self.setattr(st, o, attr, v))
                    return bind(self.ev(s.value, st), k3)
                return bind(self.getattr(st, o, attr), k2)
            return self.ctl(bind(self.ev(t.value, st), k))
        if isinstance(t, ast.Subscript):
            def k(st, o):
                def ki(st, i):
                    def k2(st, cur):
                        def k3(st, b):
                            self.site = site
                            return bind(self.inplace(st, op, cur, b), lambda st, v: self.setitem(st, o, i, v))
                        return bind(self.ev(s.value, st), k3)
                    return bind(self.getitem(st, o, i), k2)
                return bind(self.ev(t.slice, st), ki)
            return self.ctl(bind(self.ev(t.value, st), k))
        st.note('augmented target')
        return [(st, None)]

    def inplace(self, st, op, a, b):
        if isinstance(a, Ref):
            o = st.get(a.key)
            if o is not None and (o.kind == 'list' or (o.kind == 'inst' and o.segs is not None)):
                if op is ast.Add:
                    return bind(self.call(st, BM(a, 'extend'), [b], {}), lambda st, _: [(st, a)])
                if op is ast.Mult:
                    return bind(self.binop(st, op, a, b), lambda st, v: (setattr(self.mutate(st, a.key, '*='), 'segs', st.get(v.key).segs), [(st, a)])[1])
            if o is not None and o.kind == 'set':
                nm = {ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update'}.get(op)
                if nm:
                    return bind(self.call(st, BM(a, nm), [b], {}), lambda st, _: [(st, a)])
            if o is not None and o.kind == 'dict' and op is ast.BitOr:
                return bind(self.call(st, BM(a, 'update'), [b], {}), lambda st, _: [(st, a)])
        return self.binop(st, op, a, b)

    def s_Delete(self, s, st):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for st2, c in cur:
                if c is not None:
                    nxt.append((st2, c))
                    continue
                if isinstance(t, ast.Name):
                    st2.mut(st2.cur).fields.pop(t.id, None)
                    nxt.append((st2, None))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.ctl(bind(self.ev(t.value, st2), lambda st, o: bind(self.ev(t.slice, st), lambda st, i: self.models.delitem(self, st, o, i)))))
                elif isinstance(t, ast.Attribute):
                    attr = self.mangle(t.attr, self.frame(st2).info.cls)
                    nxt.extend(self.ctl(bind(self.ev(t.value, st2), lambda st, o: self.models.delattr(self, st, o, attr))))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    nxt.extend(self.s_Delete(ast.Delete(targets=t.elts), st2))
                else:
                    st2.note('del target')
                    nxt.append((st2, None))
            cur = nxt
        return cur

    def s_If(self, s, st):
        out = []
        for st2, b in self.cond(s.test, st):
            if isinstance(b, Exc):
                out.append((st2, ('raise', b)))
            else:
                out.extend(self.exec_block(s.body if b else s.orelse, st2))
        return out

    def s_With(self, s, st):
        cur = [(st, None)]
        for it in s.items:
            nxt = []
            for st2, c in cur:
                if c is not None:
                    nxt.append((st2, c))
                    continue
                for st3, v in self.ev(it.context_expr, st2):
                    if isinstance(v, Exc):
                        nxt.append((st3, ('raise', v)))
                        continue
                    for st4, r in self.models.enter(self, st3, v):
                        if isinstance(r, Exc):
                            nxt.append((st4, ('raise', r)))
                        elif it.optional_vars is not None:
                            nxt.extend(self.assign(it.optional_vars, st4, r))
                        else:
                            nxt.append((st4, None))
            cur = nxt
        out = []
        for st2, c in cur:
            if c is not None:
                out.append((st2, c))
            else:
                out.extend(self.exec_block(s.body, st2))
        return out

    def s_Try(self, s, st):
        out = []
        pend = []
        for st2, c in self.exec_block(s.body, st):
            if c is not None and c[0] == 'raise':
                pend.extend(self.handle(s, st2, c[1]))
            elif c is None:
                pend.extend(self.exec_block(s.orelse, st2) if s.orelse else [(st2, None)])
            else:
                pend.append((st2, c))
        if not s.finalbody:
            return pend
        for st2, c in pend:
            if c is not None and c[0] == 'raise' and c[1].name == 'endless loop':
                out.append((st2, c))
                continue
            for st3, c3 in self.exec_block(s.finalbody, st2):
                out.append((st3, c3 if c3 is not None else c))
        return out

    def handle(self, s, st, exc):
        if exc.name == 'endless loop':
            return [(st, ('raise', exc))]
        for h in s.handlers:
            m = self.exc_match(st, h.type, exc)
            if m is None:
                st.note('exception filter not resolved')
                m = True
            if m:
                if h.name:
                    self.store_name(st, h.name, exc.args if isinstance(exc.args, Ref) else Ref(st.alloc(Obj('exc', cls=Cls(name=exc.name)))))
                st.mut(st.cur).fields['\0exc'] = exc
                return self.exec_block(h.body, st)
        return [(st, ('raise', exc))]

    def exc_match(self, st, tnode, exc):
        if tnode is None:
            return True
        r = self.ev(tnode, st)
        if len(r) != 1:
            return None
        v = r[0][1]
        vs = v.items() if isinstance(v, Tup) else [v]
        if vs is None:
            return None
        for c in vs:
            if not isinstance(c, Cls):
                return None
            if c.info is None:
                if exc_isa(exc.name, c.name):
                    return True
                if isinstance(exc.args, Ref):
                    o = st.get(exc.args.key)
                    if o is not None and o.cls is not None and o.cls.info is not None and c in o.cls.info.mro:
                        return True
            else:
                o = st.get(exc.args.key) if isinstance(exc.args, Ref) else None
                cl = exc.args if isinstance(exc.args, Cls) else (o.cls if o is not None else None)
                if cl is not None and cl.info is not None and c in cl.info.mro:
                    return True
        return False

    def s_Match(self, s, st):
        out = []
        for st2, v in self.ev(s.subject, st):
            if isinstance(v, Exc):
                out.append((st2, ('raise', v)))
                continue
            pend = [st2]
            for case in s.cases:
                nxt = []
                for st3 in pend:
                    for st4, b in self.match_pat(case.pattern, st3, v):
                        if isinstance(b, Exc):
                            out.append((st4, ('raise', b)))
                        elif not b:
                            nxt.append(st4)
                        elif case.guard is None:
                            out.extend(self.exec_block(case.body, st4))
                        else:
                            for st5, g in self.cond(case.guard, st4):
                                if isinstance(g, Exc):
                                    out.append((st5, ('raise', g)))
                                elif g:
                                    out.extend(self.exec_block(case.body, st5))
                                else:
                                    nxt.append(st5)
                pend = nxt
            out.extend((p, None) for p in pend)
        return out

    def match_pat(self, p, st, v):
        if isinstance(p, ast.MatchValue):
            return bind(self.ev(p.value, st), lambda st, c: self.truth_of(self.compare(st, ast.Eq, v, c)))
        if isinstance(p, ast.MatchSingleton):
            return [(st, self.identical(st, v, K(p.value)) is True)]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(st, p.name, v)
                return [(st, True)]
            out = []
            for st2, b in self.match_pat(p.pattern, st, v):
                if b is True and p.name:
                    self.store_name(st2, p.name, v)
                out.append((st2, b))
            return out
        if isinstance(p, ast.MatchOr):
            pend, out = [st], []
            for q in p.patterns:
                nxt = []
                for s2 in pend:
                    for s3, b in self.match_pat(q, s2, v):
                        (out.append((s3, b)) if b else nxt.append(s3))
                pend = nxt
            return out + [(s2, False) for s2 in pend]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return bind(self.ev(p.cls, st), lambda st, c: [(s2, r.v if isinstance(r, K) else r) for s2, r in self.call(st, Ext('builtins.isinstance'), [v, c], {})])
        st.note('match pattern')
        return [(st, False)]

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st):
        from . import loops
        return loops.while_loop(self, s, st)

    def s_For(self, s, st):
        from . import loops
        out = []
        for st2, v in self.ev(s.iter, st):
            if isinstance(v, Exc):
                out.append((st2, ('raise', v)))
                continue
            out.extend(loops.for_loop(self, s, st2, v))
        return out

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            st.note('expression %s' % type(n).__name__)
            return [(st, Top(type(n).__name__))]
        return m(n, st)

    def evs(self, nodes, st):
        """evaluate in order -> [(st, list | Exc)]"""
        states = [(st, [])]
        for n in nodes:
            nxt = []
            for s, acc in states:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                            continue
                        for s3, segs in self.collect(s2, v):
                            nxt.append((s3, segs if isinstance(segs, Exc) else acc + [('*', segs)]))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, v if isinstance(v, Exc) else acc + [v]))
            states = nxt
        return states

    def evs_then(self, nodes, st, k):
        out = []
        for s, vals in self.evs(nodes, st):
            if isinstance(vals, Exc):
                out.append((s, vals))
            else:
                out.extend(k(s, vals))
        return out

    @staticmethod
    def flat_segs(vals):
        out = []
        for v in vals:
            if isinstance(v, tuple) and v and v[0] == '*':
                out.extend(v[1])
            else:
                out.append(One(v))
        return tuple(out)

    def e_Constant(self, n, st):
        return [(st, self.const(n.value))]

    @staticmethod
    def const(v):
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return K(v)
        if isinstance(v, int):
            return N.const(v)
        if isinstance(v, float):
            return NF(N.of(v).d)
        if v is Ellipsis:
            return Ext('builtins.Ellipsis')
        return K(v)

    def e_Name(self, n, st):
        return [(st, self.lookup(st, n.id))]

    def e_Attribute(self, n, st):
        attr = self.mangle(n.attr, self.frame(st).info.cls)
        line = n.lineno
        return bind(self.ev(n.value, st), lambda st, o: self.getattr(st, o, attr))

    def e_Subscript(self, n, st):
        return bind(self.ev(n.value, st), lambda st, o: bind(self.ev(n.slice, st), lambda st, i: self.getitem(st, o, i)))

    def e_Slice(self, n, st):
        def g(x, st, k):
            if x is None:
                return k(st, None)
            return bind(self.ev(x, st), k)
        return g(n.lower, st, lambda st, a: g(n.upper, st, lambda st, b: g(n.step, st, lambda st, c: [(st, SliceV(a, b, c))])))

    def e_Tuple(self, n, st):
        return self.evs_then(n.elts, st, lambda st, vs: [(st, Tup(self.flat_segs(vs)))])

    def e_List(self, n, st):
        return self.evs_then(n.elts, st, lambda st, vs: [(st, Ref(st.alloc(Obj('list', segs=self.flat_segs(vs)))))])

    def e_Set(self, n, st):
        return self.evs_then(n.elts, st, lambda st, vs: self.models.make_set(self, st, self.flat_segs(vs)))

    def e_Dict(self, n, st):
        cur = [(st, {})]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s):
                        if isinstance(d, Exc):
                            nxt.append((s2, d))
                            continue
                        f = self.models.dict_fields(self, s2, d)
                        if f is None:
                            s2.note('dict unpacking')
                            nxt.append((s2, acc))
                        else:
                            a = dict(acc)
                            a.update(f)
                            nxt.append((s2, a))
                    continue
                for s2, kv in self.ev(k, s):
                    if isinstance(kv, Exc):
                        nxt.append((s2, kv))
                        continue
                    for s3, vv in self.ev(v, s2):
                        if isinstance(vv, Exc):
                            nxt.append((s3, vv))
                        else:
                            a = dict(acc)
                            a[self.models.hkey(self, s3, kv)] = vv
                            nxt.append((s3, a))
            cur = nxt
        return [(s, a if isinstance(a, Exc) else Ref(s.alloc(Obj('dict', fields=a)))) for s, a in cur]

    def e_Lambda(self, n, st):
        return self.make_fn(n, st, True)

    def e_IfExp(self, n, st):
        out = []
        for st2, b in self.cond(n.test, st):
            if isinstance(b, Exc):
                out.append((st2, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, st2))
        return out

    def e_NamedExpr(self, n, st):
        def k(st, v):
            key = st.cur
            f = st.get(key)
            while f.info.scopekind == 'comp':
                key = f.parent
                f = st.get(key)
            save = st.cur
            st.cur = key
            self.store_name(st, n.target.id, v)
            st.cur = save
            return [(st, v)]
        return bind(self.ev(n.value, st), k)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(i, st):
            out = []
            for s, v in self.ev(n.values[i], st):
                if isinstance(v, Exc) or i == len(n.values) - 1:
                    out.append((s, v))
                    continue
                for s2, b in self.truth(s, v):
                    if isinstance(b, Exc):
                        out.append((s2, b))
                    elif b == isand:
                        out.extend(go(i + 1, s2))
                    else:
                        out.append((s2, v))
            return out
        return go(0, st)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            out = []
            for s, b in self.cond(n.operand, st):
                out.append((s, b if isinstance(b, Exc) else K(not b)))
            return out

        def k(st, v):
            p = self.num(v)
            if p is None:
                if isinstance(v, Ref):
                    r = self.dunder(st, v, '__neg__' if isinstance(n.op, ast.USub) else '__pos__', [])
                    if r is not None:
                        return r
                if isinstance(v, (Top,)):
                    return [(st, v)]
                if isinstance(v, T):
                    st.note('arithmetic on opaque value')
                    return [(st, Top('unary'))]
                return [(st, Exc('TypeError', self.site, True))]
            if isinstance(n.op, ast.USub):
                return [(st, self.mkn(-p, [v]))]
            if isinstance(n.op, ast.UAdd):
                return [(st, v)]
            return [(st, nv(-p - 1))]
        return bind(self.ev(n.operand, st), k)

    def e_BinOp(self, n, st):
        op = type(n.op)

        def k(st, a):
            return bind(self.ev(n.right, st), lambda st, b: self.binop(st, op, a, b))
        return bind(self.ev(n.left, st), k)

    def e_Compare(self, n, st):
        ops = [type(o) for o in n.ops]

        def go(i, st, left):
            def k(st, right):
                out = []
                for s, r in self.compare(st, ops[i], left, right):
                    if isinstance(r, Exc) or i == len(ops) - 1:
                        out.append((s, r))
                        continue
                    for s2, b in self.truth(s, r):
                        if isinstance(b, Exc):
                            out.append((s2, b))
                        elif b:
                            out.extend(go(i + 1, s2, right))
                        else:
                            out.append((s2, FALSE))
                return out
            return bind(self.ev(n.comparators[i], st), k)
        return bind(self.ev(n.left, st), lambda st, a: go(0, st, a))

    def e_Call(self, n, st):
        f = n.func
        # zero-argument super()
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            fr = self.frame(st)
            k = st.cur
            while fr.info.scopekind == 'comp':
                k = fr.parent
                fr = st.get(k)
            a = fr.info.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            recv = fr.fields.get(first)
            return [(st, SuperV(fr.info.cls, recv))]

        def k(st, fv):
            def k2(st, args):
                out = []
                cur = [(st, {})]
                for kw in n.keywords:
                    nxt = []
                    for s, acc in cur:
                        if isinstance(acc, Exc):
                            nxt.append((s, acc))
                            continue
                        for s2, v in self.ev(kw.value, s):
                            if isinstance(v, Exc):
                                nxt.append((s2, v))
                            elif kw.arg is None:
                                fl = self.models.dict_fields(self, s2, v)
                                if fl is None:
                                    s2.note('** of unknown')
                                    nxt.append((s2, acc))
                                else:
                                    nxt.append((s2, {**acc, **{kk.v if isinstance(kk, K) else kk: vv for kk, vv in fl.items()}}))
                            else:
                                nxt.append((s2, {**acc, kw.arg: v}))
                    cur = nxt
                pos = []
                bad = False
                for a in args:
                    if isinstance(a, tuple) and a and a[0] == '*':
                        if all(isinstance(x, One) for x in norm_segs(a[1])):
                            pos.extend(x.v for x in norm_segs(a[1]))
                        else:
                            bad = True
                    else:
                        pos.append(a)
                for s, kw in cur:
                    if isinstance(kw, Exc):
                        out.append((s, kw))
                        continue
                    if bad:
                        s.note('star args of symbolic length')
                    fr = s.get(s.cur)
                    self.site = (fr.info.path, n.lineno, fr.info.qual)
                    out.extend(self.call(s, fv, pos, kw))
                return out
            return self.evs_then(n.args, st, k2)
        return bind(self.ev(f, st), k)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                parts.append(v.value)
        fmt = [v for v in n.values]

        def k(st, vals):
            return self.models.fstring(self, st, fmt, vals)
        return self.evs_then(parts, st, k)

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        def k(st, v):
            key = st.cur
            f = st.get(key)
            while f.info.scopekind == 'comp':
                key = f.parent
                f = st.get(key)
            o = st.mut(key)
            o.fields['\0yield'] = o.fields.get('\0yield', ()) + (One(v),)
            return [(st, NONE)]
        if n.value is None:
            return k(st, NONE)
        return bind(self.ev(n.value, st), k)

    def e_YieldFrom(self, n, st):
        def k(st, v):
            out = []
            for s, segs in self.collect(st, v):
                if isinstance(segs, Exc):
                    out.append((s, segs))
                    continue
                o = s.mut(s.cur)
                o.fields['\0yield'] = o.fields.get('\0yield', ()) + tuple(segs)
                out.append((s, NONE))
            return out
        return bind(self.ev(n.value, st), k)

    # comprehensions
    def comp(self, n, st, emit):
        """emit(st, acc) -> [(st, acc|Exc)]; accumulators are threaded through the frame field"""
        from . import loops
        f = self.frame(st)
        info = FnInfo()
        info.name, info.qual, info.node, info.module, info.gkey, info.cls = '<comp>', f.info.qual, n, f.info.module, f.info.gkey, f.info.cls
        info.args, info.defaults, info.kwdefaults, info.is_gen = None, [], {}, False
        info.locals, info.globs, info.nonlocs, info.kind = frozenset(), frozenset(), frozenset(), 'comp'
        info.body, info.scopekind, info.path = None, 'comp', f.info.path
        info = self.fninfos.setdefault(('comp', id(n), f.info.cls), info)
        return loops.comprehension(self, n, st, info, emit)

    def e_ListComp(self, n, st):
        def fin(st, segs):
            return [(st, Ref(st.alloc(Obj('list', segs=tuple(segs)))))]
        return bind(self.comp(n, st, 'list'), fin)

    def e_GeneratorExp(self, n, st):
        def fin(st, segs):
            return [(st, self.models.mkiter(st, IterV(tuple(segs))))]
        return bind(self.comp(n, st, 'list'), fin)

    def e_SetComp(self, n, st):
        return bind(self.comp(n, st, 'list'), lambda st, segs: self.models.make_set(self, st, tuple(segs)))

    def e_DictComp(self, n, st):
        return bind(self.comp(n, st, 'dict'), lambda st, segs: self.models.make_dict(self, st, tuple(segs)))

    # ------------------------------------------------------------------ truth
    def cond(self, n, st):
        """-> [(st, bool | Exc)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            states = [(st, None)]
            for v in n.values:
                nxt = []
                for s, b in states:
                    if b is not None:
                        nxt.append((s, b))
                        continue
                    for s2, b2 in self.cond(v, s):
                        if isinstance(b2, Exc):
                            nxt.append((s2, b2))
                        elif b2 == isand:
                            nxt.append((s2, None))
                        else:
                            nxt.append((s2, b2))
                states = nxt
            return [(s, isand if b is None else b) for s, b in states]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else (not b)) for s, b in self.cond(n.operand, st)]
        return self.truth_of(self.ev(n, st))

    def truth_of(self, res):
        out = []
        for s, v in res:
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    def split(self, st, p, strict=False):
        """case split on p >= 0 (p > 0) -> [(st, bool)]"""
        d = st.facts.decide(p, strict)
        if d is not None:
            return [(st, d)]
        one = self.entropy and self.note_entropy(st, p)
        st2 = st.clone()
        out = []
        if st.assume(p, strict):
            out.append((st, True))
        if one and out:
            return out
        if st2.assume(-p, not strict):
            out.append((st2, False))
        return out

    def note_entropy(self, st, p):
        """a decision rests on a value of another source of variation; True: enough of its outcomes are explored already"""
        e = entropy_of(p)
        if e:
            st.ev('entropy branch', e, self.site)
            return sum(x[0] == 'entropy branch' for x in st.events) > 3
        return False

    def split_eq(self, st, p):
        """case split on p == 0"""
        if p.is_const():
            return [(st, not p.d)]
        lt = st.lit(('eqn', self.canon_eq(p)))
        if lt is not None:
            return [(st, lt)]
        if any(t.k == 'gf' for t in p.atoms()):
            from . import ops
            r = ops.gf_equal(self, st, p)
            if r is not None:
                return r
        if not p.is_int() and eq_rational(p, N.const(0)):
            return [(st, True)]
        if not st.facts.consistent_with([(p, False), (-p, False)]):
            return [(st, False)]
        if st.facts.entails(p) and st.facts.entails(-p):
            return [(st, True)]
        one = self.entropy and self.note_entropy(st, p)
        out = []
        st2 = st.clone()
        if st.assume_eq(p):
            st.set_lit(('eqn', self.canon_eq(p)), True)
            out.append((st, True))
        if one and out:
            return out
        st2.set_lit(('eqn', self.canon_eq(p)), False)
        ge, le = st2.facts.entails(p), st2.facts.entails(-p)
        ok = True
        if ge and le:
            ok = False
        elif ge:
            st2.facts.add_lin(p, True)
        elif le:
            st2.facts.add_lin(-p, True)
        if ok:
            out.append((st2, False))
        return out

    @staticmethod
    def canon_eq(p):
        if not p.d:
            return p
        lm = max(p.d)
        return p.scale(1 / p.d[lm])

    def split_lit(self, st, key):
        v = st.lit(key)
        if v is not None:
            return [(st, v)]
        st2 = st.clone()
        st.set_lit(key, True)
        st2.set_lit(key, False)
        return [(st, True), (st2, False)]

    def truth(self, st, v):
        if isinstance(v, K):
            return [(st, bool(v.v))]
        if isinstance(v, N):
            if v.is_const():
                return [(st, bool(v.d))]
            return [(s, not b) for s, b in self.split_eq(st, v)]
        if isinstance(v, T):
            if v.typ in ('int', 'num', 'float', 'nn'):
                return [(s, not b) for s, b in self.split_eq(st, N.atom(v))]
            if v.typ == 'bit':
                return [(st, True)]
            if v.typ in ('fn', 'obj'):
                return [(st, True)]
            return self.split_lit(st, ('truth', v))
        if isinstance(v, Tup):
            return self.split(st, segs_len(v.segs) - 1)
        if isinstance(v, StrV):
            return self.split(st, segs_len(v.segs) - 1)
        if isinstance(v, Ref):
            o = st.get(v.key)
            if o is None:
                return [(st, True)]
            if o.kind == 'inst':
                r = self.dunder(st, v, '__bool__', [])
                if r is not None:
                    return self.truth_of(r)
                r = self.dunder(st, v, '__len__', [])
                if r is not None:
                    return self.truth_of(r)
            if o.segs is not None:
                return self.split(st, segs_len(o.segs) - 1)
            if o.kind == 'dict':
                if o.lazy is not None:
                    return [(st, True)]
                return [(st, bool(o.fields))]
            return [(st, True)]
        if isinstance(v, Top):
            st.note('branch on unknown value: %s' % v.why)
            return [(st.clone(), True), (st, False)]
        if isinstance(v, IterV):
            return [(st, True)]
        return [(st, True)]

    # ------------------------------------------------------------------ numbers
    def num(self, v):
        if isinstance(v, T) and v.typ == 'any' and v.info and v.info.get('nonnum'):
            return None
        return to_num(v)

    def mkn(self, p, srcs=()):
        if any(isinstance(s, NF) for s in srcs) and p.is_const():
            return NF(p.d)
        return nv(p)

    def binop(self, st, op, a, b):
        return self.models.binop(self, st, op, a, b)

    def compare(self, st, op, a, b):
        return self.models.compare(self, st, op, a, b)

    def eq(self, st, a, b):
        """-> [(st, bool|Exc)]"""
        return self.models.eq(self, st, a, b)

    def identical(self, st, a, b):
        return self.models.identical(self, st, a, b)

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, st, mro, name):
        for c in mro:
            if c.info is not None:
                f = st.get(c.info.ns).fields
                if name in f:
                    return f[name], c
        return None, None

    def getattr(self, st, o, name):
        if isinstance(o, Ref):
            ob = st.get(o.key)
            if ob is None:
                st.note('attribute of unknown object')
                return [(st, Top('attr ' + name))]
            if ob.kind == 'inst':
                return self.inst_getattr(st, o, ob, name)
            if ob.kind == 'exc':
                if name == 'args':
                    return [(st, Tup(()))]
                return [(st, Top('exc attr'))]
            return self.models.builtin_attr(self, st, o, name)
        if isinstance(o, Cls):
            return self.cls_getattr(st, o, name)
        if isinstance(o, Mod):
            m = self.modules[o.name]
            f = st.get(m.ns).fields
            if name in f:
                return [(st, f[name])]
            if o.name + '.' + name in self.modules:
                return [(st, Mod(o.name + '.' + name))]
            return [(st, Exc('AttributeError', self.site, True, (name,)))]
        if isinstance(o, Ext):
            if o.name.startswith('hook:'):
                return [(st, Ext(o.name + '.' + name))]
            return [(st, self.ext_attr(o.name, name))]
        if isinstance(o, SuperV):
            return self.super_getattr(st, o, name)
        if isinstance(o, Top):
            return [(st, Top(o.why))]
        if isinstance(o, (Fn, Bound)):
            info = o.info if isinstance(o, Fn) else (o.fn.info if isinstance(o.fn, Fn) else None)
            if name in ('__name__', '__qualname__') and info:
                return [(st, K(info.name))]
            if name == '__func__' and isinstance(o, Bound):
                return [(st, o.fn)]
            if name == '__self__' and isinstance(o, Bound):
                return [(st, o.recv)]
            if name == '__doc__':
                return [(st, K('doc'))]
            st.note('function attribute ' + name)
            return [(st, Top('fn attr'))]
        return self.models.builtin_attr(self, st, o, name)

    def inst_getattr(self, st, o, ob, name):
        mro = ob.cls.info.mro
        ns = st.get(ob.ns)
        if name == '__dict__':
            return [(st, Ref(ob.ns))]
        if name == '__class__':
            return [(st, ob.cls)]
        v, c = self.class_lookup(st, mro, name)
        if isinstance(v, Partial) and isinstance(v.fn, Ext) and v.fn.name == 'deco.property':
            return self.call(st, v.args[0], [o], {})
        if name in ns.fields:
            return [(st, ns.fields[name])]
        if v is not None:
            return [(st, self.bind_attr(v, o, ob.cls))]
        if ob.cls.info.listlike and name in self.models.LIST_METHODS:
            return [(st, BM(o, name))]
        if ob.cls.info.dictlike and name in self.models.DICT_METHODS:
            return [(st, BM(o, name))]
        g, c = self.class_lookup(st, mro, '__getattr__')
        if g is not None:
            return self.call(st, Bound(g, o), [K(name)], {})
        if name in ('__init__', '__repr__', '__str__', '__eq__', '__hash__', '__setattr__', '__getattribute__', '__iter__', '__len__', '__getitem__', '__setitem__', '__contains__', '__doc__', '__module__'):
            return [(st, BM(o, name))]
        if any(b.info is None and b.name not in ('object', 'list', 'dict', 'abc.ABC', 'typing.Generic', 'typing.Protocol') for b in mro):
            st.note('attribute %s may come from an external base' % name)
            return [(st, Top('attr ' + name))]
        if ob.cls.info.opaque:
            st.note('attribute %s of class %s' % (name, ob.cls.name))
            return [(st, Top('attr ' + name))]
        return [(st, Exc('AttributeError', self.site, True, (name, ob.cls.name)))]

    def synthetic_class(self, st, node):
        f = self.frame(st)
        ns = st.alloc(Obj('ns', fields={}, info={'class': node.name}))
        ci = ClassInfo(node.name, f.info.module.name + '.' + node.name, f.info.module, [], ns, [], node, f.info.path)
        c = Cls(ci)
        ci.mro = [c]
        return c

    # ------------------------------------------------------------------ data classes, named tuples, enumerations
    def bind_names(self, st, ci, fields, args, kw):
        """fields (name, init, kw_only, factory, init only) -> [(st, values | Exc)]"""
        pos = [f[0] for f in fields if f[1] and not f[2]]
        kw = dict(kw)
        bad = len(args) > len(pos) or any(n in kw for n in pos[:len(args)]) or any(k not in [f[0] for f in fields if f[1]] for k in kw)
        if bad:
            return [(st, Exc('TypeError', self.site, True, ('arguments of %s()' % ci.name,)))]
        given = dict(zip(pos, args), **kw)
        cur = [(st, [])]
        for n, init, _, fac, _ in fields:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                elif n in given:
                    nxt.append((s, acc + [given[n]]))
                elif fac is not None:
                    nxt.extend((s2, v if isinstance(v, Exc) else acc + [v]) for s2, v in self.call(s, fac, [], {}))
                else:
                    v, _ = self.class_lookup(s, ci.mro, n)
                    if v is None and init:
                        nxt.append((s, Exc('TypeError', self.site, True, ('missing argument %s of %s()' % (n, ci.name),))))
                    else:
                        nxt.append((s, acc + [v]))
            cur = nxt
        return cur

    def init_dataclass(self, st, o, ci, args, kw):
        def store(st, vals):
            f = st.mut(st.get(o.key).ns).fields
            only = []
            for (n, _, _, _, iv), v in zip(ci.dc, vals):
                if iv:
                    only.append(v)
                elif v is not None:
                    f[n] = v
            p, _ = self.class_lookup(st, st.get(o.key).cls.info.mro, '__post_init__')
            if p is not None:
                return bind(self.call(st, self.bind_attr(p, o, st.get(o.key).cls), only, {}), lambda st, _: [(st, o)])
            return [(st, o)]
        return bind(self.bind_names(st, ci, ci.dc, args, kw), store)

    def enum_members(self, st, c, node):
        ci = c.info
        f = st.get(ci.ns).fields
        n = 0
        for b in node.body:
            if not isinstance(b, ast.Assign):
                continue
            for t in b.targets:
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if not isinstance(x, ast.Name) or x.id.startswith('_') or x.id not in f:
                        continue
                    n += 1
                    v = f[x.id]
                    if isinstance(v, Top):
                        # auto()
                        v = K(x.id.lower()) if ci.enum == 'str' else N.const(n)
                        if not (isinstance(b.value, ast.Call) and not b.value.args):
                            ci.opaque = True
                    same = [m for _, m in ci.members if st.get(st.get(m.key).ns).fields['value'] == v]
                    if same:
                        st.mut(ci.ns).fields[x.id] = same[0]
                        continue
                    m = self.raw_new(st, c)
                    st.mut(st.get(m.key).ns).fields.update(name=K(x.id), value=v, _name_=K(x.id), _value_=v)
                    st.mut(ci.ns).fields[x.id] = m
                    ci.members.append((x.id, m))
        if any(isinstance(b, ast.FunctionDef) and b.name in ('__new__', '__init__', '_missing_', '__eq__', '__hash__') for b in node.body):
            ci.opaque = True

    def enum_by_value(self, st, c, args, kw):
        out, cur = [], st
        if c.info.opaque or len(args) != 1 or kw:
            st.note('enumeration %s' % c.name)
            return [(st, Top('enum'))]
        v = args[0]
        for _, m in c.info.members:
            if v == m:
                return [(st, m)]
        left = [st]
        for _, m in c.info.members:
            nxt = []
            for s in left:
                for s2, b in self.eq(s, v, s.get(s.get(m.key).ns).fields['value']):
                    (out.append((s2, b if isinstance(b, Exc) else m)) if b else nxt.append(s2))
            left = nxt
        return out + [(s, Exc('ValueError', self.site, True, ('not a valid %s' % c.name,))) for s in left]

    def plain(self, st, v):
        """value a member of a mixed enumeration compares as"""
        if isinstance(v, Ref) and isinstance(v.key, int):
            o = st.get(v.key)
            if o is not None and o.kind == 'inst' and o.cls.info.enum in ('int', 'str', 'float') and 'value' in st.get(o.ns).fields:
                return st.get(o.ns).fields['value']
        return v

    def bind_attr(self, v, recv, cls):
        if isinstance(v, Fn):
            return Bound(v, recv)
        if isinstance(v, Partial) and isinstance(v.fn, Ext):
            if v.fn.name == 'deco.staticmethod':
                return v.args[0]
            if v.fn.name == 'deco.classmethod':
                return Bound(v.args[0], cls)
            if v.fn.name == 'dc.init':
                return Partial(v.fn, list(v.args) + [recv], {})
        return v

    def cls_getattr(self, st, o, name):
        if o.info is None:
            if name in ('__name__', '__qualname__'):
                return [(st, K(o.name))]
            return [(st, Ext('cls:%s.%s' % (o.name, name)))]
        if name in ('__name__', '__qualname__'):
            return [(st, K(o.info.name))]
        if name == '__module__':
            return [(st, K(o.info.module.name))]
        if name == '__dict__':
            return [(st, Ref(o.info.ns))]
        if name == '__mro__':
            return [(st, Tup.of(*o.info.mro))]
        if name == '__bases__':
            return [(st, Tup.of(*o.info.bases))]
        v, c = self.class_lookup(st, o.info.mro, name)
        if v is not None:
            if isinstance(v, Partial) and isinstance(v.fn, Ext):
                if v.fn.name == 'deco.staticmethod':
                    return [(st, v.args[0])]
                if v.fn.name == 'deco.classmethod':
                    return [(st, Bound(v.args[0], o))]
            return [(st, v)]
        if name == '__new__':
            return [(st, Ext('cls:object.__new__'))]
        if name in ('__init__',):
            return [(st, Ext('cls:object.__init__'))]
        if o.info.listlike and name in self.models.LIST_METHODS:
            return [(st, Ext('cls:list.' + name))]
        if name == '__doc__':
            return [(st, NONE)]
        if o.info.enum and name == '__members__':
            return [(st, Ref(st.alloc(Obj('dict', fields={K(n): v for n, v in o.info.members}))))]
        if o.info.names is not None and name == '_fields':
            return [(st, Tup.of(*[K(n) for n in o.info.names]))]
        if o.info.names is not None and name == '_make':
            return [(st, Partial(Ext('nt.make'), [o], {}))]
        if o.info.opaque or o.info.enum or o.info.dc is not None or o.info.names is not None:
            st.note('attribute %s of class %s' % (name, o.name))
            return [(st, Top('attr ' + name))]
        return [(st, Exc('AttributeError', self.site, True, (name, o.name)))]

    def super_getattr(self, st, o, name):
        recv = o.recv
        if isinstance(recv, Ref):
            ob = st.get(recv.key)
            cls = ob.cls
        else:
            cls = recv
        if cls is None or not isinstance(cls, Cls) or cls.info is None:
            st.note('super() receiver')
            return [(st, Top('super'))]
        mro = cls.info.mro
        me = Cls(o.cls)
        i = mro.index(me) if me in mro else 0
        v, c = self.class_lookup(st, mro[i + 1:], name)
        if v is not None:
            if isinstance(v, Partial) and isinstance(v.fn, Ext):
                if v.fn.name == 'deco.property':
                    return self.call(st, v.args[0], [recv], {})
                if v.fn.name == 'deco.staticmethod':
                    return [(st, v.args[0])]
                if v.fn.name == 'deco.classmethod':
                    return [(st, Bound(v.args[0], cls))]
                if v.fn.name == 'dc.init':
                    return [(st, self.bind_attr(v, recv, cls))]
            if isinstance(v, Fn) and not isinstance(recv, Cls):
                return [(st, Bound(v, recv))]
            if isinstance(v, Fn) and isinstance(recv, Cls):
                return [(st, v)]
            return [(st, v)]
        if name == '__init__':
            if cls.info.listlike:
                return [(st, BM(recv, '__init__'))]
            return [(st, Ext('noop'))]
        if name == '__new__':
            return [(st, Ext('cls:object.__new__'))]
        if name in ('__init_subclass__', '__del__'):
            return [(st, Ext('noop'))]
        if name == '__setattr__':
            return [(st, BM(recv, '__setattr__'))]
        if cls.info.listlike and name in self.models.LIST_METHODS:
            return [(st, BM(recv, '\0list.' + name))]
        return [(st, Exc('AttributeError', self.site, True, (name, 'super')))]

    def setattr(self, st, o, name, v):
        if isinstance(o, Ref):
            ob = st.get(o.key)
            if ob is None:
                st.note('attribute write on unknown object')
                return [(st, NONE)]
            if ob.kind == 'inst':
                mro = ob.cls.info.mro
                pv, _ = self.class_lookup(st, mro, name)
                if isinstance(pv, Partial) and isinstance(pv.fn, Ext) and pv.fn.name == 'deco.property':
                    fset = dict(pv.kw).get('fset')
                    if fset is None:
                        return [(st, Exc('AttributeError', self.site, True, (name,)))]
                    return self.call(st, fset, [o, v], {})
                sa, _ = self.class_lookup(st, mro, '__setattr__')
                if sa is not None:
                    return self.call(st, Bound(sa, o), [K(name), v], {})
                return self.raw_setattr(st, o, name, v)
            if ob.kind in ('ns', 'module'):
                self.write_field(st, o.key, name, v)
                return [(st, NONE)]
            return [(st, Exc('AttributeError', self.site, True, (name,)))]
        if isinstance(o, Cls) and o.info is not None:
            self.write_field(st, o.info.ns, name, v)
            return [(st, NONE)]
        if isinstance(o, Mod):
            self.write_field(st, self.modules[o.name].ns, name, v)
            return [(st, NONE)]
        if isinstance(o, Top):
            st.note('write to unknown object')
            return [(st, NONE)]
        if isinstance(o, Ext):
            st.ev('extwrite', o.name, name, self.site)
            return [(st, NONE)]
        if isinstance(o, K):
            return [(st, Exc('AttributeError', self.site, True, (name,)))]
        st.note('attribute write on %s' % type(o).__name__)
        return [(st, NONE)]

    def raw_setattr(self, st, o, name, v):
        ob = st.get(o.key)
        if name == '__dict__' and isinstance(v, Ref):
            m = self.mutate(st, o.key, '__dict__')
            m.ns = v.key
            return [(st, NONE)]
        if name == '__class__' and isinstance(v, Cls):
            m = self.mutate(st, o.key, '__class__')
            m.cls = v
            return [(st, NONE)]
        self.write_field(st, ob.ns, name, v)
        return [(st, NONE)]

    def dunder(self, st, v, name, args):
        """call a user-defined special method if the class has one"""
        o = st.get(v.key)
        if o is None or o.kind != 'inst':
            return None
        f, _ = self.class_lookup(st, o.cls.info.mro, name)
        if f is None:
            return None
        return self.call(st, self.bind_attr(f, v, o.cls), args, {})

    # ------------------------------------------------------------------ items
    def getitem(self, st, o, i):
        return self.models.getitem(self, st, o, i)

    def setitem(self, st, o, i, v):
        return self.models.setitem(self, st, o, i, v)

    def seq_at(self, st, segs, idx):
        return self.models.seq_at(self, st, segs, idx)

    def collect(self, st, v):
        """iterate completely -> [(st, segs | Exc)]"""
        return self.models.collect(self, st, v)

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        self.steps += 1
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(st, f.fn, [f.recv] + list(args), kw, recv=f.recv)
            return self.call(st, f.fn, [f.recv] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(st, f, list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, Ext):
            return self.models.call_ext(self, st, f.name, list(args), dict(kw))
        if isinstance(f, BM):
            return self.models.call_method(self, st, f.recv, f.name, list(args), dict(kw))
        if isinstance(f, Partial):
            if isinstance(f.fn, Ext) and f.fn.name == 'deco.staticmethod':
                return self.call(st, f.args[0], args, kw)
            return self.call(st, f.fn, list(f.args) + list(args), {**dict(f.kw), **kw})
        if isinstance(f, Getter):
            return self.models.call_getter(self, st, f, args)
        if isinstance(f, T) and f.typ == 'fn':
            return self.user_call(st, f, args, kw)
        if isinstance(f, Ref):
            r = self.dunder(st, f, '__call__', list(args))
            if r is not None and not kw:
                return r
            o = st.get(f.key)
            if o is not None and o.kind == 'inst':
                g, _ = self.class_lookup(st, o.cls.info.mro, '__call__')
                if g is not None:
                    return self.call(st, Bound(g, f), args, kw)
        if isinstance(f, Top):
            st.note('call of unknown function: %s' % f.why)
            return [(st, Top('call'))]
        if isinstance(f, (K, N, Tup)):
            return [(st, Exc('TypeError', self.site, True))]
        st.note('call of %r' % (f,))
        return [(st, Top('call'))]

    def user_call(self, st, f, args, kw):
        """call of a function supplied by the library's user"""
        h = f.info.get('call') if f.info else None
        st.ev('ucall', f, tuple(args), tuple(sorted(kw.items())), self.site)
        if h:
            return h(self, st, list(args), dict(kw))
        return [(st, fresh('user'))]

    def bind_args(self, st, info, args, kw):
        """-> dict | Exc"""
        a = info.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        if len(args) > len(names):
            if not a.vararg:
                return Exc('TypeError', self.site, True, ('too many arguments for ' + info.qual,))
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = Tup(One(x) for x in extra)
        rest = {}
        for k, v in kw.items():
            if k in names[len(a.posonlyargs):] or k in kwonly:
                if k in env:
                    return Exc('TypeError', self.site, True, ('duplicate argument ' + k,))
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return Exc('TypeError', self.site, True, ('unexpected keyword %s for %s' % (k, info.qual),))
        nd = len(info.defaults)
        for n, d in zip(names[len(names) - nd:], info.defaults):
            env.setdefault(n, d)
        for n, d in info.kwdefaults.items():
            env.setdefault(n, d)
        for n in names + kwonly:
            if n not in env:
                return Exc('TypeError', self.site, True, ('missing argument %s for %s' % (n, info.qual),))
        if a.kwarg:
            env[a.kwarg.arg] = Ref(st.alloc(Obj('dict', fields={K(k): v for k, v in rest.items()})))
        return env

    def call_fn(self, st, fn, args, kw, recv=None):
        info = fn.info
        h = self.hooks.get((info.cls.name if info.cls is not None else None, info.name))
        if h is None:
            h = self.hooks.get(('*', info.name)) if info.cls is not None else None
        if h is not None:
            r = h(self, st, fn, args, kw)
            if r is not None:
                return r
        if self.depth >= self.MAXDEPTH:
            st.note('call depth')
            return [(st, Top('depth'))]
        env = self.bind_args(st, info, args, kw)
        if isinstance(env, Exc):
            return [(st, env)]
        self.analysed_fns.add(info.qual)
        self.call_sites.add((self.site[0], self.site[1], info.qual))
        save = st.cur
        fr = Obj('frame', fields=env, info=info)
        fr.parent = fn.closure
        k = st.alloc(fr)
        st.cur = k
        self.depth += 1
        site0 = self.site
        try:
            if info.kind == 'lambda':
                res = self.ev(info.body, st)
                res = [(s, ('raise', v) if isinstance(v, Exc) else ('return', v)) for s, v in res]
            else:
                res = self.exec_block(info.body, st)
        finally:
            self.depth -= 1
        self.site = site0
        out = []
        for s, c in res:
            f = s.get(k)
            if info.is_gen and (c is None or c[0] == 'return'):
                v = self.models.mkiter(s, IterV(f.fields.get('\0yield', ())))
            elif c is None:
                v = NONE
            elif c[0] == 'return':
                v = c[1]
            elif c[0] == 'raise':
                v = c[1]
            else:
                v = NONE
            s.cur = save
            if 'captured' not in f.flags:
                s.heap.pop(k, None)
            out.append((s, v))
        if len(out) > 1:
            out = self.join_vals(out)
        return out

    def join_vals(self, res):
        st = [(s, ('raise', v) if isinstance(v, Exc) else ('return', v)) for s, v in res]
        return [(s, c[1]) for s, c in self.join(st)]

    def instantiate(self, st, c, args, kw):
        ci = c.info
        if ci is None:
            return self.models.call_type(self, st, c.name, list(args), dict(kw))
        h = self.hooks.get((ci.name, '\0new'))
        if h is not None:
            r = h(self, st, c, args, kw)
            if r is not None:
                return r
        if ci.enum:
            return self.enum_by_value(st, c, args, kw)
        # abstract classes cannot be instantiated
        miss = self.abstract_left(st, ci)
        if miss:
            return [(st, Exc('TypeError', self.site, True, ('abstract class %s: %s' % (ci.name, miss),)))]
        if any(b.info is None and b.name in BUILTIN_EXC for b in ci.mro):
            return [(st, Ref(st.alloc(Obj('exc', cls=c))))]
        new, _ = self.class_lookup(st, ci.mro, '__new__')
        if ci.names is not None and new is None:
            r = self.bind_names(st, ci, [(n, True, False, None, False) for n in ci.names], args, kw)
            return bind(r, lambda st, vals: [(st, Tup((One(v) for v in vals), c))])
        if new is not None:
            f = new.args[0] if isinstance(new, Partial) else new
            res = self.call(st, f, [c] + list(args), kw)
        else:
            res = [(st, self.raw_new(st, c))]

        def init(st, o):
            if isinstance(o, Ref):
                ob = st.get(o.key)
                if ob is not None and ob.kind == 'inst' and ob.cls == c:
                    i, _ = self.class_lookup(st, ci.mro, '__init__')
                    if i is not None:
                        return bind(self.call(st, self.bind_attr(i, o, c), args, kw), lambda st, _: [(st, o)])
                    if ci.listlike and args:
                        return bind(self.models.call_method(self, st, o, 'extend', list(args), {}), lambda st, _: [(st, o)])
                    if ci.dictlike and (args or kw):
                        return bind(self.models.call_method(self, st, o, 'update', list(args), dict(kw)), lambda st, _: [(st, o)])
                    if args or kw:
                        if ci.opaque:
                            st.note('class %s has an unmodelled constructor' % ci.name)
                            return [(st, o)]
                        return [(st, Exc('TypeError', self.site, True, ('%s() takes no arguments' % ci.name,)))]
            return [(st, o)]
        return bind(res, init)

    def raw_new(self, st, c):
        ns = st.alloc(Obj('ns', fields={}))
        ci = c.info
        ob = Obj('inst', cls=c, ns=ns, segs=() if ci.listlike else None)
        return Ref(st.alloc(ob))

    def abstract_left(self, st, ci):
        if not any(b.info is None and b.name == 'abc.ABC' for b in ci.mro):
            return None
        seen = set()
        for c in ci.mro:
            if c.info is None:
                continue
            for n in c.info.node.body:
                nm = getattr(n, 'name', None)
                if nm is None:
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                seen.add(t.id)
                    continue
                if nm in seen:
                    continue
                seen.add(nm)
                if isinstance(n, ast.FunctionDef) and any(
                        (isinstance(d, ast.Name) and d.id == 'abstractmethod') or (isinstance(d, ast.Attribute) and d.attr == 'abstractmethod')
                        for d in n.decorator_list):
                    return nm
        return None

    # ------------------------------------------------------------------ public helpers for scenarios
    def cls(self, st, dotted):
        """public class through a package's exports, e.g. ('baumeva.ga', 'GaData')"""
        mod, name = dotted.rsplit('.', 1)
        m = self.modules.get(mod)
        if m is None:
            return None
        v = st.get(m.ns).fields.get(name)
        return v if isinstance(v, Cls) else None
