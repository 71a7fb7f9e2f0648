"""Loops and comprehensions.

Iteration over explicit lists and constant ranges is exact.  Iteration whose length is symbolic is
partitioned on the length; lengths above the bound are cut and counted (`loops_cut`).  While loops
are unfolded level by level; a header state that is covered by an earlier one is dropped (fixpoint),
what remains after the bound is cut and counted."""
import ast
from .terms import N, T, BOUNDS, _BY_UID, _norm, _trivial
from .values import *
from . import seqs
from .seqs import STOP, SYM


def covered(I, seen, st):
    for o in seen:
        if I.same_state(o, st) and set(o.facts.lin) <= set(st.facts.lin) \
                and all(st.facts.lits.get(k) == v for k, v in o.facts.lits.items()):
            return True
    return False


def _loads(node, acc, bound=frozenset()):
    """names read in a subtree (comprehension variables excluded)"""
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, (ast.Load, ast.Del)) and node.id not in bound:
            acc.add(node.id)
        return
    if isinstance(node, (ast.Global, ast.Nonlocal)):
        acc.update(node.names)
        return
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        b = set(bound)
        for g in node.generators:
            _loads(g.iter, acc, b)
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    b.add(x.id)
            for c in g.ifs:
                _loads(c, acc, b)
        for f in ('elt', 'key', 'value'):
            if hasattr(node, f):
                _loads(getattr(node, f), acc, b)
        return
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
        acc.add(node.target.id)
    for c in ast.iter_child_nodes(node):
        _loads(c, acc, bound)


def dead_locals(loop, func):
    """locals that are always assigned in the loop body before they are read, and never read outside the loop"""
    c = getattr(loop, '_dead', None)
    if c is not None:
        return c
    seen = set()
    cand = set()
    if isinstance(loop, ast.For):
        cand.update(x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        seen |= cand
    else:
        _loads(loop.test, seen)
    for b in loop.body:
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
            _loads(b.value, seen)
            if b.targets[0].id not in seen:
                cand.add(b.targets[0].id)
                seen.add(b.targets[0].id)
        else:
            _loads(b, seen)
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    seen.add(x.id)
    outside = set()

    def walk(n):
        if n is loop:
            for b in loop.orelse:
                walk(b)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            outside.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            _loads(n, outside)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = getattr(func, 'body', None)
    for b in (body if isinstance(body, list) else []):
        walk(b)
    for x in ast.walk(loop):        # a closure may be kept and read later
        if isinstance(x, (ast.Lambda, ast.FunctionDef)):
            outside.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name))
    loop._dead = frozenset(cand - outside)
    return loop._dead


def _scan(v, keys, atoms, depth=0):
    """heap keys and atoms mentioned by a value"""
    if v is None or isinstance(v, (str, int, bool, float)) or depth > 40:
        return
    if isinstance(v, Ref):
        if isinstance(v.key, int):
            keys.add(v.key)
        else:
            _scan(v.key, keys, atoms, depth + 1)
    elif isinstance(v, T):
        if v not in atoms:
            atoms.add(v)
            for a in v.a:
                _scan(a, keys, atoms, depth + 1)
    elif isinstance(v, N):
        for t in v.atoms():
            _scan(t, keys, atoms, depth + 1)
    elif isinstance(v, (tuple, list, frozenset, set)):
        for x in v:
            _scan(x, keys, atoms, depth + 1)
    elif isinstance(v, dict):
        for k, x in v.items():
            _scan(k, keys, atoms, depth + 1)
            _scan(x, keys, atoms, depth + 1)
    elif isinstance(v, ast.AST) or type(v).__name__ in ('FuncInfo', 'ClassInfo', 'K', 'Cls', 'Ext'):
        return
    else:
        ds = getattr(v, '__dict__', None)
        if ds:
            for x in ds.values():
                if isinstance(x, int) and not isinstance(x, bool):
                    keys.add(x)
                else:
                    _scan(x, keys, atoms, depth + 1)
        for c in type(v).__mro__:
            for n in getattr(c, '__slots__', ()):
                x = getattr(v, n, None)
                if isinstance(x, int) and not isinstance(x, bool):
                    keys.add(x)
                else:
                    _scan(x, keys, atoms, depth + 1)


def _scan_obj(o, keys, atoms):
    _scan(o.fields, keys, atoms)
    _scan(o.segs, keys, atoms)
    _scan(o.lazy, keys, atoms)
    for x in (o.ns, o.parent):
        if isinstance(x, int):
            keys.add(x)
        else:
            _scan(x, keys, atoms)
    if not isinstance(o.info, (type(None), str)) and type(o.info).__name__ not in ('FuncInfo', 'ClassInfo', 'ModInfo'):
        _scan(o.info, keys, atoms)


def tidy(I, st, heap0, next0, uid0, loop):
    """forget what cannot matter any more: dead locals, unreachable objects, facts about dead draws"""
    fr = I.frame(st)
    for n in dead_locals(loop, fr.info.node):
        if n in fr.fields:
            del st.mut(st.cur).fields[n]
    keys, atoms = set(), set()
    todo = []
    for k, o in st.heap.items():
        if isinstance(k, int) and k >= next0:
            continue
        if heap0.get(k) is not o:
            _scan_obj(o, keys, atoms)
    _scan(st.events, keys, atoms)
    _scan(st.univ, keys, atoms)
    _scan(st.ghosts, keys, atoms)
    _scan(st.loops, keys, atoms)
    live = set()
    todo = [k for k in keys if k >= next0]
    while todo:
        k = todo.pop()
        if k in live or k not in st.heap:
            continue
        live.add(k)
        ks = set()
        _scan_obj(st.heap[k], ks, atoms)
        todo.extend(x for x in ks if x >= next0 and x not in live)
    for k in [k for k in st.heap if isinstance(k, int) and k >= next0 and k not in live]:
        del st.heap[k]
    st.next = max([next0] + [k + 1 for k in live])
    # facts about draws that nothing refers to
    if I.keep_draws:
        return
    cand = set()
    for p, _ in st.facts.lin:
        for t in p.atoms():
            if t.uid >= uid0 and t.k == 'fresh' and t not in atoms and t.typ in ('float', 'int'):
                cand.add(t)
    for t in sorted(cand, key=lambda x: x.uid):
        project(st, t)


def project(st, t):
    """existential elimination of an atom from the linear facts, when exact"""
    m = ((t.uid, 1),)
    use, rest = [], []
    for p, s in st.facts.lin:
        (use if t in p.atoms() else rest).append((p, s))
    allc = use + [(p, s) for p, s in BOUNDS.get(t.uid, ())]
    for p, s in allc:
        if any(m2 != m and any(u == t.uid for u, _ in m2) for m2 in p.d):
            return
        if t.typ == 'int' and abs(p.d[m]) != 1:
            return
    for p, _ in rest:
        for a in p.atoms():
            if a is not t and contains_atom(a, t):
                return
    for k in st.facts.lits:
        if contains_atom(k, t):
            return
    P = [c for c in allc if c[0].d.get(m, 0) > 0]
    Q = [c for c in allc if c[0].d.get(m, 0) < 0]
    if len(P) * len(Q) > 40:
        return
    new = []
    for p, s in P:
        for q, s2 in Q:
            c = _norm(p.scale(1 / p.d[m]) + q.scale(-1 / q.d[m]), s or s2)
            tr = _trivial(*c)
            if tr is False:
                st.facts.lin = tuple(rest) + (c,)
                return
            if tr is None and c not in rest and c not in new:
                new.append(c)
    st.facts.lin = tuple(rest)
    for p, s in new:
        if not st.facts.entails(p, s):
            st.facts.add_lin(p, s)


class _Unsup(Exception):
    pass


def faint(func):
    """locals read only to update themselves: nothing else can depend on them"""
    c = getattr(func, '_faint', None)
    if c is None:
        own, read = set(), set()
        if isinstance(func, (ast.FunctionDef, ast.Module)):
            for x in ast.walk(func):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.value, ast.Constant):
                    own.add(x.target.id)
                elif isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                    read.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    read.update(x.names)
            if 'locals' in read:
                own = set()
        c = func._faint = frozenset(own - read)
    return c


def canon(st, heap0, next0, skip=()):
    """what the rest of the loop can depend on, with the objects allocated in the loop numbered by reachability;
    None when the state has parts this form does not express"""
    num, order = {}, []
    fr = st.heap.get(st.cur)

    def cv(v):
        if isinstance(v, Ref) and isinstance(v.key, int):
            if v.key < next0:
                return v
            if v.key not in num:
                num[v.key] = len(num)
                order.append(v.key)
            return ('\0new', num[v.key])
        if isinstance(v, (tuple, list)):
            return ('\0seq',) + tuple(cv(x) for x in v)
        if type(v) is One:
            return ('\0one', cv(v.v))
        keys = set()
        _scan(v, keys, set())
        if any(k >= next0 for k in keys):
            raise _Unsup
        return v

    def co(o):
        return (o.kind, o.cls, tuple((k, cv(x)) for k, x in o.fields.items() if not (o is fr and k in skip)), None if o.segs is None else cv(tuple(o.segs)),
                o.ns, o.flags, cv(o.lazy), o.parent)

    try:
        out = [st.cur, st.imprecise, repr(st.gf2), repr(st.ghosts), repr(st.univ), frozenset(st.facts.lin), frozenset(st.facts.lits.items())]
        for k, o in sorted(((k, o) for k, o in st.heap.items() if heap0.get(k) is not o and not (isinstance(k, int) and k >= next0)), key=lambda x: repr(x[0])):
            out.append((k, co(o)))
        i = 0
        while i < len(order):
            out.append(co(st.heap[order[i]]))
            i += 1
        r = tuple(out)
        hash(r)
        return r
    except (_Unsup, TypeError, KeyError, AttributeError):
        return None


def while_loop(I, s, st):
    out = []
    heap0, next0, uid0 = dict(st.heap), st.next, len(_BY_UID)
    cur = [(st, 0)]
    seen = []
    site = (I.frame(st).info.path, s.lineno, I.frame(st).info.qual)
    const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
    last = I.WHILE_MAX * (4 if const_true else 1) * (10 if I.setup else 1)
    cut = dropped = False
    cuts0, fix0 = I.loops_cut, I.loops_fix
    entry, heads = st.clone(), set()
    # only iterations that split a path count towards the unfolding limit: a loop that runs
    # deterministically on a path is unfolded to its end
    for k in range(401):
        nxt = {}
        for cs, cnt in cur:
            if not I.setup and covered(I, seen, cs):
                I.loops_fix += 1
                continue
            seen.append(cs.clone())
            I.site = site
            conds = I.cond(s.test, cs)
            dropped = dropped or not conds
            for s2, b in conds:
                if isinstance(b, Exc):
                    out.append((s2, ('raise', b)))
                    continue
                if not b:
                    out.extend(I.exec_block(s.orelse, s2) if s.orelse else [(s2, None)])
                    continue
                if cnt >= last or k == 400:
                    cut = True
                    continue
                res = I.exec_block(s.body, s2)
                dropped = dropped or not res
                n2 = cnt + (1 if len(conds) > 1 or len(res) != 1 else 0)
                for s3, c in res:
                    if c is None or c[0] == 'continue':
                        nxt.setdefault(n2, []).append((s3, None))
                    elif c[0] == 'break':
                        out.append((s3, None))
                    else:
                        out.append((s3, c))
        cur = []
        for n2, grp in nxt.items():
            for x, _ in grp:
                tidy(I, x, heap0, next0, uid0, s)
            cur += [(x, n2) for x, _ in I.join(grp)]
        if not cur:
            break
        if not out and not dropped and not cut and not I.setup and I.loops_cut == cuts0:
            cs = [canon(x, heap0, next0, faint(I.frame(x).info.node)) for x, _ in cur]
            if all(c is not None and c in heads for c in cs):
                I.loops_fix += 1
                cur = []
                break
            heads.update(cs)
        if len(cur) > I.MAXSTATES:
            raise I.Limit('too many loop disjuncts at %s' % (site,))
    if cut:
        I.loops_cut += 1
        I.cut_sites.add(site)
    else:
        I.loops_unrolled += 1
    if not out and not dropped and not cut and I.loops_cut == cuts0 and I.loops_fix > fix0:
        # every state reachable at the loop head is one already explored and none of them leaves
        return [(entry, ('raise', Exc('endless loop', site, True)))]
    return out


def start(I, st, v):
    """-> [(st, IterV | Exc)]"""
    if isinstance(v, Ref):
        r = I.dunder(st, v, '__iter__', [])
        if r is not None:
            out = []
            for s, w in r:
                if isinstance(w, Exc):
                    out.append((s, w))
                elif isinstance(w, Ref) and w == v:
                    out.append((s, IterV((), ('usernext', v.key))))
                else:
                    out.extend(start(I, s, w))
            return out
        o = st.get(v.key)
        if o is not None and o.kind == 'inst' and o.segs is None and not o.cls.info.dictlike:
            g, _ = I.class_lookup(st, o.cls.info.mro, '__getitem__')
            if g is not None:
                return [(st, IterV((), ('usergetitem', v.key)))]
    if isinstance(v, Cls) and v.info is not None and v.info.enum and not v.info.opaque:
        return [(st, IterV(tuple(One(m) for _, m in v.info.members)))]
    iv = seqs.to_iterv(I, st, v)
    if isinstance(iv, Top):
        st.note(iv.why)
        return [(st, IterV(()))]
    if isinstance(iv, IterV) and iv.tag and iv.tag[0] == 'set' and len(iv.segs) > 1:
        st.ev('setorder', I.site)
    return [(st, iv)]


def items(I, st, v, body, limit_site, loop=None):
    """generic driver: body(st, item) -> [(st, ctl)]; returns [(st, ctl)] with ctl None for exhaustion,
    ('brk',) for break"""
    out = []
    for st0, iv in start(I, st, v):
        if isinstance(iv, Exc):
            out.append((st0, ('raise', iv)))
            continue
        level = [(st0, None, 0)]
        heap0, next0, uid0 = dict(st0.heap), st0.next, len(_BY_UID)
        for k in range(400):
            nxt = {}
            for s, pos, sym in level:
                if iv.tag and iv.tag[0] == 'usernext':
                    pulled = []
                    for s2, r in (I.dunder(s, Ref(iv.tag[1]), '__next__', []) or [(s, Exc('TypeError', I.site, True))]):
                        if isinstance(r, Exc) and r.name == 'StopIteration':
                            r = STOP
                        pulled.append((s2, r, (k,)))
                elif iv.tag and iv.tag[0] == 'usergetitem':
                    pulled = []
                    for s2, r in I.dunder(s, Ref(iv.tag[1]), '__getitem__', [N.const(k)]):
                        if isinstance(r, Exc) and r.name == 'IndexError':
                            r = STOP
                        pulled.append((s2, r, (k,)))
                else:
                    pulled = seqs.pull(I, s, iv, pos)
                sy = sym + (1 if len(pulled) > 1 else 0)
                for s2, item, p2 in pulled:
                    if item is STOP:
                        out.append((s2, None))
                    elif item is SYM:
                        s2.note('symbolic iteration')
                        out.append((s2, None))
                    elif isinstance(item, Exc):
                        out.append((s2, ('raise', item)))
                    elif sy > I.SYM_UNROLL:
                        I.loops_cut += 1
                        I.cut_sites.add(limit_site)
                    else:
                        for s3, c in body(s2, item):
                            if c is None or c[0] == 'continue':
                                nxt.setdefault((p2, sy), []).append((s3, None))
                            elif c[0] == 'break':
                                out.append((s3, ('brk',)))
                            else:
                                out.append((s3, c))
            level = []
            n = 0
            for (p, sy), lst in nxt.items():
                if loop is not None and len(lst) > 1:
                    for x, _ in lst:
                        tidy(I, x, heap0, next0, uid0, loop)
                for s, _ in I.join(lst):
                    level.append((s, p, sy))
                    n += 1
            if n > I.MAXSTATES:
                raise I.Limit('too many loop disjuncts at %s' % (limit_site,))
            if not level:
                break
        else:
            I.loops_cut += 1
            I.cut_sites.add(limit_site)
        I.loops_unrolled += 1
    return out


def for_loop(I, s, st, v):
    f = I.frame(st)
    site = (f.info.path, s.lineno, f.info.qual)

    def body(st, item):
        out = []
        for s2, c in I.assign(s.target, st, item):
            if c is not None:
                out.append((s2, c))
            else:
                out.extend(I.exec_block(s.body, s2))
        return out
    out = []
    for s2, c in items(I, st, v, body, site, s):
        if c is None and s.orelse:
            out.extend(I.exec_block(s.orelse, s2))
        elif c is not None and c[0] == 'brk':
            out.append((s2, None))
        else:
            out.append((s2, c))
    return I.join(out)


def comprehension(I, n, st, info, emit):
    """-> [(st, segs | Exc)]"""
    save = st.cur
    gens = n.generators
    out = []
    site = (info.path, n.lineno, info.qual)
    # the first iterable is evaluated in the enclosing scope
    for s0, v0 in I.ev(gens[0].iter, st):
        if isinstance(v0, Exc):
            out.append((s0, v0))
            continue
        if len(gens) == 1 and not gens[0].ifs and emit == 'list':
            r = sym_map(I, s0, n, gens[0], v0, info)
            if r is not None:
                out.extend(r)
                continue
        fr = Obj('frame', fields={}, info=info)
        fr.parent = save
        fk = s0.alloc(fr)
        s0.cur = fk
        s0.mut(fk).fields['\0acc'] = ()

        def level(st, i, v):
            def body(st, item):
                res = []
                for s2, c in I.assign(gens[i].target, st, item):
                    if c is not None:
                        res.append((s2, c))
                        continue
                    cur = [(s2, None)]
                    for test in gens[i].ifs:
                        nxt = []
                        for s3, c3 in cur:
                            if c3 is not None:
                                nxt.append((s3, c3))
                                continue
                            for s4, b in I.cond(test, s3):
                                if isinstance(b, Exc):
                                    nxt.append((s4, ('raise', b)))
                                else:
                                    nxt.append((s4, None if b else ('continue',)))
                        cur = nxt
                    for s3, c3 in cur:
                        if c3 is not None:
                            res.append((s3, c3))
                        elif i + 1 < len(gens):
                            for s4, w in I.ev(gens[i + 1].iter, s3):
                                if isinstance(w, Exc):
                                    res.append((s4, ('raise', w)))
                                else:
                                    res.extend(level(s4, i + 1, w))
                        else:
                            res.extend(leaf(s3))
                return res
            return items(I, st, v, body, site)

        def leaf(st):
            res = []
            if emit == 'dict':
                vals = I.evs([n.key, n.value], st)
                vals = [(s, x if isinstance(x, Exc) else Tup.of(*x)) for s, x in vals]
            else:
                vals = I.ev(n.elt, st)
            for s, x in vals:
                if isinstance(x, Exc):
                    res.append((s, ('raise', x)))
                else:
                    o = s.mut(fk)
                    o.fields['\0acc'] = o.fields['\0acc'] + (One(x),)
                    res.append((s, None))
            return res

        for s2, c in I.join(level(s0, 0, v0)):
            fo = s2.get(fk)
            acc = fo.fields['\0acc']
            s2.cur = save
            if 'captured' not in fo.flags:
                s2.heap.pop(fk, None)
            out.append((s2, c[1] if c is not None and c[0] == 'raise' else acc))
    return out


def sym_map(I, st, n, g, v, info):
    """[f(x) for x in <one symbolic slice>] with a pure copy body: identity stays a slice"""
    if not (isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id):
        return None
    sg = None
    if isinstance(v, Ref):
        o = st.get(v.key)
        if o is not None and o.kind == 'list':
            sg = o.segs
    elif isinstance(v, Tup):
        sg = v.segs
    if sg is None or all(isinstance(x, One) for x in sg):
        return None
    return [(st, tuple(sg))]
