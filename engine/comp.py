"""Comprehension view of iterator chains and of loops: what a computed collection holds, and what a search decides."""
from . import sa
from .terms import *
from .pat import *


class Emit:
    __slots__ = ('conds', 'val', 'marks')

    def __init__(self, conds, val, marks=()):
        self.conds, self.val, self.marks = tuple(conds), val, tuple(marks)

    def __repr__(self):
        return '[%s] %s %s' % (' & '.join(showc(c) for c in self.conds), show(self.val), list(self.marks) or '')


class NotComp(Exception):
    pass


def canon(t):
    """one spelling for map elements: values(m)/keys(m)/into_values -> projections of iter(m); elem(into_iter) likewise"""
    def fn(x):
        if x.op == 'elem' and len(x.a) == 1 and x.a[0].op == 'call':
            c = x.a[0]
            n = leaf(c.a[0])
            if n in ('values', 'into_values', 'values_mut'):
                return fld(mk('elem', call('iter', (canon(c.a[1][0]),))), '1')
            if n in ('keys', 'into_keys'):
                return fld(mk('elem', call('iter', (canon(c.a[1][0]),))), '0')
            if n in ('into_iter', 'drain', 'cloned', 'copied', 'by_ref', 'iter_mut'):
                return canon(mk('elem', call('iter', (c.a[1][0],))))
        return None
    return sa.rebuild(t, fn, {})


def ccanon(c):
    return sa.recond(c, canon)


_SRC = {'iter', 'values', 'keys', 'into_iter', 'into_values', 'into_keys', 'drain', 'iter_mut', 'values_mut'}
_COLLECT = {'collect', 'from_iter', 'collect_vec', 'into', 'from', 'extend'}
_KEEP = {'sort', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'next', 'by_ref',
         'reserve', 'shrink_to_fit', 'size_hint'}
_MARK = {'rev', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'sorted', 'sorted_by', 'sorted_by_key', 'dedup', 'unique',
         'chunks', 'windows', 'map_while', 'peekable', 'enumerate', 'zip', 'chain', 'flat_map', 'flatten'}


def runs(R, f, args):
    """the outcomes of a closure of the workspace (or workspace function) applied to argument terms, with their events"""
    while f.op in ('upd!',):
        f = f.a[0]
    b = R.F.bodies.get(f.a[0]) if f.op in ('closure', 'fn') else None
    if b is None:
        raise NotComp('no body: ' + show(f)[:80])
    if f.op == 'closure':
        if len(args) == 1 and b.d['argc'] - 1 > 1:
            args = [fld(args[0], str(i)) for i in range(b.d['argc'] - 1)]
        at = {1: f}
        at.update({i + 2: a for i, a in enumerate(args)})
    else:
        at = {i + 1: a for i, a in enumerate(args)}
    g = sa.build(R.F, b, args=at, sides=False, **R.kw)
    R.funcs.add(b.path)
    R.funcs |= g.inlined
    return [o for o in sa.outcomes(g) if o.exit == 'ret']


def apply(R, f, args):
    """outcomes of applying a function value (closure, fn item) to argument terms: [(conds, ret)]"""
    while f.op in ('upd!',):
        f = f.a[0]
    if f.op == 'closure':
        b = R.F.bodies.get(f.a[0])
        if b is None:
            raise NotComp('closure without body')
        if len(args) == 1 and b.d['argc'] - 1 > 1:
            args = [fld(args[0], str(i)) for i in range(b.d['argc'] - 1)]
        at = {1: f}
        at.update({i + 2: a for i, a in enumerate(args)})
    elif f.op == 'fn':
        b = R.F.bodies.get(f.a[0])
        if b is None:
            lf = leaf(f.a[1])
            if lf == '{ctor}':
                p = f.a[1][:-len('::{ctor}')]
                en, v = p.rsplit('::', 1)
                return [((), agg(en, v, [(str(i), a) for i, a in enumerate(args)]))]
            if lf in ('clone', 'copied', 'deref', 'as_ref', 'to_owned', 'identity'):
                return [((), args[0])]
            return [((), call(f.a[0], args))]
        at = {i + 1: a for i, a in enumerate(args)}
    else:
        raise NotComp('not a function value: ' + show(f))
    g = sa.build(R.F, b, args=at, sides=False, **R.kw)
    R.funcs.add(b.path)
    R.funcs |= g.inlined
    return [(o.conds, o.ret) for o in sa.outcomes(g) if o.exit == 'ret']


class Ctx:
    """what comprehension needs of a rule context"""
    def __init__(self, F, funcs=None, **kw):
        self.F, self.kw, self.funcs = F, kw, funcs if funcs is not None else set()


def _chain(x):
    """x is a collected iterator chain"""
    while x.op == 'upd!' and leaf(x.a[1]) in _KEEP:
        x = x.a[0]
    return x.op == 'call' and leaf(x.a[0]) in ('collect', 'collect_vec') and len(x.a[1]) == 1


def emits(R, t):
    """[Emit] of an iterator-valued (or collected) term"""
    while (t.op == 'upd!' and leaf(t.a[1]) in _KEEP) or (t.op == 'call' and leaf(t.a[0]) in _COLLECT and len(t.a[1]) == 1):
        t = t.a[0] if t.op == 'upd!' else t.a[1][0]
    if t.op == 'call' and t.a[1]:
        n = leaf(t.a[0])
        if n in _SRC or n == 'range':
            x = t.a[1][0]
            if n in ('iter', 'into_iter', 'drain', 'iter_mut') and _chain(x):
                return emits(R, x)
            return [Emit((), canon(mk('elem', t)))]
        if n == 'map':
            out = []
            for e in emits(R, t.a[1][0]):
                for cs, v in apply(R, t.a[1][1], [e.val]):
                    out.append(Emit(e.conds + tuple(map(ccanon, cs)), canon(v), e.marks))
            return out
        if n in ('filter', 'filter_map', 'flat_map', 'map_while'):
            out = []
            for e in emits(R, t.a[1][0]):
                for cs, v in apply(R, t.a[1][1], [e.val]):
                    cc = e.conds + tuple(map(ccanon, cs))
                    v = canon(v)
                    if n == 'filter':
                        c = cond(v)
                        val = e.val
                    else:
                        c = isvar(v, 'Some')
                        val = payload(v, 'Some')
                    if c[0] == 'const':
                        if c[1]:
                            out.append(Emit(cc, val, e.marks))
                    else:
                        out.append(Emit(cc + (c,), val, e.marks))
            return out
        if n in ('cloned', 'copied', 'by_ref', 'inspect', 'fuse', 'peekable'):
            return emits(R, t.a[1][0])
        if n == 'chain':
            return emits(R, t.a[1][0]) + emits(R, t.a[1][1])
        if n == 'from_elem' and len(t.a[1]) == 2:
            return [Emit((), canon(t.a[1][0]), (('repeat', (t.a[1][1],)),))]
        if n in _MARK:
            return [Emit(e.conds, e.val, e.marks + ((n, t.a[1][1:]),)) for e in emits(R, t.a[1][0])]
    if t.op in ('param', 'fld', 'elem', 'as'):
        return [Emit((), canon(mk('elem', call('iter', (t,)))))]
    if t.op == 'agg' and '::Range' in t.a[0] or t.op == 'call' and 'RangeInclusive::new' in t.a[0]:
        return [Emit((), mk('elem', t))]
    raise NotComp(show(t)[:120])


_ADD = {'push', 'push_back', 'insert', 'extend_one'}


def root(t):
    while t.op in ('upd!', 'upd', 'phi'):
        if t.op == 'phi':
            return t
        t = t.a[0]
    return t


def isnext(c):
    return c[0] == 'is' and isinstance(c[1], T) and c[1].op == 'next'


def comp(R, outs, ret=lambda r: r, pick=None):
    """contents of the collection every path of a function returns.  Iterator chain: its emits.  Explicit loop: the additions
    made on a path that runs one iteration.  Returns (emits, other_conds)"""
    res = []
    for o in outs:
        if o.exit != 'ret':
            continue
        t = pick(o) if pick else ret(o.ret)
        if t is None:
            continue
        x = t
        while x.op == 'upd!':
            x = x.a[0]
        chain = x.op == 'call' and leaf(x.a[0]) in (_COLLECT | _SRC | _MARK | {'map', 'filter', 'filter_map', 'from_elem'}) and x.a[1]
        if chain:
            for e in emits(R, x):
                res.append(Emit(tuple(ccanon(c) for c in o.conds) + e.conds, e.val, e.marks))
            continue
        rt = root(t)
        for i, e in enumerate(o.events):
            if e.k == 'call' and leaf(e.name) in _ADD and e.args and len(e.args) >= 2 and root(e.args[0]) is rt:
                v = e.args[1] if len(e.args) == 2 else agg('tuple', '', [(str(i), a) for i, a in enumerate(e.args[1:])])
                res.append(Emit(tuple(ccanon(c) for c in o.before(i) if not isnext(c)), canon(v)))
            elif e.k == 'call' and leaf(e.name) == 'extend' and len(e.args) == 2 and root(e.args[0]) is rt:
                for m in emits(R, e.args[1]):
                    res.append(Emit(tuple(ccanon(c) for c in o.before(i) if not isnext(c)) + m.conds, m.val, m.marks))
    seen, out = set(), []
    for e in res:
        if any(negc(c) in e.conds for c in e.conds if negc(c) is not None):
            continue
        e.conds = tuple(dict.fromkeys(e.conds))
        k = (frozenset(e.conds), e.val.id, e.marks)
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def search(R, outs):
    """a boolean search over elements: (value found, [[conds on the element]], value otherwise) or NotComp"""
    found, default, conds = None, None, []
    for o in outs:
        if o.exit != 'ret':
            continue
        t, neg = o.ret, False
        while t.op == 'un' and t.a[0] == 'Not':
            t, neg = t.a[1], not neg
        if t.op == 'call' and leaf(t.a[0]) in ('any', 'all') and len(t.a[1]) == 2:
            ex = leaf(t.a[0]) == 'any'
            for e in emits(R, t.a[1][0]):
                for cs, v in apply(R, t.a[1][1], [e.val]):
                    c = cond(canon(v), ex)
                    cc = list(e.conds) + [ccanon(z) for z in cs]
                    if c[0] == 'const':
                        if c[1]:
                            conds.append(cc)
                    else:
                        conds.append(cc + [c])
            f, d = ex != neg, (not ex) != neg
        elif is_const(t) and t.a[1] == 'bool':
            v = bool(t.a[0]) != neg
            el = [ccanon(c) for c in o.conds if not isnext(c)]
            early = [c for c in o.conds if isnext(c)]
            if early and early[-1][3]:
                f, d = v, None
                conds.append(el)
            elif early:
                f, d = None, v
            else:
                raise NotComp('constant')
        else:
            raise NotComp(show(t)[:100])
        if f is not None:
            if found not in (None, f):
                raise NotComp('mixed')
            found = f
        if d is not None:
            if default not in (None, d):
                raise NotComp('mixed default')
            default = d
    seen, out = set(), []
    for c in conds:
        k = frozenset(c)
        if k not in seen:
            seen.add(k)
            out.append(sorted(c, key=showc))
    return found, out, default
