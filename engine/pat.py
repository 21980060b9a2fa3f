"""Predicates over value terms, events and conditions."""
from .facts import path_match
from .terms import *


def ANY(t):
    return True


def par(i):
    return lambda t: t.op == 'param' and t.a[0] == i


def con(v):
    return lambda t: t.op == 'c' and t.a[0] == v


def strp(v):
    return lambda t: t.op == 'str' and t.a[0] == v


def P(x):
    """coerce to a predicate"""
    if callable(x):
        return x
    if isinstance(x, T):
        return lambda t: t is x
    if isinstance(x, bool):
        return lambda t: t.op == 'c' and t.a[1] == 'bool' and bool(t.a[0]) == x
    if isinstance(x, int):
        return con(x)
    if isinstance(x, str):
        return strp(x)
    raise TypeError(x)


def f(base, *names):
    """field chain base.n1.n2...; enum payload casts are looked through"""
    def m(t):
        for n in reversed(names):
            if t.op == 'as':
                t = t.a[0]
            if t.op != 'fld' or t.a[1] != n:
                return False
            t = t.a[0]
            if t.op == 'as':
                t = t.a[0]
        return P(base)(t)
    return m


def callp(pat, *args):
    ps = [P(a) for a in args]

    def m(t):
        if t.op != 'call' or not path_match(t.a[0], pat):
            return False
        if len(t.a[1]) < len(ps):
            return False
        return all(p(a) for p, a in zip(ps, t.a[1]))
    return m


_COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'}


def binp(op, a, b):
    a, b = P(a), P(b)

    def m(t):
        if t.op != 'bin' or t.a[0] != op:
            return False
        x, y = t.a[1], t.a[2]
        return (a(x) and b(y)) or (op in _COMM and a(y) and b(x))
    return m


def has(p):
    p = P(p)
    return lambda t: contains(t, p)


def either(*ps):
    ps = [P(p) for p in ps]
    return lambda t: any(p(t) for p in ps)


def both(*ps):
    ps = [P(p) for p in ps]
    return lambda t: all(p(t) for p in ps)


def cast(p):
    """p, possibly through numeric casts"""
    p = P(p)

    def m(t):
        while t.op == 'cast':
            if p(t):
                return True
            t = t.a[1]
        return p(t)
    return m


def peel(t):
    """the underlying value: casts, in-place mutations, references"""
    while t.op in ('cast', 'upd!', 'upd'):
        t = t.a[1] if t.op == 'cast' else t.a[0]
    return t


def peeled(p):
    p = P(p)
    return lambda t: p(peel(t))


def aggp(pat, variant=None, **fields):
    fs = {k.lstrip('_'): P(v) for k, v in fields.items()}

    def m(t):
        if t.op != 'agg' or (pat and not path_match(t.a[0], pat)) or (variant is not None and t.a[1] != variant):
            return False
        d = dict(t.a[2])
        return all(k in d and p(d[k]) for k, p in fs.items())
    return m


def variant(t):
    return t.a[1] if t.op == 'agg' else None


def is_err(t):
    return t.op == 'agg' and t.a[1] == 'Err'


def is_none(t):
    return t.op == 'agg' and t.a[1] == 'None'


# ---------------------------------------------------------------- conditions
def c_cmp(op, a, b):
    """normalised comparison; eq/ne symmetric. op in eq ne lt le"""
    a, b = P(a), P(b)

    def m(c):
        if c is None or c[0] != 'cmp' or c[1] != op:
            return False
        return (a(c[2]) and b(c[3])) or (op in ('eq', 'ne') and a(c[3]) and b(c[2]))
    return m


def c_is(p, v='Ok', pol=True):
    p = P(p)
    return lambda c: c is not None and c[0] == 'is' and c[2] == v and c[3] == pol and p(c[1])


def c_true(p, pol=True):
    p = P(p)
    return lambda c: c is not None and c[0] == 'true' and c[2] == pol and p(c[1])


def c_any(*cs):
    return lambda c: any(x(c) for x in cs)


# ---------------------------------------------------------------- events
def ev_call(pat, *args):
    ps = [P(a) for a in args]

    def m(e):
        if e.k != 'call' or not (path_match(e.name, pat) or (e.decl and path_match(e.decl, pat))):
            return False
        if len(e.args) < len(ps):
            return False
        return all(p(a) for p, a in zip(ps, e.args))
    return m


def ev_new(pat, variant=None):
    return lambda e: e.k == 'new' and path_match(e.name, pat) and (variant is None or e.info == variant)


def ev_write(loc, val=ANY):
    loc, val = P(loc), P(val)
    return lambda e: e.k in ('write', 'lwrite') and loc(e.args[0]) and val(e.args[1])


def ev_any(*ps):
    return lambda e: any(p(e) for p in ps)
