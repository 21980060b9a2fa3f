"""Algebra over terms: polynomial normal forms, and exact reasoning about one integer variable with floor divisions."""
from fractions import Fraction
from math import gcd
from .terms import *

WIDE = {'u64', 'usize', 'u128', 'i128', 'i64'}


def poly(t, atom=None):
    """canonical polynomial: {monomial(tuple of atom ids): coefficient}; +,-,* and widening casts are interpreted, the rest are atoms"""
    if is_const(t):
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'cast' and t.a[0] in WIDE:
        return poly(t.a[1], atom)
    if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'agg':
        return poly(fld(t.a[0], '0'), atom)
    if t.op == 'bin':
        op, a, b = t.a
        if op in ('Add', 'Sub'):
            p, q = poly(a, atom), poly(b, atom)
            r = dict(p)
            for k, v in q.items():
                r[k] = r.get(k, 0) + (v if op == 'Add' else -v)
            return {k: v for k, v in r.items() if v}
        if op == 'Mul':
            p, q = poly(a, atom), poly(b, atom)
            r = {}
            for k, v in p.items():
                for k2, v2 in q.items():
                    m = tuple(sorted(k + k2))
                    r[m] = r.get(m, 0) + v * v2
            return {k: v for k, v in r.items() if v}
        if op == 'Shl' and is_const(b) and b.a[0] < 128:
            return {k: v << b.a[0] for k, v in poly(a, atom).items()}
        if op in ('Div', 'Rem'):
            key = (op, pkey(poly(a, atom)), pkey(poly(b, atom)))
            return {(_ATOM.setdefault(key, ('d', len(_ATOM))),): 1}
    return {(('t', t.id),): 1}


_ATOM = {}


def pkey(p):
    return tuple(sorted(p.items(), key=str))


def polyeq(a, b):
    return pkey(poly(a)) == pkey(poly(b))


class Unknown(Exception):
    pass


class Narrow(Exception):
    """the variable is cut to a few bits"""


def divisors(t):
    """the lcm of all constant divisors below t"""
    l = 1
    for x in subterms(t):
        d = None
        if x.op == 'bin' and x.a[0] in ('Div', 'Rem') and is_const(x.a[2]):
            d = x.a[2].a[0]
        elif x.op == 'bin' and x.a[0] == 'Shr' and is_const(x.a[2]):
            d = 1 << min(x.a[2].a[0], 16)
        elif x.op == 'call' and leaf(x.a[0]) == 'div_ceil' and is_const(x.a[1][1]):
            d = x.a[1][1].a[0]
        if d:
            l = l * d // gcd(l, d)
    if l > 5000:
        raise Unknown('divisors')
    return l


def lin(t, isvar, L, r):
    """t as a linear function (a, b) of m, where the variable is L*m + r"""
    if isvar(t):
        return (L, r)
    if is_const(t):
        return (0, t.a[0])
    if t.op == 'cast':
        x = lin(t.a[1], isvar, L, r)
        if x[0] and t.a[0] in ('u8', 'i8', 'u16', 'i16'):
            raise Narrow(show(t))
        return x
    if t.op == 'call':
        n = leaf(t.a[0])
        if n == 'div_ceil':
            a, b = lin(t.a[1][0], isvar, L, r)
            d = lin(t.a[1][1], isvar, L, r)
            if d[0] == 0 and d[1] > 0 and a % d[1] == 0:
                return (a // d[1], -((-b) // d[1]))
            raise Unknown(show(t))
        if n in ('saturating_sub', 'checked_sub', 'wrapping_sub', 'saturating_add', 'saturating_mul', 'wrapping_add', 'wrapping_mul'):
            op = {'sub': 'Sub', 'add': 'Add', 'mul': 'Mul'}[n[-3:]]
            x = _lb(op, lin(t.a[1][0], isvar, L, r), lin(t.a[1][1], isvar, L, r))
            if op == 'Sub' and (x[0] < 0 or x[1] < 0):
                if n == 'saturating_sub' and x[0] <= 0 and x[1] <= 0:
                    return (0, 0)
                raise Unknown(show(t))
            return x
        if n in ('max', 'min') and len(t.a[1]) == 2:
            x, y = lin(t.a[1][0], isvar, L, r), lin(t.a[1][1], isvar, L, r)
            ge = x[0] >= y[0] and x[1] >= y[1]
            le = x[0] <= y[0] and x[1] <= y[1]
            if ge or le:
                return x if (ge == (n == 'max')) else y
            raise Unknown(show(t))
    if t.op == 'bin':
        op, a, b = t.a
        return _lb(op, lin(a, isvar, L, r), lin(b, isvar, L, r))
    raise Unknown(show(t))


def _lb(op, x, y):
    if op == 'Add':
        return (x[0] + y[0], x[1] + y[1])
    if op == 'Sub':
        return (x[0] - y[0], x[1] - y[1])
    if op == 'Mul':
        if x[0] and y[0]:
            raise Unknown('nonlinear')
        return (x[0] * y[1] + y[0] * x[1], x[1] * y[1])
    if op == 'Shl' and y[0] == 0:
        return (x[0] << y[1], x[1] << y[1])
    if op == 'Shr' and y[0] == 0:
        op, y = 'Div', (0, 1 << y[1])
    if op in ('Div', 'Rem') and y[0] == 0 and y[1] > 0 and x[0] % y[1] == 0:
        if op == 'Div':
            return (x[0] // y[1], x[1] // y[1])
        return (0, x[1] % y[1])
    raise Unknown(op)


def feasible(conds, isvar, L, r, lo):
    """interval of m>=0 with L*m+r >= lo satisfying every linear condition; None when empty; (lo, hi|None)"""
    a = max(0, -((r - lo) // L) if r < lo else 0)
    while L * a + r < lo:
        a += 1
    b = None
    for c in conds:
        if c[0] != 'cmp':
            continue
        try:
            x, y = lin(c[2], isvar, L, r), lin(c[3], isvar, L, r)
        except (Unknown, Narrow):
            continue
        k, h = x[0] - y[0], x[1] - y[1]  # k*m + h  OP 0
        op = c[1]
        if k == 0:
            if not {'eq': h == 0, 'ne': h != 0, 'lt': h < 0, 'le': h <= 0}[op]:
                return None
            continue
        if op == 'ne':
            continue
        if op == 'eq':
            if (-h) % k:
                return None
            m = -h // k
            a, b = max(a, m), m if b is None else min(b, m)
            continue
        if op == 'lt':
            h += 1
        if k > 0:   # m <= -h/k
            m = (-h) // k
            b = m if b is None else min(b, m)
        else:       # m >= h/-k
            m = -((-h) // (-k))
            a = max(a, m)
    if b is not None and a > b:
        return None
    return (a, b)


def same_function(t, want, isvar, conds=(), lo=0):
    """decide t(N) == want(N) for every N >= lo admitted by conds.
    want: python function of N that is quasi-linear with the given period.  Returns (True,None) / (False, N) ; raises Unknown."""
    L = divisors(t)
    for c in conds:
        for z in c[1:]:
            if isinstance(z, T):
                try:
                    d = divisors(z)
                    L = L * d // gcd(L, d)
                except Unknown:
                    pass
    L = L * 3 // gcd(L, 3)
    for r in range(L):
        iv = feasible(conds, isvar, L, r, lo)
        if iv is None:
            continue
        iv = (0, iv[1] if iv[1] is None else iv[1] - iv[0], iv[0])
        r += L * iv[2]
        iv = iv[:2]
        try:
            a, b = lin(t, isvar, L, r)
        except Narrow:
            return False, 'above 255'
        # want restricted to the class is linear in m as well: two points fix it
        w0, w1 = want(r), want(L + r)
        wa, wb = w1 - w0, w0
        if (a, b) == (wa, wb):
            continue
        lo_m, hi_m = iv
        if hi_m is None or hi_m > lo_m:
            m = lo_m if a * lo_m + b != wa * lo_m + wb else lo_m + 1
            return False, L * m + r
        if a * lo_m + b != wa * lo_m + wb:
            return False, L * lo_m + r
    return True, None
