"""Unused-gas penalty (C31)."""
from math import gcd
from .config import *

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}


def peel(t):
    """conversions that keep the value"""
    t = strip(t)
    while True:
        if t.op == 'call' and leaf(t.a[0]) in ('from', 'into', 'try_from', 'try_into', 'unwrap', 'clone') and len(t.a[1]) == 1:
            t = strip(t.a[1][0])
        elif t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'as' and t.a[0].a[1] in ('Ok', 'Some'):
            t = strip(t.a[0].a[0])
        elif t.op == 'payload':
            t = strip(t.a[0])
        else:
            return t


def width(t):
    t = strip(t)
    if t.op == 'cast':
        return BITS.get(t.a[0])
    if t.op == 'param':
        return 64
    if t.op == 'c':
        return BITS.get(str(t.a[1])) if len(t.a) > 1 else None
    if t.op == 'bin':
        return width(t.a[1]) or width(t.a[2])
    if t.op == 'call':
        m = re.match(r'(?:core::num::<impl )?(u\d+|usize)', t.a[0].replace('std::', ''))
        if m and leaf(t.a[0]) not in ('from', 'try_from'):
            return BITS.get(m.group(1))
        m = re.search(r'\b(u128|u64|u32)\b', t.a[0])
        if m:
            return BITS[m.group(1)]
        if t.a[1]:
            return width(t.a[1][0])
    if t.op in ('fld', 'as', 'payload'):
        return width(peel(t))
    return None


ARITH = re.compile(r'(?:wrapping|saturating|checked|overflowing|strict|unchecked)_(add|sub|mul|div|pow)$')


def ar(t):
    """(operation, operands) of an arithmetic term"""
    t = peel(t)
    if t.op == 'bin':
        return t.a[0], [t.a[1], t.a[2]]
    if t.op == 'call':
        n = leaf(t.a[0])
        m = ARITH.match(n)
        if m:
            n = m.group(1)
        if n in ('add', 'sub', 'mul', 'div', 'pow', 'abs_diff', 'min', 'max') and len(t.a[1]) == 2:
            return {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'abs_diff': 'Diff'}.get(n, n), list(t.a[1])
    return None


def gp(t):
    """polynomial over L, U and quotients"""
    t = peel(t)
    while t.op == 'cast':
        t = peel(t.a[1])
    if is_const(t):
        return {(): int(t.a[0])} if t.a[0] else {}
    p = param_of(t)
    if t.op == 'param' and p in (1, 2):
        return {('L' if p == 1 else 'U',): 1}
    a = ar(t)
    if a:
        op, xs = a
        if op == 'pow' and is_const(strip(xs[1])):
            q, e = {(): 1}, strip(xs[1]).a[0]
            for _ in range(e):
                q = pmul(q, gp(xs[0]))
            return q
        if op in ('Add', 'Sub', 'Diff'):
            return padd(gp(xs[0]), gp(xs[1]), 1 if op == 'Add' else -1)
        if op == 'Mul':
            return pmul(gp(xs[0]), gp(xs[1]))
        if op == 'Div':
            n, d = gp(xs[0]), gp(xs[1])
            g = 0
            for v in list(n.values()) + list(d.values()):
                g = gcd(g, v)
            if g > 1:
                n, d = {k: v // g for k, v in n.items()}, {k: v // g for k, v in d.items()}
            if d == {(): 1}:
                return n
            fz = lambda q: tuple(sorted(q.items(), key=str))
            return {(('div', fz(n), fz(d)),): 1}
    return {(('t', t.id),): 1}


FZ = lambda q: tuple(sorted(q.items(), key=str))
RATIO = ('div', FZ({('U',): 10 ** 9}), FZ({('L',): 1}))
UNUSED = {('L',): 1, ('U',): -1}
SHORT = {(): 10 ** 8, (RATIO,): -1}
FORMULA = {(('div', FZ(pmul(pmul(SHORT, SHORT), UNUSED)), FZ({(): 10 ** 16})),): 1}


def gasrel(c):
    """the relation a condition states: ('limit', '<=' or '>', n), ('usage', '>=' or '<', 1/num/den)  or None"""
    if c[0] == 'cmp' and c[1] in ('lt', 'le'):
        a, b, strict_ = gp(c[2]), gp(c[3]), c[1] == 'lt'
    elif c[0] == 'cmp' and c[1] in ('eq', 'ne') or c[0] in ('is', 'isin', 'true'):
        return None
    else:
        return None
    d = padd(b, a, -1)                      # d >= 0, or d > 0 when strict
    if strict_:
        d = padd(d, {(): -1})               # d >= 0 over the integers
    # a quotient: k*(N div D) + c >= 0
    qs = [k for k in d if k and any(isinstance(x, tuple) and x[0] == 'div' for x in k)]
    if qs:
        if len(d) - len(qs) > (1 if () in d else 0) or len(qs) != 1 or len(qs[0]) != 1 or abs(d[qs[0]]) != 1:
            return ('other', d)
        n, q = dict(qs[0][0][1]), dict(qs[0][0][2])
        c0 = d.get((), 0)
        if d[qs[0]] == 1:                   # quotient >= -c0  <=>  N >= -c0 * D
            d = padd(n, pmul({(): -c0}, q), -1)
            if not d:
                return None
            return norm(d)
        # quotient <= c0  <=>  N < (c0 + 1) * D
        d = padd(pmul({(): c0 + 1}, q), n, -1)
        return norm(padd(d, {}), True)
    return norm(d)


def norm(d, strict_=False):
    ks = set(d)
    if ks <= {(), ('L',)} and ('L',) in d and abs(d[('L',)]) == 1:
        c = d.get((), 0)
        return ('limit', '>=', -c + strict_) if d[('L',)] == 1 else ('limit', '<=', c - strict_)
    if ks <= {(), ('U',)} and ('U',) in d and abs(d[('U',)]) == 1:
        c = d.get((), 0)
        return ('used', '>=', -c + strict_) if d[('U',)] == 1 else ('used', '<=', c - strict_)
    if ks == {('L',), ('U',)} or ks == {(), ('L',), ('U',)} and d[()] == -1:
        st = strict_ or () in d
        g = gcd(d[('L',)], d[('U',)])
        return ('usage', d[('L',)] // g, d[('U',)] // g, st)
    return ('other', d)


def zero_region(rs):
    """the conditions place the input where nothing is charged / where a penalty is due / neither"""
    lo = any(x[0] == 'limit' and x[1] == '<=' and x[2] <= 210000 for x in rs)
    hi = any(x[0] == 'limit' and x[1] == '>=' and x[2] >= 210001 for x in rs)
    used = any(x[0] == 'usage' and (x[1] < 0 < x[2]) and -10 * x[1] >= x[2] for x in rs)           # a*L + b*U >= 0 with U/L >= -a/b >= 1/10
    short = any(x[0] == 'usage' and x[1] > 0 > x[2] and x[3] and -x[2] >= 10 * x[1] for x in rs)   # U/L < a/-b <= 1/10
    return lo or used, hi and short, hi, short


@check('C31', ['tn_reth_part'])
def c31(r):
    b = bodyre(r, r'tn_reth_part::evm::utils::calculate_gas_penalty$')
    outs = [o for o in r.outs(b, sides=False)]
    pen = 0
    with r.section('formula'):
        for o in outs:
            if o.exit != 'ret':
                r.ok('no failure', False, 'calculate_gas_penalty can fail: %s' % txt(o, 160)) if o.exit in ('panic', 'abort') and not infeasible(o) else None
                continue
            if o.ret is None:
                continue
            rs = [x for x in map(gasrel, o.conds) if x]
            zero, due, hi, short = zero_region(rs)
            v = gp(o.ret)
            odd = [x for x in rs if x[0] == 'other'] or [c for c in o.conds if gasrel(c) is None and not (c[0] == 'is' and peel(c[1]).id != strip(c[1]).id) and not (c[0] == 'is' and ar(c[1]) and (checked(c[1])))]
            failed = [c for c in o.conds if c[0] == 'is' and c[2] in ('Ok', 'Some') and not c[3]]
            if failed:
                t = failed[0][1]
                if impossible(rs):
                    continue
                rng = irange(r, strip(t), o, rs)
                w = 64 if leaf(strip(t).a[0] if strip(t).op == 'call' else '') in ('try_from', 'try_into') else width(t)
                if rng is not None and w and 0 <= rng[0] and rng[1] < 2 ** w:
                    continue                                   # cannot fail
                if v == UNUSED:
                    r.ok('never more than the unused gas', True)
                    continue
            if odd and not zero and all(isinstance(c, tuple) and c[0] == 'cmp' and c[1] in ('eq', 'le', 'lt') and param_of(c[2]) == 2 and is_const(strip(c[3])) and strip(c[3]).a[0] < 10 ** 15 for c in odd) and not any(x[0] != 'limit' or x[1] != '>=' for x in rs):
                odd = []                              # any such use of a large enough limit is below the threshold
            if v == {}:
                r.ok('nothing charged only where nothing is due', zero or impossible(rs), 'no penalty is charged although %s' % txt(o, 200)) if zero or not odd or due else r.undec.append('zero: ' + txt(o, 200))
                continue
            m = peel(o.ret)
            while m.op == 'cast':
                m = peel(m.a[1])
            a = ar(m)
            if a and a[0] == 'min':
                vs = [gp(x) for x in a[1]]
                if UNUSED in vs and FORMULA in vs:
                    v = FORMULA
            if any(isinstance(x, tuple) and x[0] == 't' for k in v for x in k):
                r.undec.append('value %s' % show(o.ret)[:160])
                continue
            pen += 1
            r.ok('the formula', v == FORMULA, 'the penalty is %s' % show(o.ret)[:300])
            if not (hi and short) and odd:
                r.undec.append('region: ' + txt(o, 200))
            else:
                r.ok('a penalty only where it is due', hi and short, 'a penalty is charged although %s' % ('the gas limit may be at the minimum' if not hi else 'the usage may reach ten percent') + ': ' + txt(o, 200))
        pen or r.undec.append('no penalty is computed')
    with r.section('arithmetic'):
        seen = set()
        for o in outs:
            rs = [x for x in map(gasrel, o.conds) if x]
            zero, due, hi, short = zero_region(rs)
            ts = {}
            # each operation is judged under the conditions that hold when it is computed
            for i, c in enumerate(o.conds):
                for x in c[1:]:
                    if isinstance(x, T):
                        for z in subterms(strip(x)):
                            ts.setdefault(z.id, (z, i))
            if o.ret is not None:
                for z in subterms(strip(o.ret)):
                    ts.setdefault(z.id, (z, len(o.conds)))
            for z, n in ts.values():
                pre = [x for x in map(gasrel, o.conds[:n]) if x]
                a = ar(z) if z.op in ('bin', 'call') and peel(z) is z else None
                if a is None or z.op == 'bin' and a[0] not in ('Add', 'Sub', 'Mul', 'Div', 'Rem') or z.op == 'call' and not (leaf(z.a[0]) == 'pow' or leaf(z.a[0]).startswith(('wrapping', 'saturating'))):
                    if z.op == 'cast' and width(z.a[1]) and BITS.get(z.a[0]) and BITS[z.a[0]] < width(z.a[1]):
                        rng = irange(r, z.a[1], o, pre)
                        if rng is not None:
                            r.ok('conversions keep the value', rng[1] < 2 ** BITS[z.a[0]], 'the conversion %s may lose bits' % show(z)[:160])
                    continue
                op, xs = a
                w = width(z)
                if op in ('Div', 'Rem'):
                    rng = irange(r, xs[1], o, pre)
                    r.ok('no division by zero', rng is not None and rng[0] > 0, '%s may divide by zero' % show(z)[:120])
                    continue
                rng = irange(r, z, o, pre)
                if rng is None or w is None:
                    r.undec.append('range of %s' % show(z)[:120])
                    continue
                if z.op == 'call' and leaf(z.a[0]).startswith('saturating') and op == 'Sub' and gp(z) == UNUSED:
                    if n == len(o.conds) or not (hi and short):
                        pass
                r.ok('no overflow', 0 <= rng[0] and rng[1] < 2 ** w, '%s is computed in %d bits but can be %s' % (show(z)[:160], w, rng[1] if rng[1] >= 2 ** w else rng[0]))


def checked(t):
    t = strip(t)
    return t.op == 'call' and leaf(t.a[0]).startswith('checked_')


def impossible(rs):
    us = [x for x in rs if x[0] == 'usage']
    # U/L >= p and U/L < q with q <= p
    lo = [Fraction(-x[1], x[2]) for x in us if x[1] < 0 < x[2]]
    hi = [Fraction(x[1], -x[2]) for x in us if x[1] > 0 > x[2]]
    if lo and hi and (max(lo) > min(hi) or max(lo) == min(hi) and any(x[3] for x in us if x[1] > 0 > x[2] and Fraction(x[1], -x[2]) == min(hi))):
        return True
    return any(x[0] == 'limit' and x[1] == '>=' and any(y[0] == 'limit' and y[1] == '<=' and y[2] < x[2] for y in rs) for x in rs)


def infeasible(o):
    return any(c[0] == 'is' and peel(c[1]).id != strip(c[1]).id for c in o.conds)


M64 = 2 ** 64 - 1


def irange(r, t, o, rs):
    """the values of t under the relations rs"""
    t = peel(t)
    while t.op == 'cast':
        t = peel(t.a[1])
    lo, hi = 0, M64
    for x in rs:
        if x[0] == 'limit':
            if x[1] == '>=':
                lo = max(lo, x[2])
            else:
                hi = min(hi, x[2])
    short = [x for x in rs if x[0] == 'usage' and x[1] > 0 > x[2] and x[3] and -x[2] > x[1]]

    def go(t):
        t = peel(t)
        while t.op == 'cast':
            t = peel(t.a[1])
        if is_const(t):
            return (int(t.a[0]), int(t.a[0]))
        if t.op == 'param':
            return (lo, hi) if param_of(t) == 1 else (0, M64)
        p = gp(t)
        if p == {(RATIO,): 1} and short:
            # U/L < a/b: floor(1e9 U / L) <= ceil(1e9 a / b) - 1
            return (0, min(-(-10 ** 9 * x[1] // -x[2]) - 1 for x in short))
        if p == UNUSED:
            if short:
                return (1, hi)
            return (-M64, M64) if not (t.op == 'call' and leaf(t.a[0]).startswith('saturating')) else (0, M64)
        a = ar(t)
        if not a:
            return None
        op, xs = a
        if op == 'pow':
            v = go(xs[0])
            e = strip(xs[1])
            return None if v is None or not is_const(e) or v[0] < 0 else (v[0] ** e.a[0], v[1] ** e.a[0])
        x, y = go(xs[0]), go(xs[1])
        if x is None or y is None:
            return None
        if op == 'Add':
            return (x[0] + y[0], x[1] + y[1])
        if op == 'Sub':
            v = (x[0] - y[1], x[1] - y[0])
            if t.op == 'call' and leaf(t.a[0]).startswith('saturating'):
                v = (max(v[0], 0), max(v[1], 0))
            return v
        if op == 'Mul':
            return (x[0] * y[0], x[1] * y[1]) if x[0] >= 0 and y[0] >= 0 else None
        if op == 'Div':
            return (x[0] // max(y[1], 1), x[1] // y[0]) if y[0] > 0 and x[0] >= 0 else None
        if op == 'min':
            return (min(x[0], y[0]), min(x[1], y[1]))
        if op == 'max':
            return (max(x[0], y[0]), max(x[1], y[1]))
        return None
    return go(t)
