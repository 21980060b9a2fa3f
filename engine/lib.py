"""Shared readings of value terms: byte strings, verdicts, library calls."""
import re
from .terms import *
from .pat import *

ALIAS = {'as_slice', 'as_ref', 'to_vec', 'to_owned', 'clone', 'as_bytes', 'as_mut_slice', 'borrow', 'deref', 'into_boxed_slice', 'into_vec_',
         'as_array', 'copied', 'cloned', 'as_mut', 'as_ptr', 'into_inner_', 'to_string_', 'as_str', 'into_bytes', 'as_deref'}
EMPTY = {'new', 'with_capacity', 'default'}
APPEND = {'extend_from_slice', 'extend', 'append', 'push', 'push_str', 'write_all', 'put_slice', 'put', 'update'}


def is_full(t):
    return t.op == 'agg' and t.a[0].endswith('range::RangeFull')


def view(t):
    """t with wrappers that do not change the bytes removed"""
    while True:
        if t.op == 'call' and t.a[1] and leaf(t.a[0]) in ALIAS:
            t = t.a[1][0]
        elif t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut', 'get_unchecked') and len(t.a[1]) == 2 and is_full(t.a[1][1]):
            t = t.a[1][0]
        elif t.op == 'call' and leaf(t.a[0]) in ('from', 'into') and len(t.a[1]) == 1 and any(
                x in t.a[0] for x in ('Vec', '[T', '[u8', 'T::', 'Cow', 'Box', 'Arc', 'bytes::', 'FixedBytes', 'String')):
            t = t.a[1][0]
        else:
            return t


def cat(t):
    """the byte pieces t is the concatenation of, outermost views removed: [term]"""
    t = strip(t)
    out = _cat(t)
    return [strip(view(x)) for x in out]


def _cat(t):
    t = view(t)
    if t.op == 'upd!':
        fn = leaf(t.a[1])
        if fn in APPEND and len(t.a) >= 5:
            return _cat(t.a[0]) + _cat(t.a[4])
        if fn == 'copy_from_slice' and len(t.a) >= 5 and t.a[0].op in ('rep',):
            return _cat(t.a[4])
        if fn in ('reserve', 'reserve_exact', 'shrink_to_fit'):
            return _cat(t.a[0])
        return [t]
    if t.op == 'call':
        fn = leaf(t.a[0])
        if fn in EMPTY and ('Vec' in t.a[0] or 'String' in t.a[0] or 'Hasher' in t.a[0] or 'BytesMut' in t.a[0]):
            return []
        if fn in ('concat', 'join') and t.a[1]:
            a = view(t.a[1][0])
            if a.op == 'agg' and a.a[0] == 'array' and (fn == 'concat'):
                return [y for _, x in a.a[2] for y in _cat(x)]
        if fn == 'collect' and t.a[1]:
            return _cat(t.a[1][0])
        if fn == 'chain' and len(t.a[1]) == 2:
            return _cat(t.a[1][0]) + _cat(t.a[1][1])
        if fn in ('iter', 'into_iter', 'copied', 'cloned', 'from_slice') and t.a[1]:
            return _cat(t.a[1][0])
    if t.op == 'agg' and t.a[0] == 'array' and not t.a[2]:
        return []
    return [t]


def positive(o):
    """conditions under which outcome o is a positive answer (true / Ok / Some); None when it never is"""
    if o.exit != 'ret' or o.ret is None:
        return None
    t = o.ret
    if t.op == 'agg' and t.a[1] in ('Err', 'None'):
        return None
    if t.op == 'agg' and t.a[1] in ('Ok', 'Some'):
        return list(o.conds)
    if t.op == 'c' and t.a[1] == 'bool':
        return list(o.conds) if t.a[0] else None
    return list(o.conds) + [condval(t)]


def condval(t):
    """condition under which a bool/Result/Option value is positive"""
    c = cond(t)
    return c


def nfold(c):
    """a condition on a returned Result/Option: holds when it is Ok/Some"""
    return c


def result_ok(c, p):
    """condition c says that a term satisfying p is Ok/Some (either as a test or as the returned value)"""
    return (c[0] == 'is' and c[2] in ('Ok', 'Some') and c[3] and p(c[1])) or (c[0] == 'true' and c[2] and p(c[1]))


def intent_of(t):
    """(scope, version, app) of an Intent term"""
    if t.op == 'agg' and path_match(t.a[0], 'intent::Intent'):
        vs = []
        for n in ('scope', 'version', 'app_id'):
            v = fld(t, n)
            vs.append(v.a[1] if v.op == 'agg' else v)
        return tuple(vs)
    return None


def encoded(t):
    """the value t is the canonical encoding of (bcs::to_bytes(v)?), or None"""
    t = view(strip(t))
    x = t
    while x.op in ('fld', 'as'):
        x = x.a[0]
    if x.op == 'call' and leaf(x.a[0]) == 'to_bytes' and 'bcs' in x.a[0] or (x.op == 'call' and x.a[0].endswith('ser::to_bytes')):
        return view(x.a[1][0])
    return None


def possible(conds, sub):
    """conds can all hold when the terms are replaced as sub says"""
    return all(truth(c, sub) is not False for c in conds)


def _num(t, sub):
    v = sub(t)
    if v is not None:
        return v.a[0]
    if is_const(t):
        return t.a[0]
    if t.op == 'cast':
        return _num(t.a[1], sub)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul'):
        a, b = _num(t.a[1], sub), _num(t.a[2], sub)
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[t.a[0]]
    return None


def truth(c, sub):
    if c[0] == 'cmp':
        a, b = _num(c[2], sub), _num(c[3], sub)
        if a is None or b is None:
            return None
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b}[c[1]]
    if c[0] == 'isin':
        a = _num(c[1], sub)
        return None if a is None else str(a) not in [str(x) for x in c[2]]
    if c[0] == 'true' and c[1].op == 'c':
        return bool(c[1].a[0]) == c[2]
    if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains' and len(c[1].a[1]) == 2:
        xs, x = c[1].a[1]
        x = _num(x, sub)
        if x is None:
            return None
        if xs.op == 'agg' and xs.a[0] == 'array':
            vs = [_num(v, sub) for _, v in xs.a[2]]
            return None if None in vs else (x in vs) == c[2]
        if xs.op == 'agg' and leaf(xs.a[0]) in ('Range', 'RangeInclusive') and len(xs.a[2]) >= 2:
            lo, hi = _num(xs.a[2][0][1], sub), _num(xs.a[2][1][1], sub)
            if lo is None or hi is None:
                return None
            return (lo <= x <= hi if leaf(xs.a[0]) == 'RangeInclusive' else lo <= x < hi) == c[2]
    return None


def value(t, sub):
    if t.op == 'c':
        return bool(t.a[0])
    return truth(cond(t), sub)


def own_conds(e, outs):
    """the conditions of an emission that do not hold on every one of the given outcomes anyway"""
    from .comp import ccanon
    every = None
    for o in outs:
        s = {ccanon(c) for c in o.conds}
        every = s if every is None else every & s
    return [c for c in e.conds if c not in (every or ())]


# ---------------------------------------------------------------- bit-level reading of integer terms
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i32': 32, 'i64': 64}


def bits(t, width, atom):
    """t as a list of `width` bits, each 0, 1 or (atom key, index); None where it is not a plain rearrangement of bits.
    atom(t) -> (key, bit width) for the terms to be treated as unknowns"""
    a = atom(t)
    if a is not None:
        k, w = a
        return [(k, i) if i < w else 0 for i in range(width)]
    if t.op == 'c' and isinstance(t.a[0], int):
        return [(t.a[0] >> i) & 1 for i in range(width)]
    if t.op == 'cast' or (t.op == 'call' and leaf(t.a[0]) in ('from', 'into') and len(t.a[1]) == 1):
        x = t.a[1] if t.op == 'cast' else t.a[1][0]
        w = WIDTH.get(t.a[0], width) if t.op == 'cast' else width
        xs = bits(x, max(width, 64), atom)
        return None if xs is None else [b if i < w else 0 for i, b in enumerate(xs[:width])]
    if t.op == 'bin':
        op, x, y = t.a
        if op.startswith('Shl') or op.startswith('Shr') or (op in ('Div', 'Mul', 'Rem') and is_const(y) and y.a[0] > 0 and y.a[0] & (y.a[0] - 1) == 0):
            if not is_const(y):
                return None
            n = y.a[0] if op[:2] == 'Sh' else y.a[0].bit_length() - 1
            xs = bits(x, width, atom)
            if xs is None:
                return None
            if op == 'Rem':
                return [b if i < n else 0 for i, b in enumerate(xs)]
            return ([0] * n + xs)[:width] if op.startswith('Shl') or op == 'Mul' else xs[n:] + [0] * min(n, width)
        xs, ys = bits(x, width, atom), bits(y, width, atom)
        if xs is None or ys is None:
            return None
        out = []
        for p_, q in zip(xs, ys):
            if op in ('BitOr', 'Add', 'BitXor') and 0 in (p_, q):
                out.append(q if p_ == 0 else p_)
            elif op == 'BitAnd' and (p_ in (0, 1) or q in (0, 1)):
                out.append(0 if 0 in (p_, q) else (q if p_ == 1 else p_))
            else:
                return None
        return out
    return None


def param_of(t):
    """index of the parameter t is (through wrappers, inner fields of newtypes and references)"""
    t = view(strip(t))
    while t.op in ('fld', 'as'):
        t = t.a[0]
    return t.a[0] if t.op == 'param' else None


# ---------------------------------------------------------------- comparators
class NoOrder(Exception):
    pass


SIGN = {'Less': -1, 'Equal': 0, 'Greater': 1}


def ord_eval(R, t, sgn):
    """sign of an Ordering-valued term when sgn(x, y) gives the sign of comparing two terms"""
    from .comp import apply
    t = strip(t)
    if t.op == 'agg' and t.a[1] in SIGN:
        return SIGN[t.a[1]]
    if t.op == 'call':
        n = leaf(t.a[0])
        if n in ('cmp', 'partial_cmp', 'total_cmp') and len(t.a[1]) == 2:
            return pair_sign(t.a[1][0], t.a[1][1], sgn)
        if n == 'reverse':
            return -ord_eval(R, t.a[1][0], sgn)
        if n == 'then':
            return ord_eval(R, t.a[1][0], sgn) or ord_eval(R, t.a[1][1], sgn)
        if n == 'then_with':
            a = ord_eval(R, t.a[1][0], sgn)
            return a or pick_sign(R, apply(R, t.a[1][1], []), sgn)
        if n in ('unwrap', 'expect', 'unwrap_or'):
            return ord_eval(R, t.a[1][0], sgn)
    if t.op in ('fld', 'as'):
        return ord_eval(R, t.a[0], sgn)
    raise NoOrder(show(t)[:160])


def pair_sign(a, b, sgn):
    a, b = view(strip(a)), view(strip(b))
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
        if leaf(a.a[0]) == 'Reverse':
            return pair_sign(a.a[2][0][1], b.a[2][0][1], lambda x, y: -sgn(x, y)) if a.a[2] else 0
        for (_, x), (_, y) in zip(a.a[2], b.a[2]):
            s = pair_sign(x, y, sgn)
            if s:
                return s
        return 0
    return sgn(a, b)


def ord_cond(R, c, sgn):
    if c[0] == 'const':
        return c[1]
    if c[0] == 'is' and c[2] in SIGN:
        return (ord_eval(R, c[1], sgn) == SIGN[c[2]]) == c[3]
    if c[0] == 'isin' and set(c[2]) <= set(SIGN):
        return ord_eval(R, c[1], sgn) not in [SIGN[x] for x in c[2]]
    if c[0] == 'cmp':
        s = sgn(view(strip(c[2])), view(strip(c[3])))
        return {'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0}[c[1]]
    if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        s = sgn(view(strip(c[1].a[1][0])), view(strip(c[1].a[1][1])))
        return {'eq': s == 0, 'ne': s != 0, 'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[leaf(c[1].a[0])] == c[2]
    raise NoOrder(showc(c)[:160])


def pick_sign(R, outs, sgn):
    rs = {ord_eval(R, ret, sgn) for cs, ret in outs if all(ord_cond(R, c, sgn) for c in cs)}
    if len(rs) != 1:
        raise NoOrder('%d results' % len(rs))
    return rs.pop()


def sorters(t):
    """[(method, argument)] of the in-place reorderings applied to a vector, in order"""
    out = []
    while t.op in ('upd!', 'upd') or (t.op == 'call' and leaf(t.a[0]) in ('into_iter', 'collect', 'iter', 'rev', 'into')):
        if t.op == 'call':
            if leaf(t.a[0]) == 'rev':
                out.append(('reverse', None))
            t = t.a[1][0]
            continue
        n = leaf(t.a[1])
        if n.startswith('sort') or n == 'reverse':
            out.append((n, t.a[4] if len(t.a) > 4 else None))
        elif n in ('push', 'push_back', 'extend', 'append', 'insert', 'extend_from_slice'):
            break
        t = t.a[0]
    return out[::-1], t


def shrinkers(t):
    """the in-place removals applied to a vector"""
    out = []
    while t.op in ('upd!', 'upd') or (t.op == 'call' and leaf(t.a[0]) in ('into_iter', 'collect', 'iter', 'rev', 'into')):
        if t.op == 'call':
            t = t.a[1][0]
            continue
        if leaf(t.a[1]) in ('truncate', 'dedup_by_key', 'dedup_by', 'pop', 'remove', 'swap_remove', 'clear', 'drain', 'split_off', 'retain', 'retain_mut', 'resize'):
            out.append(leaf(t.a[1]))
        t = t.a[0]
    return out


def sorted_sign(R, t, keys):
    """function (signs of the given keys) -> sign with which the result orders two elements.
    keys: {name: predicate(term, side_element_term)}"""
    from .comp import apply
    from .terms import mk
    ss, base = sorters(t)
    if not ss:
        return None, base
    A, B = mk('param', 101, 'a'), mk('param', 102, 'b')

    def sgn_of(assign):
        def s(x, y):
            for k, m in keys.items():
                if m(x, A) and m(y, B):
                    return assign[k]
                if m(x, B) and m(y, A):
                    return -assign[k]
            raise NoOrder('compares %s with %s' % (show(x)[:80], show(y)[:80]))
        return s

    def run(assign):
        cur = None
        for n, arg in ss:
            if n == 'reverse':
                if cur is None:
                    raise NoOrder('reverse before sorting')
                cur = -cur
            elif n in ('sort_by', 'sort_unstable_by'):
                cur = pick_sign(R, apply(R, arg, [A, B]), sgn_of(assign))
            elif n in ('sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key'):
                ka, kb = apply(R, arg, [A]), apply(R, arg, [B])
                if len(ka) != 1 or len(kb) != 1:
                    raise NoOrder('branching key')
                cur = pair_sign(ka[0][1], kb[0][1], sgn_of(assign))
            else:
                raise NoOrder(n)
        return cur
    return run, base


# ---------------------------------------------------------------- intervals
def interval(t, env, top=None):
    """(lo, hi) that contains every value of the integer term t; env(term) gives the interval of an atom or None; None: unknown"""
    v = env(t)
    if v is not None:
        return v
    if is_const(t):
        return (int(t.a[0]), int(t.a[0])) if isinstance(t.a[0], (int, bool)) else top
    rng = None
    if t.op == 'elem' or (t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[0].op == 'next'):
        rng = t.a[0] if t.op == 'elem' else t.a[0].a[0].a[0]
    if t.op == 'payload' and t.a[0].op == 'next':
        rng = t.a[0].a[0]
    if rng is not None:
        while rng.op == 'call' and leaf(rng.a[0]) in ('rev', 'iter', 'into_iter', 'by_ref') and rng.a[1]:
            rng = rng.a[1][0]
        if rng.op == 'agg' and '::Range' in rng.a[0] and len(rng.a[2]) >= 2:
            lo, hi = interval(rng.a[2][0][1], env), interval(rng.a[2][1][1], env)
            inc = leaf(rng.a[0]) == 'RangeInclusive'
        elif rng.op == 'call' and 'RangeInclusive' in rng.a[0] and len(rng.a[1]) == 2:
            (lo, hi), inc = (interval(x, env) for x in rng.a[1]), True
        else:
            return top
        return top if lo is None or hi is None else (lo[0], hi[1] if inc else hi[1] - 1)
    if t.op == 'cast':
        return interval(t.a[1], env, top)
    if t.op == 'call' and leaf(t.a[0]) in ('from', 'into', 'try_from', 'try_into') and len(t.a[1]) == 1:
        return interval(t.a[1][0], env, top)
    if t.op == 'call' and leaf(t.a[0]) in ('rem_euclid',) and len(t.a[1]) == 2:
        return interval(mk('bin', 'Rem', *t.a[1]), env, top)
    if t.op == 'call' and re.search(r'(wrapping|checked|saturating|overflowing)_(add|sub|mul|rem|div)$', t.a[0]) and len(t.a[1]) == 2:
        return interval(mk('bin', leaf(t.a[0]).split('_')[1].capitalize(), *t.a[1]), env, top)
    if t.op in ('fld', 'as') and t.a[0].op in ('as', 'call'):
        x = t
        while x.op in ('fld', 'as'):
            x = x.a[0]
        if x.op == 'call' and leaf(x.a[0]) in ('try_from', 'try_into', 'from', 'into') or x.op == 'call' and 'checked_' in x.a[0]:
            return interval(x, env, top)
        return top
    if t.op == 'bin' and len(t.a) == 3:
        a, b = interval(t.a[1], env, top), interval(t.a[2], env, top)
        op = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        if op == 'Rem' and b is not None and b[0] == b[1] > 0:
            n = b[0]
            if a is not None and a[0] // n == a[1] // n and a[0] >= 0:
                return a[0] % n, a[1] % n
            return 0, n - 1
        if op == 'BitAnd':
            m = [x[1] for x in (a, b) if x is not None and x[0] >= 0]
            return (0, min(m)) if m else top
        if a is None or b is None:
            return top
        if op == 'Add':
            return a[0] + b[0], a[1] + b[1]
        if op == 'Sub':
            return a[0] - b[1], a[1] - b[0]
        if op == 'Mul':
            xs = [x * y for x in a for y in b]
            return min(xs), max(xs)
        if op == 'Div' and b[0] > 0 and a[0] >= 0:
            return a[0] // b[1], a[1] // b[0]
        if op == 'Shl' and b[0] == b[1]:
            return a[0] << b[0], a[1] << b[0]
        if op == 'Shr' and b[0] == b[1]:
            return a[0] >> b[0], a[1] >> b[0]
        if op == 'BitOr' and a[0] >= 0 and b[0] >= 0:
            return max(a[0], b[0]), (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
    return top
