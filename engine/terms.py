"""Hash-consed symbolic value terms (value numbers) and normalised branch conditions."""
import re
from .facts import path_match

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'id', '_s', '_fs')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _cnt[0] += 1
        t.id = _cnt[0]
        t._s = None
        t._fs = None
        _tab[k] = t
    return t


def const(v, ty=''):
    return mk('c', v, ty)


TRUE = const(1, 'bool')
FALSE = const(0, 'bool')
UNIT = mk('agg', '()', '', ())


def agg(path, variant, fields):
    return mk('agg', path, variant, tuple(fields))


OPT = 'core::option::Option'
RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
POLL = 'core::task::poll::Poll'


def some(x):
    return agg(OPT, 'Some', (('0', x),))


NONE = agg(OPT, 'None', ())


def ok(x):
    return agg(RES, 'Ok', (('0', x),))


def err(x):
    return agg(RES, 'Err', (('0', x),))


def fld(t, name):
    if t.op == 'agg':
        for n, v in t.a[2]:
            if n == name:
                return v
    elif t.op == 'upd':
        if t.a[1] == name:
            return t.a[2]
        return fld(t.a[0], name)
    elif t.op == 'as' and t.a[0].op == 'agg' and t.a[0].a[1] == t.a[1]:
        return fld(t.a[0], name)
    elif t.op == 'closure':
        for n, v in t.a[1]:
            if n == name:
                return v
    return mk('fld', t, name)


def dcast(t, v):
    if t.op == 'agg' and t.a[1] == v:
        return t
    if t.op == 'call' and t.a[0] == 'transpose' and t.a[1][0].op == 'agg':
        z = t.a[1][0]
        x = fld(z, '0')
        if z.a[1] == 'Some' and v == 'Ok':
            return ok(some(payload(x, 'Ok')))
        if z.a[1] == 'Some' and v == 'Err':
            return err(payload(x, 'Err'))
        if z.a[1] == 'Ok' and v == 'Some':
            return some(ok(payload(x, 'Some')))
    return mk('as', t, v)


def upd(t, name, v):
    if t.op == 'agg' and t.a[0] != 'array':
        fs = list(t.a[2])
        for i, (n, _) in enumerate(fs):
            if n == name:
                fs[i] = (n, v)
                return agg(t.a[0], t.a[1], fs)
        if t.a[0] == '?':
            return agg('?', '', fs + [(name, v)])
    if t.op == 'upd' and t.a[1] == name:
        return mk('upd', t.a[0], name, v)
    return mk('upd', t, name, v)


def payload(t, v):
    return fld(dcast(t, v), '0')


def is_const(t):
    return t.op == 'c' and isinstance(t.a[0], int)


_ARITH = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
    'Div': lambda a, b: a // b if b else None, 'Rem': lambda a, b: a % b if b else None,
    'Shl': lambda a, b: a << b if b < 200 else None, 'Shr': lambda a, b: a >> b,
    'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
}
_CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
        'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}


def binop(op, a, b):
    if op.endswith('WithOverflow'):
        r = binop(op[:-12], a, b)
        return agg('tuple', '', (('0', r), ('1', mk('ovf', r))))
    if op.endswith('Unchecked'):
        op = op[:-9]
    if is_const(a) and is_const(b):
        if op in _ARITH:
            r = _ARITH[op](a.a[0], b.a[0])
            if r is not None:
                return const(r, a.a[1])
        if op in _CMP:
            return TRUE if _CMP[op](a.a[0], b.a[0]) else FALSE
    return mk('bin', op, a, b)


def length(t):
    """the number of elements of t: known for arrays"""
    x = t
    while x.op == 'upd!':
        x = x.a[0]
    if x.op == 'rep' and str(getattr(x.a[1], 'a', (x.a[1],))[0]).isdigit():
        return const(int(getattr(x.a[1], 'a', (x.a[1],))[0]), 'usize')
    if x.op == 'agg' and x.a[0] == 'array':
        return const(len(x.a[2]), 'usize')
    if x.op == 'c' and x is t:
        n = re.match(r'^&?(?:&.static )?\[u8; (\d+)\]$', str(x.a[1]))
        if n:
            return const(int(n.group(1)), 'usize')
    return mk('call', 'len', (t,), None)


def unop(op, a):
    if op == 'Not' and is_const(a) and a.a[1] == 'bool':
        return FALSE if a.a[0] else TRUE
    if op == 'Not' and a.op == 'un' and a.a[0] == 'Not':
        return a.a[1]
    if op == 'PtrMetadata':
        return length(a)
    return mk('un', op, a)


def call(name, args, site=None):
    args = tuple(args)
    if site is None:
        lf = leaf(name)
        if lf == 'get' and len(args) == 1 and 'NonZero' in name:
            a = args[0]
            if a.op == 'fld' and a.a[0].op == 'as' and a.a[0].a[0].op == 'call' and 'NonZero::new' in a.a[0].a[0].a[0]:
                return a.a[0].a[0].a[1][0]
        elif lf in ('max', 'min') and len(args) == 2 and name.startswith(('core::cmp', 'u', 'i')):
            return mk('call', lf, tuple(sorted(args, key=_csort)), None)
        elif lf == 'is_multiple_of' and len(args) == 2:
            return binop('Eq', binop('Rem', args[0], args[1]), const(0, name.split('::')[0]))
    return mk('call', name, args, site)


# ---------------------------------------------------------------- rendering
def short(p):
    p = p.replace('{closure#0}', '{c0}')
    if p.startswith('<'):
        i = p.rfind('>::')
        head, tail = p[1:i], p[i + 3:]
        if ' as ' in head:
            a, b = head.split(' as ', 1)
            return '%s::%s' % (a.split('::')[-1], tail)
    parts = p.split('::')
    return '::'.join(parts[-2:])


def show(t, d=0):
    if t._s is not None:
        return t._s
    if d > 14:
        return '..'
    o, a = t.op, t.a
    r = lambda x: show(x, d + 1)
    if o == 'c':
        s = str(a[0]) if a[1] != 'bool' else ('true' if a[0] else 'false')
    elif o == 'str':
        s = repr(a[0])
    elif o == 'fn':
        s = short(a[0])
    elif o == 'param':
        s = a[1]
    elif o == 'fld':
        s = '%s.%s' % (r(a[0]), a[1])
    elif o == 'as':
        s = '%s?%s' % (r(a[0]), a[1])
    elif o == 'idx':
        s = '%s[%s]' % (r(a[0]), r(a[1]))
    elif o == 'bin':
        s = '(%s %s %s)' % (r(a[1]), a[0], r(a[2]))
    elif o == 'un':
        s = '%s(%s)' % (a[0], r(a[1]))
    elif o == 'cast':
        s = '%s as %s' % (r(a[1]), a[0])
    elif o == 'call':
        s = '%s(%s)' % (short(a[0]), ', '.join(r(x) for x in a[1]))
        if a[2] is not None:
            s += '@%s' % (a[2],)
    elif o == 'agg':
        s = '%s%s{%s}' % (short(a[0]) if a[0] not in ('tuple',) else '', ('::' + a[1]) if a[1] else '',
                          ', '.join('%s: %s' % (n, r(v)) for n, v in a[2]))
    elif o == 'upd':
        s = '%s{%s:=%s}' % (r(a[0]), a[1], r(a[2]))
    elif o == 'lref':
        s = '&mut#%s' % (a[:3],)
    elif o == 'phi':
        s = 'phi(%s)' % (a[-1],)
    elif o == 'guard':
        s = 'guard(%s)' % r(a[0])
    elif o == 'closure':
        s = 'closure(%s)' % short(a[0])
    elif o == 'elem':
        s = 'elem(%s)' % r(a[0]) if len(a) == 1 else 'elem%s(%s)' % (a[1], r(a[0]))
    elif o == 'upd!':
        s = '%s!%s(%s)' % (r(a[0]), short(a[1]), ', '.join(r(x) for x in a[4:]))
    else:
        s = '%s(%s)' % (o, ', '.join(r(x) if isinstance(x, T) else str(x) for x in a))
    if d == 0:
        t._s = s
    return s


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for c in children(x):
            st.append(c)


def children(t):
    out = []
    if t.op == 'agg' or t.op == 'closure':
        for _, v in t.a[-1]:
            out.append(v)
        return out
    for x in t.a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    out.append(y)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


# ---------------------------------------------------------------- conditions
def leaf(p):
    p = p.rsplit('::', 1)[-1]
    return p.split('@')[0] if '@' in p else p


_IS = {'is_some': ('Some', True), 'is_none': ('Some', False), 'is_ok': ('Ok', True), 'is_err': ('Ok', False),
       'is_ready': ('Ready', True), 'is_pending': ('Ready', False),
       'is_break': ('Continue', False), 'is_continue': ('Continue', True)}
_CMPF = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}
_OPP = {'Err': 'Ok', 'None': 'Some', 'Pending': 'Ready', 'Break': 'Continue'}


def cmpc(op, a, b):
    """canonical comparison: only eq/ne/lt/le; eq/ne ordered"""
    if op == 'Gt':
        op, a, b = 'Lt', b, a
    elif op == 'Ge':
        op, a, b = 'Le', b, a
    op = op.lower()
    # integer constants: only <= ; and 0-tests of unsigned values become ==/!=
    if op in ('lt', 'le'):
        if is_const(b) and b.a[1] in _INTS:
            if op == 'lt':
                op, b = 'le', const(b.a[0] - 1, b.a[1])
            if b.a[0] == 0 and b.a[1] in _UINTS:
                op = 'eq'
            elif b.a[0] < 0 and b.a[1] in _UINTS:
                return ('const', False)
        elif is_const(a) and a.a[1] in _INTS:
            if op == 'lt':
                op, a = 'le', const(a.a[0] + 1, a.a[1])
            if a.a[0] == 1 and a.a[1] in _UINTS:
                op, a = 'ne', const(0, a.a[1])
            elif a.a[0] == 0 and a.a[1] in _UINTS:
                return ('const', True)
    if op in ('eq', 'ne') and _csort(b) < _csort(a):
        a, b = b, a
    return ('cmp', op, a, b)


_UINTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}
_INTS = _UINTS | {'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}


def _csort(t):
    # constants last, otherwise by rendering
    return (1 if is_const(t) else 0, show(t))


_NEG = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}


def negc(c):
    """negation of a condition (None when it has no normal form)"""
    k = c[0]
    if k == 'const':
        return ('const', not c[1])
    if k == 'cmp':
        o = {'eq': 'Ne', 'ne': 'Eq', 'lt': 'Ge', 'le': 'Gt'}[c[1]]
        return cmpc(o, c[2], c[3])
    if k == 'is':
        return ('is', c[1], c[2], not c[3])
    if k == 'true':
        return ('true', c[1], not c[2])
    return None


def _bounds(r):
    """(low or None, high or None, high included) of a range"""
    if r.op == 'agg' and leaf(r.a[0]) in ('Range', 'RangeInclusive', 'RangeTo', 'RangeToInclusive', 'RangeFrom'):
        fs = dict(r.a[2])
        return fs.get('start'), fs.get('end'), leaf(r.a[0]).endswith('Inclusive')
    if r.op == 'call' and leaf(r.a[0]) == 'new' and 'RangeInclusive' in r.a[0] and len(r.a[1]) == 2:
        return r.a[1][0], r.a[1][1], True
    return None


def cond(t, pol=True):
    """Normalise a boolean term being true (pol) or false into a condition tuple; ('const', bool) if folded."""
    while t.op == 'un' and t.a[0] == 'Not':
        t, pol = t.a[1], not pol
    if is_const(t):
        return ('const', bool(t.a[0]) == pol)
    if t.op == 'bin' and t.a[0] in _CMP:
        op = t.a[0]
        # bool == const
        if op in ('Eq', 'Ne') and is_const(t.a[2]) and t.a[2].a[1] == 'bool':
            return cond(t.a[1], pol == ((op == 'Eq') == bool(t.a[2].a[0])))
        if not pol:
            op = _NEG[op]
        return cmpc(op, t.a[1], t.a[2])
    if t.op == 'call':
        n = leaf(t.a[0])
        if n in _IS and len(t.a[1]) == 1:
            v, p = _IS[n]
            return isvar(t.a[1][0], v, p == pol)
        if n in _CMPF and len(t.a[1]) == 2:
            op = _CMPF[n]
            a, b = t.a[1]
            for x, y in ((a, b), (b, a)):
                # comparison against a fieldless variant: a variant test
                if op in ('Eq', 'Ne') and y.op == 'agg' and y.a[1] and not y.a[2]:
                    return isvar(x, y.a[1], (op == 'Eq') == pol, y.a[0])
            if not pol:
                op = _NEG[op]
            return cmpc(op, a, b)
        if n == 'contains' and len(t.a[1]) == 2 and 'ange' in t.a[0]:
            # membership in a range with one effective bound
            b = _bounds(strip(t.a[1][0]))
            if b and (b[0] is None or is_const(b[0]) and b[0].a[0] == 0 and b[0].a[1] in _UINTS) and b[1] is not None:
                o = 'Le' if b[2] else 'Lt'
                return cmpc(o if pol else _NEG[o], t.a[1][1], b[1])
            if b and b[1] is None and b[0] is not None:
                return cmpc('Ge' if pol else 'Lt', t.a[1][1], b[0])
        if n == 'is_empty' and len(t.a[1]) == 1:
            return cmpc('Eq' if pol else 'Ne', call('len', t.a[1]), const(0, 'usize'))
    return ('true', t, pol)


_PRES = {'map_err', 'as_ref', 'as_mut', 'cloned', 'copied', 'as_deref', 'as_deref_mut', 'inspect', 'inspect_err',
         'wrap_err', 'wrap_err_with', 'context', 'with_context', 'map'}
_OKSOME = {'ok_or', 'ok_or_else', 'ok', 'ok_or_eyre'}


_STDENUM = (OPT, RES, CF, POLL)


def isvar(t, v, pol=True, ty=None):
    if ty is not None and ty not in _STDENUM:
        if t.op == 'agg' and t.a[1]:
            return ('const', (t.a[1] == v) == pol)
        return ('is', t, v, pol)
    if t.op == 'agg' and t.a[0] not in _STDENUM and t.a[1]:
        return ('const', (t.a[1] == v) == pol)
    if v in _OPP:
        v, pol = _OPP[v], not pol
    while t.op == 'call' and t.a[1]:
        n = leaf(t.a[0])
        if t.a[0] == 'transpose' and t.a[1][0].op == 'agg':
            return isvar(fld(t.a[1][0], '0'), v, pol)
        if v in ('Ok', 'Some', 'Continue') and n == 'branch':
            t = t.a[1][0]
            v = 'Ok'
        elif v in ('Ok', 'Some') and (n in _PRES or n in _OKSOME):
            t = t.a[1][0]
        else:
            break
    if v in ('Some', 'Ok', 'Continue'):
        v = 'Ok'  # a single "success" notion: Some/Ok/Continue
    if t.op == 'agg' and t.a[1]:
        w = t.a[1]
        w = {'Some': 'Ok', 'Continue': 'Ok'}.get(w, w)
        return ('const', (w == v) == pol)
    if v == 'Ok' and t.op == 'call' and t.a[1] and t.a[0].endswith('NonZero::new'):
        x = t.a[1][0]
        if is_const(x):
            return ('const', (x.a[0] != 0) == pol)
        return cmpc('Ne' if pol else 'Eq', x, const(0, 'u64'))
    return ('is', t, v, pol)


def showc(c):
    if c is None:
        return '-'
    if c[0] == 'cmp':
        return '%s %s %s' % (show(c[2]), {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<='}[c[1]], show(c[3]))
    if c[0] == 'is':
        return '%s%s is %s' % ('' if c[3] else 'not ', show(c[1]), c[2])
    if c[0] == 'true':
        return '%s%s' % ('' if c[2] else '!', show(c[1]))
    if c[0] == 'isin':
        return '%s not in {%s}' % (show(c[1]), ','.join(c[2]))
    return str(c)


def strip(t, memo=None):
    """t without call-site identities: what is computed, not where"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    o, a = t.op, t.a
    st = lambda z: strip(z, memo) if isinstance(z, T) else tuple(st(y) for y in z) if isinstance(z, tuple) else z
    if o == 'agg':
        r = agg(a[0], a[1], [(n, st(v)) for n, v in a[2]])
    elif o == 'closure':
        r = mk('closure', a[0], tuple((n, st(v)) for n, v in a[1]))
    elif o == 'call':
        r = call(a[0], [st(z) for z in a[1]])
    elif o == 'upd!':
        r = mk('upd!', st(a[0]), a[1], None, a[3], *[st(z) for z in a[4:]])
    elif o == 'fld':
        r = fld(st(a[0]), a[1])
    elif o == 'as':
        r = dcast(st(a[0]), a[1])
    elif o in ('c', 'str', 'fn', 'param', 'phi', 'lref'):
        r = t
    elif o == 'next':
        r = mk('next', st(a[0]), None)
    else:
        r = mk(o, *[st(z) if isinstance(z, T) else z for z in a])
    memo[t.id] = r
    return r
