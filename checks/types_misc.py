"""C08-C13: encodings, reputation, notifications, channels, ports."""
import re
from engine.rules import *
from engine.lib import *
from engine import comp as cp
from engine.comp import NotComp

SIDE = ('panic', 'unwind', 'abort')


def payload_of(t):
    """t without success payload projections and error mappings"""
    while True:
        if t.op in ('fld', 'as'):
            t = t.a[0]
        elif t.op == 'call' and leaf(t.a[0]) in ('map_err', 'ok_or', 'ok_or_else', 'wrap_err', 'unwrap', 'expect', 'unwrap_or_else') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'agg' and t.a[1] in ('Ok', 'Some') and len(t.a[2]) == 1:
            t = t.a[2][0][1]
        else:
            return t


def bincode_cfg(t):
    """(endianness, integer encoding, others) of a chain of bincode options, or None"""
    e = i = None
    other = set()
    while t.op == 'call' and leaf(t.a[0]).startswith(('with_', 'allow_', 'reject_')):
        n = leaf(t.a[0])
        if n.endswith('_endian'):
            e = e or n
        elif n.endswith('int_encoding'):
            i = i or n
        elif n != 'with_no_limit':
            other.add(n)
        t = t.a[1][0]
    if t.op == 'call' and 'DefaultOptions' in t.a[0] and leaf(t.a[0]) in ('new', 'default'):
        return e or 'with_little_endian', i or 'with_varint_encoding', frozenset(other - {'reject_trailing_bytes'})
    return None


KEYCFG = ('with_big_endian', 'with_fixint_encoding', frozenset())
BCS = {'encode': ('to_bytes', 1), 'decode': ('from_bytes', 1), 'try_decode': ('from_bytes', 1), 'encoded_size': ('serialized_size', 1),
       'encode_into_buffer': ('serialize_into', 2)}


@check('C08', ['tn_types', 'tn_storage'])
def c08(r):
    P1 = lambda t, i: view(strip(t)).op == 'param' and view(strip(t)).a[0] == i
    with r.section('key encoding'):
        for fn, op in (('codec::encode_key', 'serialize'), ('codec::decode_key', 'deserialize'), ('codec::try_decode_key', 'deserialize')):
            n = 0
            for o in r.rets(fn):
                if is_err(o.ret):
                    continue
                n += 1
                t = payload_of(strip(o.ret))
                if not r.ok(fn + ' uses bincode', t.op == 'call' and leaf(t.a[0]) in (op, op + '_from') and len(t.a[1]) >= 2, r.otext(o)):
                    continue
                c = bincode_cfg(t.a[1][0])
                if c is None:
                    r.undec.append('%s: options %s' % (fn, show(t.a[1][0])[:200]))
                else:
                    r.ok(fn + ' options', c == KEYCFG, 'keys are coded with %s' % (c,))
                r.ok(fn + ' argument', P1(t.a[1][1], 1), r.otext(o))
            r.ok(fn + ' result', n, 'no result')
    with r.section('value encoding'):
        for fn, (op, i) in BCS.items():
            n = 0
            for o in r.rets('codec::' + fn):
                if is_err(o.ret):
                    continue
                n += 1
                t = payload_of(strip(o.ret))
                good = t.op == 'call' and leaf(t.a[0]) == op and '::ser::' in t.a[0] + '::ser::' and P1(t.a[1][i - 1], i)
                good = good or op == 'to_bytes' and buffered(t, 1)
                if fn == 'encoded_size' and not good:
                    good = t.op == 'call' and leaf(t.a[0]) == 'len' and encoded(t.a[1][0]) is not None and P1(encoded(t.a[1][0]), 1)
                r.ok(fn, good, r.otext(o))
            r.ok(fn + ' result', n, 'no result')
    with r.section('bad bytes are errors'):
        for fn in ('codec::try_decode_key', 'codec::try_decode', 'codec::encoded_size', 'codec::encode_into_buffer'):
            bad = [e for _, _, e in r.graph(fn).events(kind='unwrap')] + [o for o in r.outs(fn) if o.exit == 'diverge']
            r.ok(fn + ' does not abort', not bad, '%s can panic: %s' % (fn, bad[:1]))
            for o in r.rets(fn):
                c = positive(o)
                if c is None or o.ret.op == 'call':
                    continue
                r.ok(fn + ' succeeds only when decoding did', any(z[0] == 'is' and z[2] == 'Ok' and z[3] for z in c), r.otext(o))
    with r.section('no other encodings'):
        for crate in ('tn_types', 'tn_storage'):
            for b, x in r.callers('serialize|deserialize|serialize_into|deserialize_from|serialized_size', crate):
                nm = x['f']['c'].get('decl') or x['f']['c'].get('fn')
                if 'bincode' not in nm and 'Options' not in nm:
                    continue
                if path_match(b.path, 'codec::encode_key|codec::decode_key|codec::try_decode_key'):
                    continue
                for root_ in r.roots([b]):
                    if path_match(root_.path, 'codec::encode_key|codec::decode_key|codec::try_decode_key'):
                        continue
                    for _, _, e in r.graph(root_).calls(leaf(nm)):
                        r.ok('bincode in ' + root_.path, e.args and bincode_cfg(strip(e.args[0])) == KEYCFG, 'data is coded with %s' % repr(e)[:200])
        r.ok('census', True)
    with r.section('database wrappers'):
        W = {'KeyWrap': ('deserialize', 'serialize'), 'ValWrap': ('from_bytes', 'to_bytes')}
        for w, (de, en) in W.items():
            for m, op, in (('from_bytes', de), ('as_bytes', en)):
                for o in r.rets(r.fn('%s::%s' % (w, m))):
                    t = payload_of(strip(o.ret))
                    good = t.op == 'call' and leaf(t.a[0]) == op and (w == 'ValWrap' or bincode_cfg(t.a[1][0]) == KEYCFG) and contains(t, par(1))
                    good = good or w == 'ValWrap' and op == 'to_bytes' and buffered(t, 1)
                    r.ok('%s::%s' % (w, m), good, r.otext(o))
        for o in r.rets(r.fn('KeyWrap::compare')):
            t = strip(o.ret)
            good = t.op == 'call' and leaf(t.a[0]) in ('cmp', 'lexicographical_compare') and param_of(t.a[1][0]) == 1 and param_of(t.a[1][1]) == 2
            if good or t.op in ('c', 'agg') or (t.op == 'call' and leaf(t.a[0]) in ('cmp', 'reverse', 'then', 'then_with', 'partial_cmp')):
                r.ok('keys compare by their bytes', good, r.otext(o))
            else:
                r.undec.append('compare: ' + r.otext(o))
    with r.section('nonce'):
        at = lambda t: ('n', 64) if t.op == 'param' else None
        for o in r.rets('helpers::deconstruct_nonce'):
            for i, lo in (('0', 32), ('1', 0)):
                bs = bits(fld(o.ret, i), 32, at)
                if bs is None or (o.conds and bs != [('n', lo + k) for k in range(32)]):
                    r.undec.append('nonce: ' + r.otext(o))
                else:
                    r.ok('split %s' % i, bs == [('n', lo + k) for k in range(32)], r.otext(o))
        at = lambda t: (t.a[1], 32) if t.op == 'fld' and t.a[1] in ('epoch', 'round') else None
        for o in r.rets(r.fn('Header::nonce')):
            bs = bits(strip(o.ret), 64, at)
            if bs is None:
                r.undec.append('nonce: ' + r.otext(o))
            else:
                r.ok('join', bs == [('round', k) for k in range(32)] + [('epoch', k) for k in range(32)], r.otext(o))


def buffered(t, i):
    """t is a fresh buffer into which parameter i was encoded"""
    return t.op == 'upd!' and leaf(t.a[1]) == 'serialize_into' and t.a[0].op == 'call' and 'Vec' in t.a[0].a[0] and leaf(t.a[0].a[0]) in ('new', 'with_capacity') and any(isinstance(z, T) and param_of(z) == i for z in t.a[2:])


def lookup_of(t, base, key):
    """t is a value looked up (or made by entry().or_insert) under key in the map satisfying base; returns the default if any"""
    t = payload_of(t)
    while t.op == 'call' and leaf(t.a[0]) in ('copied', 'cloned', 'or_insert', 'or_default', 'or_insert_with', 'unwrap_or', 'unwrap_or_default', 'deref', 'clone', 'into_mut', 'get', 'get_mut', 'entry'):
        n = leaf(t.a[0])
        if n in ('get', 'get_mut', 'entry', 'get_or_insert'):
            if len(t.a[1]) < 2:
                t = payload_of(t.a[1][0])
                continue
            return base(strip(t.a[1][0])) and key(strip(t.a[1][1]))
        t = payload_of(t.a[1][0])
    return False


def default_zero(t):
    """any default mentioned in the lookup is zero"""
    for z in subterms(t):
        if z.op == 'call' and leaf(z.a[0]) in ('or_insert', 'unwrap_or') and len(z.a[1]) == 2 and not (is_const(z.a[1][1]) and z.a[1][1].a[0] == 0):
            return False
    return True


def sum_terms(t):
    """multiset of the addends of t"""
    t = strip(t)
    if t.op == 'bin' and t.a[0].startswith('Add'):
        return sum_terms(t.a[1]) + sum_terms(t.a[2])
    if t.op == 'call' and leaf(t.a[0]) in ('saturating_add', 'wrapping_add', 'checked_add', 'add'):
        return sum_terms(t.a[1][0]) + sum_terms(t.a[1][1])
    if t.op in ('fld', 'as') and payload_of(t).op == 'call' and leaf(payload_of(t).a[0]) == 'checked_add':
        return sum_terms(payload_of(t))
    if is_const(t) and t.a[0] == 0:
        return []
    return [t]


@check('C09', ['tn_types'])
def c09(r):
    MAP = f(par(1), 'scores_per_authority')
    KEY = lambda t: param_of(t) == 2
    SCORE = lambda t: param_of(t) == 3
    with r.section('adding'):
        for o in r.rets(r.fn('ReputationScores::add_score'), sides=False):
            cur, done, odd = None, [], []
            ws = []
            for e in o.events:
                if e.k in ('write', 'lwrite') and e.args[0] is not None and (lookup_of(e.args[0], MAP, lambda t: True)):
                    ws.append((e.args[0], e.args[1], 'write'))
                elif e.k == 'call' and leaf(e.name) in ('insert', 'or_insert') and MAP(strip(e.args[0])) and len(e.args) == 3:
                    ws.append((e.args[1], e.args[2], 'insert'))
                elif e.k == 'call' and leaf(e.name) in ('clear', 'retain', 'remove', 'pop_first', 'pop_last', 'append', 'extend') and e.args and MAP(strip(e.args[0])):
                    r.ok('touches only that authority', False, repr(e)[:200])
                elif e.k == 'call' and leaf(e.name) in ('and_modify', 'or_insert', 'or_insert_with', 'or_insert_entry', 'insert_entry'):
                    odd.append(e)
            t = r.otext(o)
            if not ws:
                if odd:
                    chain_add(r, o, odd, MAP, KEY, SCORE)
                else:
                    r.ok('adds', False, 'nothing is added: ' + t)
                continue
            absent = any(c[0] == 'is' and c[2] in ('Ok', 'Some') and not c[3] and lookup_of(c[1], MAP, KEY) or
                         c[0] == 'true' and not c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains_key' or
                         c[0] == 'is' and c[2] == 'Vacant' and c[3] for c in o.conds)
            for loc, val, how in ws:
                val = strip(val)
                if how == 'write':
                    r.ok('the right entry', lookup_of(loc, MAP, KEY), 'written is %s' % show(loc)[:200])
                    r.ok('starts at zero', default_zero(loc), 'written is %s' % show(loc)[:200])
                else:
                    r.ok('the right entry', KEY(loc), 'inserted under %s' % show(loc)[:200])
                s = sum_terms(val)
                olds = [x for x in s if lookup_of(x, MAP, KEY)]
                scs = [x for x in s if SCORE(x)]
                fine = len(scs) == 1 and len(olds) + len(scs) == len(s) and (len(olds) == 1 or (absent and not olds)) and all(map(default_zero, olds))
                r.ok('adds the score to what was there', fine, 'stored is %s under [%s]' % (show(val)[:200], ' & '.join(map(showc, o.conds))[:300]))
            r.ok('once', len(ws) == 1, '%d writes: %s' % (len(ws), t))
    with r.section('fresh table'):
        es = r.comp(r.fn('ReputationScores::new'), ret=lambda t: fld(t, 'scores_per_authority'))
        if not es:
            r.undec.append('new: contents not readable')
        for e in es:
            if e.val.op != 'agg':
                r.undec.append('new: %s' % e)
                continue
            v = fld(e.val, '1')
            r.ok('zero', is_const(v) and v.a[0] == 0, 'initial score is %s' % show(v)[:100])
            r.ok('every member', not e.conds and not e.marks, 'a member is listed only under %s' % e)
            r.ok('by identifier', contains(fld(e.val, '0'), lambda z: z.op == 'elem') and contains(e.val, par(1)), 'listed under %s' % show(fld(e.val, '0'))[:200])
    with r.section('all zero'):
        other = [z for o in r.rets(r.fn('ReputationScores::all_zero')) for x in [o.ret] + [y for c in o.conds for y in c[1:] if isinstance(y, T)]
                 for z in subterms(x) if z.op == 'fld' and param_of(z.a[0]) == 1 and z.a[1] != 'scores_per_authority']
        r.ok('only the scores count', not other, 'all_zero depends on %s' % list(map(show, other[:2])))
        try:
            found, conds, default = r.search(r.fn('ReputationScores::all_zero'))
        except NotComp as e:
            found = None
            k = [zero_test(r, o, MAP) for o in r.rets(r.fn('ReputationScores::all_zero'))]
            if None in k:
                r.undec.append('all_zero: %s' % e)
            for why in k:
                if why is not None:
                    r.ok('all scores are looked at', not why, why)
        if found is not None:
            r.ok('answers', (found, default) in ((False, True), (False, None)), 'answers %s when a score is found, else %s' % (found, default))
            for n, want in ((0, False), (1, True), (7, True), (2**64 - 1, True)):
                sub = lambda z: const(n, 'u64') if (z.op == 'elem' or (z.op == 'fld' and z.a[0].op == 'elem')) else None
                vs = [[truth(c, sub) for c in cc] for cc in conds]
                if any(None in v for v in vs):
                    r.undec.append('all_zero: %s' % [list(map(showc, cc)) for cc in conds])
                    break
                r.ok('score %d' % n, any(all(v) for v in vs) == want, 'a score of %d %s' % (n, 'is not seen' if want else 'counts as positive'))
    with r.section('ranking'):
        outs = [o for o in r.outs(r.fn('ReputationScores::authorities_by_score_desc'), sides=False) if o.exit == 'ret']
        r.ok('result', outs)
        ID = lambda t, x: t.op == 'fld' and t.a[1] == '0' and t.a[0] is x
        SC = lambda t, x: t.op == 'fld' and t.a[1] == '1' and t.a[0] is x
        for t in {o.ret.id: o.ret for o in outs}.values():
            try:
                run, base = sorted_sign(r.ctx(), t, {'score': SC, 'id': ID})
                if run is None:
                    if base.op == 'call' and leaf(base.a[0]) in ('map', 'iter', 'values', 'collect'):
                        r.ok('sorted', False, 'the ranking is not sorted: %s' % show(t)[:200])
                    else:
                        r.undec.append('ranking: ' + show(t)[:200])
                    continue
                for a in (-1, 0, 1):
                    for b in (-1, 0, 1):
                        want = -a if a else -b
                        got = run({'score': a, 'id': b})
                        r.ok('order(score %+d, id %+d)' % (a, b), got == want, 'a first score %s and identifier %s puts it %s' % (
                            ('lower', 'equal', 'higher')[a + 1], ('lower', 'equal', 'higher')[b + 1], ('before', 'level', 'after')[got + 1]))
            except (NoOrder, NotComp) as e:
                if re.search(r'\w+\.1 (Div|Rem|Shr|BitAnd) ', str(e)):
                    r.ok('ranked by the whole score', False, str(e))
                else:
                    r.undec.append('ranking: %s' % e)
        cut = sorted({n for o in outs for n in shrinkers(o.ret)})
        r.ok('nobody is dropped', not cut, 'the ranking is shortened by %s' % cut)
        try:
            es = cp.comp(r.ctx(), outs, lambda t: sorters(t)[1])
            r.ok('every authority once', len(es) == 1 and not es[0].conds and not es[0].marks and contains(es[0].val, MAP), 'ranked are %s' % es)
            if len(es) == 1 and es[0].val.op == 'agg':
                v = strip(fld(es[0].val, '1'))
                r.ok('with its own score', not subterms_of(v, 'bin') and not any(z.op == 'call' and leaf(z.a[0]) in ('min', 'max', 'saturating_sub', 'wrapping_add', 'clamp') for z in subterms(v)) and not is_const(v), 'the score listed is %s' % show(v)[:200])
        except NotComp as e:
            r.undec.append('ranking: %s' % e)


def zero_test(r, o, MAP):
    """'' when the outcome says whether all scores are zero, a reason when it does not, None when unreadable"""
    t = strip(o.ret)
    if o.conds:
        return None
    if t.op == 'call' and leaf(t.a[0]) == 'is_empty' and MAP(strip(t.a[1][0])):
        return 'a table with entries is never all zero'
    if not (t.op == 'bin' and t.a[0] == 'Eq' and is_const(t.a[2]) and t.a[2].a[0] == 0):
        return None
    x = payload_of(t.a[1])
    if x.op == 'call' and leaf(x.a[0]) in ('unwrap_or', 'unwrap_or_default'):
        x = payload_of(x.a[1][0])
    if x.op == 'call' and leaf(x.a[0]) in ('max', 'sum') and len(x.a[1]) == 1:
        y = strip(x.a[1][0])
        while y.op == 'call' and leaf(y.a[0]) in ('copied', 'cloned', 'iter'):
            y = y.a[1][0]
        return '' if y.op == 'call' and leaf(y.a[0]) in ('values', 'into_values') and MAP(strip(y.a[1][0])) else None
    if x.op == 'call' and leaf(x.a[0]) == 'min':
        return 'all_zero looks at the lowest score only'
    if x.op == 'call' and leaf(x.a[0]) == 'len' and MAP(strip(x.a[1][0])):
        return 'a table with entries is never all zero'
    return None


def subterms_of(t, op):
    return [z for z in subterms(t) if z.op == op]


def chain_add(r, o, evs, MAP, KEY, SCORE):
    """entry(..).and_modify(|v| *v += score).or_insert(score)"""
    for e in evs:
        n = leaf(e.name)
        base = strip(e.args[0])
        ent = [z for z in subterms(base) if z.op == 'call' and leaf(z.a[0]) == 'entry']
        if not ent:
            r.undec.append('add_score: ' + r.otext(o))
            return
        r.ok('the right entry', MAP(ent[0].a[1][0]) and KEY(ent[0].a[1][1]), repr(e)[:200])
        if n == 'or_insert':
            am = any(z.op == 'call' and leaf(z.a[0]) == 'and_modify' for z in subterms(base)) or any(leaf(x.name) == 'and_modify' for x in evs)
            v = strip(e.args[1])
            if am:
                r.ok('absent starts with the score', SCORE(v), 'inserted is %s' % show(v)[:100])
            else:
                r.ok('adds', False, 'only inserted: %s' % repr(e)[:200])
        elif n != 'and_modify':
            r.undec.append('add_score: ' + repr(e)[:200])
    am = [e for e in evs if leaf(e.name) == 'and_modify']
    ws = [e for e in o.events if e.k in ('write', 'lwrite') and any(SCORE(x) for x in sum_terms(e.args[1]))]
    for e in am:
        c = e.args[1]
        if not ws and c.op == 'closure' and c.a[0] in r.F.bodies:
            for q in sa.outcomes(sa.build(r.F, r.F.bodies[c.a[0]], args={1: c}, sides=False)):
                w = [x for x in q.events if x.k in ('write', 'lwrite') and param_of(x.args[0]) == 2]
                if q.exit == 'ret' and len(w) == 1:
                    st = sum_terms(w[0].args[1])
                    r.ok('adds the score to what was there', len(st) == 2 and any(param_of(x) == 2 for x in st) and any(SCORE(x) for x in st), 'stored is %s' % show(w[0].args[1])[:200])
                elif q.exit == 'ret' and not w:
                    r.ok('adds', False, 'an existing score is left as it was')
                else:
                    r.undec.append('add_score: %s' % repr(e)[:200])
        elif not ws:
            r.undec.append('add_score: %s' % repr(e)[:200])
