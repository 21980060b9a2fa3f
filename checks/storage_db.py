"""Embedded database (C24)."""
from .storage_index import *

DB = r'<tn_storage::redb::database::'
TOUCH = {'insert', 'remove', 'delete_table', 'retain', 'retain_in', 'drain', 'drain_in', 'pop_first', 'pop_last', 'extract_if', 'extract_from_if', 'insert_reserve',
         'delete_multimap_table', 'rename_table', 'restore_savepoint'}
ALL = frozenset((-1, 0, 1))


def keysign(el, s):
    """order of two terms when the key of the element compares as s to the key parameter"""
    def side(x):
        if contains(x, lambda z: z is el):
            return 1
        return 2 if x.op in ('param', 'fld', 'call') and not contains(x, lambda z: z.op == 'elem') else 0

    def sgn(a, b):
        p = side(a), side(b)
        for x in (a, b):
            if side(x) == 1:
                f = [z for z in subterms(x) if z.op == 'fld' and z.a[1] in ('0', '1') and z.a[0].op == 'fld' or z.op == 'fld' and z.a[0] is el]
                if not keypath(x, el):
                    raise NoOrder('not the key: %s' % show(x)[:80])
        if p == (1, 2):
            return s
        if p == (2, 1):
            return -s
        if p == (1, 1) and a is b:
            return 0
        raise NoOrder('%s ? %s' % (show(a)[:60], show(b)[:60]))
    return sgn


def keypath(x, el):
    """x is the key part of the element: the first projection of its record"""
    x = strip(x)
    path = []
    while x is not el:
        x = view(strip(x)) if x.op not in ('fld', 'as') else x
        if x is el:
            break
        if x.op == 'fld':
            path.append(x.a[1])
            x = x.a[0]
        elif x.op == 'as':
            path.append('as')
            x = x.a[0]
        elif x.op == 'call' and leaf(x.a[0]) in ('value', 'clone', 'borrow', 'as_ref', 'deref', 'expect', 'unwrap', 'to_owned') and x.a[1]:
            x = strip(x.a[1][0])
        else:
            return False
    p = [q for i, q in enumerate(path) if q != 'as' and not (i + 1 < len(path) and path[i + 1] == 'as')]
    return p == ['0']


def holds(r, cs, el, s):
    """are the conditions possible for an element whose record was read and whose key compares as s"""
    for c in cs:
        if c[0] == 'is' and c[2] in ('Ok', 'Some') and contains(c[1], lambda z: z is el) or c[0] == 'is' and strip(c[1]).op == 'next':
            if c[0] == 'is' and strip(c[1]).op == 'next':
                continue
            if not c[3]:
                return False
            continue
        if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('is_ok', 'is_some', 'is_err', 'is_none'):
            if (leaf(c[1].a[0]) in ('is_ok', 'is_some')) != c[2]:
                return False
            continue
        if not ord_cond(r, c, keysign(el, s)):
            return False
    return True


def pred_set(r, f, el):
    """the positions relative to the key at which a predicate holds"""
    out = set()
    rs = cp.apply(r.ctx(), f, [el])
    for s in ALL:
        for cs, v in rs:
            c = cond(v)
            if c[0] == 'const' and not c[1]:
                continue
            if holds(r, list(cs) + ([c] if c[0] != 'const' else []), el, s):
                out.add(s)
    return frozenset(out)


def scan(r, t):
    """scan_in, for a table that holds the key and for one that does not"""
    a, b = scan_in(r, t, ALL), scan_in(r, t, ALL - {0})
    if b[1] != a[1] - {0}:
        return a[0], b[1], a[2] + ['the records visited depend on the presence of the key'], a[3], a[4]
    return a


def scan_in(r, t, univ):
    """(ascending?, positions relative to the key parameter that are visited, bad stages, table term)"""
    t = strip(t)
    while t.op == 'upd!':
        t = t.a[0]
    if t.op == 'call' and t.a[1]:
        n, a = leaf(t.a[0]), t.a[1]
        if n in ('iter', 'range') and ('Table' in t.a[0] or 'ReadOnlyTable' in t.a[0] or n == 'range'):
            sel = univ
            if n == 'range':
                sel = univ & range_set(a[1])
            return True, sel, [], a[0], mk('elem', t)
        if n in ('expect', 'unwrap', 'into_iter', 'by_ref', 'fuse', 'new', 'from', 'peekable', 'inspect'):
            return scan_in(r, a[0], univ)
        if n in ('rev', 'filter', 'map', 'skip_while', 'take_while', 'flatten', 'filter_map', 'flat_map', 'skip', 'take', 'step_by', 'map_while'):
            up, sel, bad, tab, el = scan_in(r, a[0], univ)
            if n == 'rev':
                return not up, sel, bad, tab, el
            if n == 'flatten':
                return up, sel, bad, tab, payload(el, 'Ok')
            if n in ('skip', 'take', 'step_by'):
                return up, sel, bad + ['%s(%s)' % (n, show(a[1])[:40])], tab, el
            if n == 'map':
                vs = cp.apply(r.ctx(), a[1], [el])
                return up, sel, bad, tab, mapped(r, vs, el)
            if n in ('filter_map', 'flat_map'):
                if a[1].op == 'fn' and leaf(a[1].a[1]) in ('ok', '{ctor}'):
                    return up, sel, bad, tab, payload(el, 'Ok')
                raise NoOrder('stage %s' % n)
            b = base_elem(el)
            P = frozenset(s for s in ALL if s in pred_at(r, a[1], el, b))
            if n == 'filter':
                return up, sel & P, bad, tab, el
            order = (-1, 0, 1) if up else (1, 0, -1)
            pre = []
            for s in order:
                if s in sel and s not in P:
                    break
                if s in sel:
                    pre.append(s)
            if n == 'skip_while':
                return up, sel - set(pre), bad, tab, el
            if n == 'take_while':
                return up, sel & set(pre), bad, tab, el
    if t.op in ('fld', 'as'):
        return scan_in(r, t.a[0], univ)
    if t.op == 'agg' and t.a[1] in ('Ok', 'Some'):
        return scan_in(r, fld(t, '0'), univ)
    raise NoOrder('iterator %s' % show(t)[:120])


def base_elem(t):
    return next(z for z in subterms(t) if z.op == 'elem')


def pred_at(r, f, el, base):
    """like pred_set for an element expressed through the scanned record"""
    out = set()
    rs = cp.apply(r.ctx(), f, [el])
    for s in ALL:
        for cs, v in rs:
            c = cond(v)
            if c[0] == 'const':
                if c[1] and holds(r, cs, base, s):
                    out.add(s)
            elif holds(r, list(cs) + [c], base, s):
                out.add(s)
    return out


def mapped(r, vs, el):
    """the record a mapping closure yields"""
    out = [v for cs, v in vs if not any(c[0] == 'is' and not c[3] for c in cs)]
    if len({v.id for v in out}) != 1:
        raise NoOrder('map with %d results' % len(out))
    return out[0]


def range_set(t):
    t = strip(t)
    def keyp(x):
        return param_of(x) == 2 or contains(x, lambda z: param_of(z) == 2)
    if t.op == 'agg':
        n = leaf(t.a[0])
        if n == 'RangeFull':
            return ALL
        if n == 'RangeFrom' and keyp(fld(t, 'start')):
            return frozenset((0, 1))
        if n == 'RangeTo' and keyp(fld(t, 'end')):
            return frozenset((-1,))
        if n == 'RangeToInclusive' and keyp(fld(t, 'end')):
            return frozenset((-1, 0))
    raise NoOrder('range %s' % show(t)[:80])


def record_of(t, tab=None):
    """(key part, value part) come from the two halves of one record"""
    t = strip(t)
    if t.op != 'agg' or len(t.a[2]) != 2:
        return None
    k, v = [strip(x) for _, x in t.a[2]]

    def half(x):
        path = []
        x = strip(x)
        while True:
            if x.op == 'call' and leaf(x.a[0]) in ('value', 'clone', 'to_owned', 'borrow', 'deref', 'as_ref') and x.a[1]:
                x = strip(x.a[1][0])
            elif x.op == 'fld' and x.a[1] in ('0', '1') and x.a[0].op != 'as':
                return x.a[1], x.a[0]
            elif x.op == 'fld' or x.op == 'as':
                return None
            else:
                return None
    a, b = half(k), half(v)
    if a is None or b is None:
        return None
    return a, b


@check('C24', ['tn_storage', 'tn_types'])
def c24(r):
    def named(t):
        """the table definition a table was opened with carries the name of the table type"""
        t = strip(t)
        if t.op == 'call' and leaf(t.a[0]) == 'new' and 'TableDefinition' in t.a[0]:
            n = strip(t.a[1][0])
            return 'Table::NAME' in show(n) and n.op not in ('call', 'bin')
        return None

    def tables(what, o):
        for i, e in ecalls(o, 'open_table', 'delete_table', 'delete_multimap_table', 'open_multimap_table'):
            if len(e.args) < 2:
                continue
            k = named(e.args[1])
            if k is None:
                r.undec.append('%s: table %s' % (what, show(e.args[1])[:80]))
            else:
                r.ok('%s: the named table' % what, k, '%s touches table %s' % (what, show(e.args[1])[:100]))

    def durable(what, o):
        for i, e in ecalls(o, 'set_durability'):
            v = strip(e.args[1])
            r.ok('%s: durable' % what, v.op == 'agg' and v.a[1] == 'Immediate', '%s sets the durability to %s' % (what, show(v)[:60]))
        for i, e in ecalls(o, 'abort'):
            if okret(o) is True:
                r.ok('%s: not aborted' % what, False, '%s reports success for an aborted transaction [%s]' % (what, txt(o)))

    def succeeded(what, o, i, e):
        k = ok_of(o, e.res)
        if k is None:
            if contains(o.ret, lambda z: z is e.res):
                return True
            r.ok('%s: failures are reported' % what, False, '%s ignores the result of %s [%s]' % (what, leaf(e.name), txt(o)))
            return False
        return r.ok('%s: failures are reported' % what, k, '%s succeeds although %s failed [%s]' % (what, leaf(e.name), txt(o)))

    def success(o):
        """the outcome reports success, or hands on a result"""
        k = okret(o)
        return k is not False

    def effect(what, o, want):
        """the writes of an operation on its success path"""
        ws = [(i, e) for i, e in ecalls(o, *TOUCH) if 'redb' in e.name]
        names = [leaf(e.name) for i, e in ws]
        if want is None:
            r.ok('%s: writes nothing' % what, not ws, '%s performs %s' % (what, ', '.join(names)))
            return
        odd = [n for n in names if n != want]
        if want == 'delete_table' and not ws or any(n in ('retain', 'retain_in', 'drain', 'extract_if', 'pop_first', 'pop_last') for n in odd) and want == 'delete_table':
            if not ws:
                r.ok('%s: performed' % what, False, '%s reports success without clearing the table [%s]' % (what, txt(o)))
            else:
                r.undec.append('%s clears with %s' % (what, names))
            return
        r.ok('%s: only this write' % what, not odd, '%s also performs %s [%s]' % (what, ', '.join(odd), txt(o)))
        if not r.ok('%s: performed' % what, any(n == want for n in names), '%s reports success without %s [%s]' % (what, want, txt(o))):
            return
        for i, e in ws:
            if leaf(e.name) != want:
                continue
            succeeded(what, o, i, e)
            if want in ('insert', 'remove'):
                k = strip(e.args[1])
                r.ok('%s: the key given' % what, k.op == 'param' and k.a[0] == 2, '%s writes under key %s' % (what, show(k)[:80]))
            if want == 'insert':
                v = strip(e.args[2])
                r.ok('%s: the value given' % what, v.op == 'param' and v.a[0] == 3, '%s writes value %s' % (what, show(v)[:80]))

    OPS = [('insert', 'insert'), ('remove', 'remove'), ('clear_table', 'delete_table')]
    W = {'sides': False}
    # -------------------------------------------------------- inside a transaction
    with r.section('write transaction'):
        for name, want in OPS:
            n = 0
            for o in r.outs(bodyre(r, DB + r'ReDbTxMut as .*DbTxMut>::%s$' % name), **W):
                if o.exit != 'ret':
                    continue
                tables('transaction %s' % name, o)
                durable('transaction %s' % name, o)
                if success(o):
                    n += 1
                    effect('transaction %s' % name, o, want)
                    for i, e in ecalls(o, 'open_table'):
                        succeeded('transaction %s' % name, o, i, e)
            n or r.undec.append('transaction %s' % name)
        for o in r.outs(bodyre(r, DB + r'ReDbTxMut as .*DbTxMut>::commit$'), **W):
            if o.exit == 'ret' and success(o):
                cs = ecalls(o, 'commit')
                durable('commit', o)
                if r.ok('commit: performed', cs, 'commit reports success without committing [%s]' % txt(o)):
                    for i, e in cs:
                        succeeded('commit', o, i, e)
    # -------------------------------------------------------- single-shot operations
    with r.section('single-shot'):
        for name, want in OPS + [('open_table', None)]:
            n = 0
            for o in r.outs(bodyre(r, DB + r'ReDB as .*Database>::%s$' % name), **W):
                if o.exit != 'ret':
                    continue
                tables(name, o)
                durable(name, o)
                if not success(o):
                    continue
                n += 1
                effect(name, o, want)
                cs = ecalls(o, 'commit')
                if not r.ok('%s: committed' % name, cs, '%s reports success without committing [%s]' % (name, txt(o))):
                    continue
                begun = [e for i, e in ecalls(o, 'begin_write')]
                r.ok('%s: one transaction' % name, len(begun) == 1, '%s uses %d write transactions' % (name, len(begun)))
                for i, e in cs:
                    succeeded(name, o, i, e)
                last = max([i for i, e in ecalls(o, *(TOUCH | {'open_table'}))] or [-1])
                r.ok('%s: committed after the write' % name, max(i for i, e in cs) > last, '%s writes after its commit [%s]' % (name, txt(o)))
            n or r.undec.append('single-shot %s' % name)
    # -------------------------------------------------------- lookups
    with r.section('lookups'):
        for who, name in (('ReDbTx', 'DbTx>::get'), ('ReDbTxMut', 'DbTx>::get'), ('ReDB', 'Database>::get'), ('ReDB', 'Database>::contains_key')):
            what = '%s %s' % (who, name.split('::')[1])
            n = 0
            for o in r.outs(bodyre(r, DB + r'%s as .*%s$' % (who, name)), **W):
                if o.exit != 'ret':
                    continue
                tables(what, o)
                gs = [(i, e) for i, e in ecalls(o, 'get') if 'redb' in e.name or 'DbTx' in e.name]
                for i, e in gs:
                    k = strip(e.args[1])
                    r.ok('%s: the key asked for' % what, k.op == 'param' and k.a[0] == 2, '%s looks up %s' % (what, show(k)[:80]))
                if okret(o) is not True:
                    continue
                n += 1
                v = strip(payload(strip(o.ret), 'Ok'))
                if len(gs) != 1:
                    r.ok('%s: looked up' % what, gs, '%s answers %s without a lookup [%s]' % (what, show(v)[:60], txt(o)))
                    gs and r.undec.append('%s: %d lookups' % (what, len(gs)))
                    continue
                i, e = gs[0]
                succeeded(what, o, i, e)
                found = payload(e.res, 'Ok')
                if name.endswith('contains_key'):
                    pos = v.op == 'call' and leaf(v.a[0]) == 'is_some' or None
                    neg = v.op == 'un' or v.op == 'call' and leaf(v.a[0]) == 'is_none'
                    if is_const(v):
                        want = bool(v.a[0])
                        k = is_some(o, found) or (False if is_none(o, found) else None)
                        if k is None:
                            r.undec.append('%s: %s' % (what, txt(o)))
                        else:
                            r.ok('%s: present iff found' % what, bool(k) == want, '%s answers %s for a key that was %sfound' % (what, want, '' if k else 'not '))
                    elif pos:
                        r.ok('%s: present iff found' % what, contains(v, lambda z: z is e.res), '%s tests %s' % (what, show(v)[:80]))
                    elif neg and contains(v, lambda z: z is e.res) and v.op == 'call':
                        r.ok('%s: present iff found' % what, False, '%s answers %s' % (what, show(v)[:80]))
                    else:
                        r.undec.append('%s: %s' % (what, show(v)[:80]))
                    continue
                if v.op == 'agg' and v.a[1] == 'Some':
                    x = strip(fld(v, '0'))
                    while x.op == 'call' and leaf(x.a[0]) in ('clone', 'value', 'to_owned', 'borrow') and x.a[1]:
                        x = strip(x.a[1][0])
                    r.ok('%s: the stored value' % what, contains(x, lambda z: z is e.res), '%s answers with %s' % (what, show(v)[:80]))
                elif v.op == 'agg' and v.a[1] == 'None':
                    r.ok('%s: absent only when not found' % what, is_none(o, found) or not is_some(o, found), '%s answers none for a key that was found [%s]' % (what, txt(o)))
                elif not contains(v, lambda z: z is e.res):
                    r.undec.append('%s: %s' % (what, show(v)[:80]))
            n or r.undec.append(what)

    with r.section('default methods'):
        n = 0
        for o in r.outs(bodyre(r, r'tn_types::database_traits::DbTx::contains_key$'), **W):
            if o.exit != 'ret' or okret(o) is not True:
                continue
            n += 1
            gs = ecalls(o, 'get')
            v = strip(payload(strip(o.ret), 'Ok'))
            if not r.ok('contains_key looks up', gs, 'contains_key answers %s without a lookup' % show(v)[:60]):
                continue
            i, e = gs[0]
            succeeded('contains_key', o, i, e)
            k = strip(e.args[1])
            r.ok('contains_key: the key', k.op == 'param' and k.a[0] == 2, 'contains_key looks up %s' % show(k)[:60])
            found = payload(e.res, 'Ok')
            if is_const(v):
                s = is_some(o, found)
                r.ok('contains_key: present iff found', bool(s) == bool(v.a[0]), 'contains_key answers %s [%s]' % (show(v), txt(o)))
            elif v.op == 'call' and leaf(v.a[0]) in ('is_some', 'is_none'):
                r.ok('contains_key: present iff found', leaf(v.a[0]) == 'is_some' and contains(v, lambda z: z is e.res), 'contains_key answers %s' % show(v)[:80])
            else:
                r.undec.append('contains_key: %s' % show(v)[:80])
        n or r.undec.append('contains_key')
        mg = bodyre(r, r'tn_types::database_traits::Database::multi_get$')
        n = 0
        for o in r.outs(mg, **W):
            if o.exit != 'ret' or okret(o) is False:
                continue
            n += 1
            tx = [e for i, e in ecalls(o, 'read_txn')]
            r.ok('multi_get: one snapshot', len(tx) == 1, 'multi_get opens %d read transactions [%s]' % (len(tx), txt(o)))
            own = [e for i, e in ecalls(o, 'get') if 'Database' in e.name and 'DbTx' not in e.name]
            drop = {leaf(z.a[0]) for z in subterms(o.ret) if z.op == 'call' and leaf(z.a[0]) in ('filter', 'filter_map', 'flat_map', 'flatten', 'map_while', 'take_while')}
            r.ok('multi_get: one answer per key', not drop, 'multi_get drops answers with %s' % ', '.join(sorted(drop)))
            r.ok('multi_get: reads in its snapshot', not own, 'multi_get reads outside its transaction')
        for e in cp.comp(r.ctx(), r.outs(mg, **W), lambda t: None if t.op == 'agg' and t.a[1] == 'Err' else payload(t, 'Ok') if t.op == 'agg' else t):
            v = strip(e.val)
            g = [z for z in subterms(v) if z.op == 'call' and leaf(z.a[0]) == 'get']
            if not r.ok('multi_get: looks each key up', g, 'multi_get yields %s' % show(v)[:80]):
                continue
            r.ok('multi_get: in its snapshot', all('DbTx' in z.a[0] and contains(z.a[1][0], lambda y: y.op == 'call' and leaf(y.a[0]) == 'read_txn') for z in g), 'multi_get looks up in %s' % show(g[0])[:80])
            r.ok('multi_get: every key, in order', all(strip(z.a[1][1]).op == 'elem' or z.a[1][1].op == 'elem' for z in g) and not e.marks and not [c for c in e.conds if contains_elem(c) and not ok_cond(c)], 'multi_get skips or reorders keys: %s' % e)
            keep = [z for z in subterms(v) if z.op == 'call' and leaf(z.a[0]) in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else')]
            r.ok('multi_get: reports failures', not keep, 'multi_get hides a failed lookup')
        n or r.undec.append('multi_get')

    # -------------------------------------------------------- scans
    with r.section('scans'):
        for name, up, sel in (('iter', True, ALL), ('skip_to', True, frozenset((0, 1))), ('reverse_iter', False, ALL)):
            n = 0
            for o in r.outs(bodyre(r, DB + r'ReDB as .*Database>::%s$' % name), **W):
                if o.exit != 'ret' or okret(o) is False:
                    continue
                tables(name, o)
                n += 1
                its = [strip(fld(z, 'iter')) for z in subterms(o.ret) if z.op == 'agg' and 'Internal' in z.a[0]] or [strip(o.ret)]
                try:
                    a, s, bad, tab, el = scan(r, its[0])
                except (NoOrder, cp.NotComp, StopIteration) as e:
                    r.undec.append('%s: %s' % (name, e))
                    continue
                r.ok('%s: in order' % name, a == up, '%s visits the records in %s order' % (name, 'ascending' if a else 'descending'))
                r.ok('%s: nothing cut off' % name, not bad, '%s drops records by position: %s' % (name, ', '.join(bad)))
                miss = ['before the key', 'at the key', 'after the key']
                r.ok('%s: the right records' % name, s == sel, '%s visits %s' % (name, ' and '.join(miss[x + 1] for x in sorted(s)) or 'nothing'))
                rec = record_of(el)
                if rec is None:
                    r.undec.append('%s: yields %s' % (name, show(el)[:80]))
                else:
                    r.ok('%s: key and value of one record' % name, rec[0][0] == '0' and rec[1][0] == '1' and rec[0][1] is rec[1][1], '%s yields %s' % (name, show(el)[:120]))
            n or r.undec.append(name)

    with r.section('before a key'):
        n = 0
        for o in r.outs(bodyre(r, DB + r'ReDB as .*Database>::record_prior_to$'), **W):
            if o.exit != 'ret':
                continue
            tables('record_prior_to', o)
            v = someret(o)
            prior(r, o, v, frozenset((-1,)), 'record_prior_to')
            n += 1
        n or r.undec.append('record_prior_to')
    with r.section('last record'):
        n = 0
        for o in r.outs(bodyre(r, DB + r'ReDB as .*Database>::last_record$'), **W):
            if o.exit != 'ret':
                continue
            tables('last_record', o)
            v = someret(o)
            prior(r, o, v, ALL, 'last_record')
            n += 1
        n or r.undec.append('last_record')
    with r.section('is_empty'):
        for o in r.outs(bodyre(r, DB + r'ReDB as .*Database>::is_empty$'), **W):
            if o.exit != 'ret':
                continue
            tables('is_empty', o)
            t = strip(o.ret)
            neg = False
            while t.op == 'un' and t.a[0] == 'Not':
                t, neg = strip(t.a[1]), not neg
            if is_const(t):
                ok_ = bool(t.a[0]) == neg
                ie = [e for i, e in ecalls(o, 'is_empty')]
                if not ok_ and not (ie and any(c[0] == 'true' and contains(c[1], lambda z: z is ie[0].res) and c[2] for c in o.conds)):
                    r.ok('is_empty: empty only when read', False, 'is_empty answers true without reading the table [%s]' % txt(o))
            elif contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) == 'is_empty'):
                r.ok('is_empty: as the table says', not neg, 'is_empty answers the opposite of the table')
            elif not (t.op == 'call' and leaf(t.a[0]) == 'default'):
                r.undec.append('is_empty: %s' % show(t)[:80])
    # -------------------------------------------------------- encodings
    with r.section('key order'):
        outs = [o for o in r.outs(bodyre(r, r'KeyWrap as redb::types::Key>::compare$'), **W) if o.exit == 'ret']
        for s, l in [(s, l) for s in (-1, 0, 1) for l in (-1, 0, 1) if s or not l]:
            def sgn(a, b):
                def side(x):
                    ps = {z.a[0] for z in subterms(x) if z.op == 'param'}
                    return ps.pop() if len(ps) == 1 else None
                p = side(a), side(b)
                m = 1 if p == (1, 2) else -1 if p == (2, 1) else None
                if m is None:
                    raise NoOrder('%s ? %s' % (show(a)[:60], show(b)[:60]))
                for v, is_ in ((l, lambda x: x.op == 'len' or x.op == 'call' and leaf(x.a[0]) == 'len' and param_of(x.a[1][0])), (s, lambda x: x.op == 'param' or x.op == 'call' and leaf(x.a[0]) in ('as_ref', 'deref', 'to_vec', 'iter', 'as_slice') and param_of(x.a[1][0])), (0, tail)):
                    if all(is_(view(strip(x))) for x in (a, b)):
                        return m * v
                raise NoOrder('%s ? %s' % (show(a)[:60], show(b)[:60]))

            def tail(x):  # all but the first bytes: equal for keys that differ only there
                if x.op != 'call' or leaf(x.a[0]) != 'index' or param_of(x.a[1][0]) is None:
                    return False
                st = fld(x.a[1][1], 'start')
                return is_const(st) and st.a[0] > 0
            g = pick_sign(r.ctx(), [(o.conds, o.ret) for o in outs], sgn)
            r.ok('keys compare as their bytes', g == s, 'keys whose encodings compare as %d are ordered as %d' % (s, g))
    with r.section('key and value codecs'):
        for who, name, dec, enc in (('KeyWrap', 'key', 'decode_key', 'encode_key'), ('ValWrap', 'value', 'decode', 'encode')):
            for m, f, p in (('from_bytes', dec, 1), ('as_bytes', enc, 1)):
                for o in r.outs(bodyre(r, r'wraps::%s as redb::types::Value>::%s$' % (who, m)), sides=False, opaque=tuple('codec::' + x for x in ('encode', 'decode', 'encode_key', 'decode_key', 'try_decode', 'try_decode_key'))):
                    if o.exit != 'ret':
                        continue
                    fs = {leaf(z.a[0]) for z in subterms(o.ret) if z.op == 'call' and 'codec' in z.a[0]}
                    if not fs:
                        r.undec.append('%s %s: %s' % (who, m, show(o.ret)[:80]))
                    else:
                        r.ok('%s codec' % name, all(x.replace('try_', '') == f for x in fs), '%s::%s uses %s' % (who, m, ', '.join(fs)))
            for o in r.outs(bodyre(r, r'wraps::%s as redb::types::Value>::fixed_width$' % who), **W):
                if o.exit == 'ret':
                    r.ok('%s width' % name, someret(o) is NONE, '%s declares a fixed width of %s' % (who, show(o.ret)[:60]))


def contains_elem(c):
    return any(hasattr(x, 'op') and contains(x, lambda z: z.op == 'elem') for x in c[1:])


def ok_cond(c):
    return c[0] == 'is' and c[2] in ('Ok', 'Some') and c[3]


PICK = {'last': True, 'next_back': True, 'next': False, 'find': False, 'rfind': True}


def prior(r, o, v, sel, what):
    """the outcome answers with the greatest record among those selected"""
    miss = ['before the key', 'at the key', 'after the key']
    nx = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next']
    if v is None and strip(o.ret).op == 'call' and leaf(strip(o.ret).a[0]) in PICK:
        v = strip(o.ret)
    if v is None:
        r.undec.append('%s: %s' % (what, show(o.ret)[:80]))
        return
    opened = all(ok_of(o, e.res) is not False for i, e in ecalls(o, 'begin_read', 'open_table', 'iter', 'last', 'range'))
    if nx:
        src = strip(nx[0][1]).a[0]
        try:
            up, s, bad, tab, el = scan(r, src)
        except (NoOrder, cp.NotComp, StopIteration) as e:
            r.undec.append('%s: %s' % (what, e))
            return
        base = base_elem(el)
        here = [z for x in ([v] if v is not NONE else []) + [c[1] for c in o.conds if hasattr(c[1], 'op')] + [c[2] for c in o.conds if c[0] == 'cmp'] + [c[3] for c in o.conds if c[0] == 'cmp'] for z in subterms(x) if z.op == 'elem']
        base = here[0] if here else base
        r.ok('%s: nothing cut off' % what, not bad, '%s drops records by position: %s' % (what, ', '.join(bad)))
        cs = [c for c in o.conds if any(hasattr(x, 'op') and contains(x, lambda z: z is base) for x in c[1:]) and not (c[0] == 'is' and strip(c[1]).op == 'next')]
        try:
            poss = {x for x in s if holds(r, cs, base, x)}
        except NoOrder as e:
            r.undec.append('%s: %s' % (what, e))
            return
        exhausted = any(not c[3] for c in nx)
        entered = any(c[3] for c in nx)
        if v is NONE:
            r.ok('%s: none only when there is none' % what, not entered or not (poss & sel), '%s answers none although a record %s was visited [%s]' % (what, ' or '.join(miss[x + 1] for x in sorted(poss & sel)), txt(o)))
            if not up:
                r.ok('%s: searched to the end' % what, exhausted, '%s gives up after %s [%s]' % (what, 'one record', txt(o)))
            return
        r.ok('%s: the right record' % what, poss <= sel, '%s answers with a record %s [%s]' % (what, ' or '.join(miss[x + 1] for x in sorted(poss - sel)), txt(o)))
        if up:
            broke = any(c[0] == 'cmp' and c[1] in ('le', 'lt') and not holds(r, [c], base, -1) for c in cs)
            r.ok('%s: the greatest such record' % what, exhausted or broke or sel == ALL and False, '%s stops at the first record instead of the last before the key [%s]' % (what, txt(o)))
        rec = record_of(v)
        if rec is not None:
            r.ok('%s: key and value of one record' % what, rec[0][0] == '0' and rec[1][0] == '1' and rec[0][1] is rec[1][1], '%s yields %s' % (what, show(v)[:120]))
        return
    if v is NONE:
        bad = [e for i, e in ecalls(o, *PICK) if 'redb' in e.name or 'Iterator' in e.name]
        for e in bad:
            p = e.res if leaf(e.name) != 'last' or 'redb' not in e.name else payload(e.res, 'Ok')
            if ok_of(o, e.res) is False:
                continue
            r.ok('%s: none only when there is none' % what, not is_some(o, p), '%s answers none although it found a record [%s]' % (what, txt(o)))
        if opened and not bad:
            r.ok('%s: searched' % what, False, '%s answers none without reading the table [%s]' % (what, txt(o)))
        return
    pk = [z for z in subterms(v) if z.op == 'call' and leaf(z.a[0]) in set(PICK) | {'first', 'pop_last', 'pop_first', 'max', 'min', 'max_by', 'min_by', 'max_by_key'} and ('redb' in z.a[0] or 'terator' in z.a[0])]
    pk = list({z.id: z for z in pk}.values())
    if len(pk) != 1:
        r.undec.append('%s: answers %s' % (what, show(v)[:120]))
        return
    z = pk[0]
    n = leaf(z.a[0])
    if n in ('first', 'last') and 'redb' in z.a[0] and 'terator' not in z.a[0]:
        r.ok('%s: the right record' % what, n == 'last' and sel == ALL, '%s answers with the %s record of the table' % (what, n))
    elif n in PICK:
        try:
            up, s, bad, tab, el = scan(r, z.a[1][0])
            if n in ('find', 'rfind'):
                s = s & pred_at(r, z.a[1][1], el, base_elem(el))
        except (NoOrder, cp.NotComp, StopIteration) as e:
            r.undec.append('%s: %s' % (what, e))
            return
        r.ok('%s: nothing cut off' % what, not bad, '%s drops records by position: %s' % (what, ', '.join(bad)))
        r.ok('%s: the right record' % what, s == sel, '%s chooses among the records %s' % (what, ' and '.join(miss[x + 1] for x in sorted(s))))
        r.ok('%s: the greatest such record' % what, up == PICK[n], '%s takes the least such record' % what)
    else:
        r.undec.append('%s: picks with %s' % (what, n))
        return
    rec = record_of(v)
    if rec is not None:
        r.ok('%s: key and value of one record' % what, rec[0][0] == '0' and rec[1][0] == '1' and rec[0][1] is rec[1][1], '%s yields %s' % (what, show(v)[:120]))
