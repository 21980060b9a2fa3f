"""Temporary bans (C30)."""
from .config import *

BPC = r'tn_network_libp2p::peers::cache::BannedPeerCache(<.*>)?::'
NOEL = object()


def fieldops(t, field, acc=None):
    """the operations applied to self.<field> in the final state t: [(name, args, value before)] or None when it is replaced"""
    v = fld(t, field)
    ops = []
    while True:
        if v.op == 'upd!':
            base = v.a[0]
            ops.append((leaf(v.a[1]), [strip(x) for x in v.a[4:]], strip(base)))
            v = base
        elif v.op == 'fld' and v.a[1] == field and v.a[0].op in ('param', 'upd', 'upd!'):
            if v.a[0].op == 'param':
                return ops[::-1]
            w = fld(v.a[0].a[0], field)
            v = w
        else:
            return None


def eqkey(R, f, r):
    """what the elements selected by closure f have in common: (True, key) if it selects key == k, (False, key) if key != k"""
    try:
        el = mk('elem', mk('c', 'list', 'list'))
        outs = apply(R, f, [el])
    except NotComp:
        return None
    if len(outs) != 1:
        return None
    cs, v = outs[0]
    if cs:
        return None
    v, pol = strip(v), True
    while v.op == 'un' and v.a[0] == 'Not':
        v, pol = strip(v.a[1]), not pol
    if v.op == 'call' and leaf(v.a[0]) in ('eq', 'ne'):
        a, b = [strip(x) for x in v.a[1]]
        pol = pol == (leaf(v.a[0]) == 'eq')
    elif v.op == 'bin' and v.a[0] in ('Eq', 'Ne'):
        a, b = strip(v.a[1]), strip(v.a[2])
        pol = pol == (v.a[0] == 'Eq')
    else:
        return None
    for x, y in ((a, b), (b, a)):
        if x.op == 'fld' and x.a[1] == 'key' and contains(x, lambda z: z.op == 'elem'):
            if not contains(y, lambda z: z.op == 'elem'):
                return pol, y
    return None


def pkey(t):
    """t is (a clone of) the key parameter"""
    t = strip(t)
    while t.op == 'call' and leaf(t.a[0]) in ('clone', 'to_owned', 'borrow', 'as_ref') and t.a[1]:
        t = strip(t.a[1][0])
    return param_of(t) == 2


def isnew(o):
    """was the key absent, according to the conditions of o"""
    for c in o.conds:
        if c[0] == 'true':
            z = strip(c[1])
            if z.op == 'call' and len(z.a[1]) == 2 and fieldroot(z.a[1][0]) == 'map' and pkey(z.a[1][1]):
                n = leaf(z.a[0])
                if n == 'insert':
                    return c[2]
                if n in ('contains', 'remove'):
                    return not c[2]
        if c[0] == 'is' and c[2] in ('Some', 'Ok') and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) in ('take', 'get') and fieldroot(strip(c[1]).a[1][0]) == 'map':
            return not c[3]
    return None


def fieldroot(t):
    t = strip(t)
    while True:
        if t.op == 'upd!':
            t = strip(t.a[0])
        elif t.op == 'fld' and t.a[0].op == 'param' and t.a[0].a[0] == 1:
            return t.a[1]
        elif t.op == 'fld' and t.a[0].op in ('upd', 'upd!'):
            t = fld(t.a[0].a[0], t.a[1])
        elif t.op == 'call' and leaf(t.a[0]) in ('iter', 'deref', 'deref_mut', 'iter_mut', 'as_ref', 'as_mut') and t.a[1]:
            t = strip(t.a[1][0])
        else:
            return None


def isnow(t):
    t = strip(t)
    return t.op == 'call' and leaf(t.a[0]) == 'now' and len(t.a[1]) == 1 and fieldroot(t.a[1][0]) == 'clock'


def plain_sum(t):
    """saturating, wrapping and checked forms of adding a constant read as the sum"""
    if t.op == 'call' and len(t.a[1]) == 2 and is_const(t.a[1][1]):
        n = leaf(t.a[0])
        if n in ('saturating_add', 'wrapping_add'):
            return mk('bin', 'Add', t.a[1][0], t.a[1][1])
        if n in ('saturating_sub', 'wrapping_sub'):
            return mk('bin', 'Sub', t.a[1][0], t.a[1][1])
    return t


def lensign(o, S, full):
    """from the conditions of o: does the list, after the new element was appended, exceed the cap (True), stay within it (False), or unknown (None).  full: what entails it"""
    def lens(t):
        """length of a list term relative to the list at entry"""
        t, n = strip(t), 0
        while t.op == 'upd!':
            n += {'push_back': 1, 'push_front': 1}.get(leaf(t.a[1]), 0) - (1 if leaf(t.a[1]) in ('pop_front', 'pop_back', 'remove') else 0)
            t = strip(t.a[0])
        return n
    for c in o.conds:
        if c[0] != 'cmp':
            continue
        for a, b, fl in ((c[2], c[3], False), (c[3], c[2], True)):
            a, b = strip(a), strip(b)
            k = 0
            a, b = plain_sum(a), plain_sum(b)
            while a.op == 'bin' and a.a[0] in ('Add', 'Sub') and is_const(a.a[2]):
                k += a.a[2].a[0] * (1 if a.a[0] == 'Add' else -1)
                a = strip(a.a[1])
            while b.op == 'bin' and b.a[0] in ('Add', 'Sub') and is_const(b.a[2]):
                k -= b.a[2].a[0] * (1 if b.a[0] == 'Add' else -1)
                b = strip(b.a[1])
            if a.op == 'call' and leaf(a.a[0]) == 'len' and fieldroot(a.a[1][0]) in ('list', 'map') and fieldroot(b) == 'max_len':
                x = a.a[1][0]
                if fieldroot(x) == 'map':
                    d = 0
                    y = strip(x)
                    while y.op in ('upd!',):
                        d += {'insert': 1, 'remove': -1}.get(leaf(y.a[1]), 0)
                        y = strip(y.a[0])
                    if y.op == 'fld' and y.a[0].op in ('upd', 'upd!'):
                        return None
                else:
                    d = lens(x)
                # len(before) + d + k  <op>  max_len ; after = before + 1
                off = 1 - d - k      # after - lhs
                op = c[1]
                if fl:
                    op = {'lt': 'gt', 'le': 'ge'}.get(op, op)
                # lhs op max  ->  after op max + off
                if op == 'lt':
                    return ('within', off - 1)       # after <= max + off - 1
                if op == 'le':
                    return ('within', off)
                if op == 'gt':
                    return ('beyond', off + 1)       # after >= max + off + 1
                if op == 'ge':
                    return ('beyond', off)
                if op == 'eq':
                    return ('equal', off)
                if op == 'ne':
                    return ('other', off)
    return None


@check('C30', ['tn_network_libp2p'])
def c30(r):
    R = r.ctx()
    with r.section('insert'):
        seen = set()
        for o in r.outs(bodyre(r, BPC + 'insert$'), **OWN):
            if o.exit != 'ret':
                continue
            new = isnew(o)
            L, M = fieldops(o.state[1], 'list'), fieldops(o.state[1], 'map')
            if new is None or L is None or M is None:
                r.undec.append('insert: ' + txt(o, 120))
                continue
            seen.add(new)
            flag, ev = fld(o.ret, '0'), fld(o.ret, '1')
            fz = strip(flag)
            fv = fz.a[0] if is_const(fz) and fz.a[0] in (0, 1) else new if fz.op == 'call' and cond_of(o, fz, new) and leaf(fz.a[0]) == 'insert' else (not new) if fz.op == 'call' and leaf(fz.a[0]) == 'insert' else None
            if fv is None and fz.op == 'un' and fz.a[0] == 'Not' and strip(fz.a[1]).op == 'call' and leaf(strip(fz.a[1]).a[0]) == 'contains' and strip(strip(fz.a[1]).a[1][0]) is strip(fld(SELF, 'map')):
                fv = new
            if fv is None:
                r.undec.append('insert: answer %s' % show(flag)[:60])
            else:
                r.ok('reports whether the key was new', fv == new, 'insert answers %s for a key that was %s' % (fv, 'absent' if new else 'present'))
            names = [n for n, a, b in L]
            mn = [n for n, a, b in M]
            if any(n in ('index_mut', 'get_mut', 'iter_mut', 'front_mut', 'back_mut', 'range_mut', 'swap', 'insert') for n in names) and 'make_contiguous' not in names:
                r.ok('the order is by insertion time', False, 'insert changes an entry in place: the expiry order is no longer by insertion time')
                continue
            if any(n not in ('push_back', 'pop_front', 'pop_back', 'push_front', 'remove', 'retain', 'swap_remove_back', 'swap_remove_front') for n in names) or any(n not in ('insert', 'remove') for n in mn):
                r.undec.append('insert: operations %s / %s' % (names, mn))
                continue
            r.ok('the order is by insertion time', 'push_front' not in names, 'insert puts an entry at the front of the expiry order')
            r.ok('the order is by insertion time', not any(n.startswith('swap') for n in names), 'insert reorders the expiry order')
            push = [(n, a, b) for n, a, b in L if n == 'push_back']
            if not r.ok('inserted key is listed once', len(push) == 1, 'insert of a key that was %s appends %d entries to the expiry order' % ('absent' if new else 'present', len(push))):
                continue
            el = push[0][1][0]
            k, t = fld(el, 'key'), fld(el, 'inserted')
            gone = None
            for n, a, b in L:
                if n in ('remove',):
                    q = strip(a[0])
                    pos = q.a[0] if q.op == 'payload' else None
                    pc = [z for z in subterms(q) if z.op == 'call' and leaf(z.a[0]) in ('position', 'rposition')]
                    e = eqkey(R, pc[0].a[1][1], r) if len(pc) == 1 else None
                    gone = e and e[0] and pkey(e[1])
                if n == 'retain':
                    e = eqkey(R, a[0], r)
                    gone = e and not e[0] and pkey(e[1])
            if not new and unlisted(R, o):
                continue                              # the views agree on entry
            if not new and gone is None:
                if any(n in ('remove', 'retain') for n in names):
                    r.undec.append('insert: which entry is moved')
                else:
                    r.ok('a repeated ban is listed once', False, 'insert of a present key leaves its earlier entry in the expiry order')
            elif not new:
                r.ok('a repeated ban is listed once', gone is True, 'insert of a present key removes another entry from the expiry order')
            rk = pkey(k) or not new and strip(k).op == 'fld' and contains(k, lambda z: z.op == 'call' and leaf(z.a[0]) == 'remove')
            r.ok('the entry is the key', rk, 'the entry appended is %s' % show(k)[:60])
            if isnow(t):
                r.ok('the time starts at insertion', True)
            elif contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) in ('remove', 'position')) or is_const(t):
                r.ok('the time starts at insertion', False, 'the entry of a %s key is timed %s' % ('new' if new else 'repeated', show(t)[:80]))
            else:
                r.undec.append('insert: time %s' % show(t)[:60])
            r.ok('the key is a member', ('insert' in mn and any(n == 'insert' and pkey(a[0]) for n, a, b in M)) or not new and not mn, 'insert does not add the key to the membership view')
            pops = [i for i, n in enumerate(names) if n.startswith('pop')]
            if not new:
                r.ok('a repeated ban evicts nobody', not pops and 'remove' not in mn and strip(ev).op == 'agg' and strip(ev).a[1] == 'None', 'insert of a present key evicts an entry or reports an eviction')
                continue
            sg = lensign(o, None, None)
            if not pops:
                if sg is None:
                    r.ok('cap enforced', not any('max_len' in showc(c) for c in o.conds) and False, 'insert grows the cache without looking at the cap') if not any('max_len' in showc(c) for c in o.conds) else r.undec.append('insert: cap ' + txt(o, 120))
                elif sg[0] in ('within', 'beyond', 'equal'):
                    r.ok('cap enforced', sg[0] in ('within', 'equal') and sg[1] <= 0, 'insert keeps every entry although the list may be longer than the cap (%s)' % txt(o, 120))
                    if sg[0] == 'within' and sg[1] < 0:
                        r.ok('the cap is usable', True)
                elif sg[0] == 'other':
                    # occupancy never exceeds the cap on entry, so after <= max + 1 and after != max + off
                    r.ok('cap enforced', sg[1] == 1, 'insert keeps every entry although the list may be longer than the cap (%s)' % txt(o, 120))
                r.ok('no eviction reported', strip(ev).op == 'agg' and strip(ev).a[1] == 'None' and 'remove' not in mn, 'insert drops or reports an entry although the list was not shortened')
                continue
            p = L[pops[0]]
            r.ok('the oldest is evicted', all(names[i] == 'pop_front' for i in pops), 'insert evicts the newest entry')
            r.ok('one eviction', len(pops) == 1, 'insert evicts %d entries' % len(pops))
            if sg is None:
                r.undec.append('insert: eviction ' + txt(o, 120))
            elif sg[0] == 'beyond':
                r.ok('eviction only on overflow', sg[1] >= 1, 'insert evicts an entry although the list is within the cap (%s)' % txt(o, 120))
            elif sg[0] == 'equal':
                r.ok('eviction only on overflow', sg[1] == 1, 'insert evicts an entry although the list is within the cap (%s)' % txt(o, 120))
            else:
                r.ok('eviction only on overflow', False, 'insert evicts an entry although the list is within the cap (%s)' % txt(o, 120))
            popped = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) in ('pop_front', 'front')]
            if popped and popped[-1][3] is (popped[-1][2] not in ('Some', 'Ok')):
                continue                              # an overfull list is not empty
            rm = [a[0] for n, a, b in M if n == 'remove']
            r.ok('the evicted leaves the membership view', len(rm) == 1 and evkey(rm[0]), 'the evicted entry stays in the membership view')
            z = strip(ev)
            r.ok('the evicted is reported', z.op == 'agg' and z.a[1] == 'Some' and evkey(payload(z, 'Some')), 'insert evicts an entry and reports %s' % show(ev)[:60])
        r.ok('both cases of insert', seen == {True, False}, 'insert does not tell a new key from a present one') if seen else r.undec.append('insert')
    with r.section('remove'):
        for o in r.outs(bodyre(r, BPC + 'remove$'), **OWN):
            if o.exit != 'ret':
                continue
            new = isnew(o)
            L, M = fieldops(o.state[1], 'list'), fieldops(o.state[1], 'map')
            if new is None and strip(o.ret).op == 'call' and leaf(strip(o.ret).a[0]) == 'remove' and fieldroot(strip(o.ret).a[1][0]) == 'map' and L is not None:
                ok = [e for n, a, b in L if n == 'retain' for e in [eqkey(R, a[0], r)]]
                if ok and ok[0]:
                    r.ok('removed from the order', not ok[0][0] and pkey(ok[0][1]), 'remove keeps the removed key in the expiry order')
                else:
                    r.ok('removed from the order', bool(L), 'remove leaves the key in the expiry order') if not L else r.undec.append('remove: order')
                continue
            if new is None and not L and not M and L is not None and M is not None and is_const(strip(o.ret)) and not any(hasattr(y, 'op') and contains(y, lambda w: w.op == 'param' and w.a[0] == 2 or w.op == 'closure') for c in o.conds for y in c[1:]) and not any(c[0] == 'is' or c[0] == 'true' and 'is_empty' in showc(c) or c[0] == 'cmp' and (c[1] == 'eq' or c[1] == 'le' and amount(c[3]) == 0 or c[1] == 'lt' and amount(c[3]) == 1) for c in o.conds):
                r.ok('remove reports presence', False, 'remove answers without looking for the key [%s]' % txt(o, 120))
                continue
            if new is None or L is None or M is None:
                r.undec.append('remove: ' + txt(o, 120))
                continue
            z = strip(o.ret)
            v = z.a[0] if is_const(z) and z.a[0] in (0, 1) else (not new) if cond_of(o, z, not new) else None
            r.ok('remove reports presence', v == (not new), 'remove answers %s for a key that was %s' % (v, 'absent' if new else 'present')) if v is not None else r.undec.append('remove: answer %s' % show(z)[:60])
            gone = None
            for n, a, b in L:
                if n == 'remove':
                    pc = [x for x in subterms(a[0]) if x.op == 'call' and leaf(x.a[0]) in ('position', 'rposition')]
                    e = eqkey(R, pc[0].a[1][1], r) if len(pc) == 1 else None
                    gone = bool(e and e[0] and pkey(e[1]))
                elif n == 'retain':
                    e = eqkey(R, a[0], r)
                    gone = bool(e and not e[0] and pkey(e[1]))
                elif n in ('pop_front', 'pop_back', 'swap_remove_back', 'swap_remove_front', 'clear', 'push_back', 'push_front'):
                    gone = False
            inmap = any(n in ('remove', 'take') and pkey(a[0]) for n, a, b in M)
            if not new and unlisted(R, o):
                continue
            if new:
                r.ok('nothing to remove', gone is not False and not (gone and False), 'remove of an absent key changes the expiry order')
            else:
                r.ok('removed from both views', gone is True and inmap, 'remove leaves the key in the %s' % ('expiry order' if gone is not True else 'membership view'))
    with r.section('heartbeat'):
        outs = [o for o in r.outs(bodyre(r, BPC + 'heartbeat$'), own=(1,), sides=False, loops=2) if o.exit == 'ret']
        full = 0
        for o in outs:
            L, M = fieldops(o.state[1], 'list'), fieldops(o.state[1], 'map')
            if L is None or M is None:
                r.undec.append('heartbeat: ' + txt(o, 100))
                continue
            names = [n for n, a, b in L]
            if any(n not in ('pop_front', 'push_front', 'push_back', 'pop_back') for n in names) or any(n != 'remove' for n, a, b in M):
                r.undec.append('heartbeat: operations %s' % names)
                continue
            r.ok('oldest first', 'pop_back' not in names and 'push_back' not in names, 'heartbeat takes from or returns to the wrong end of the expiry order')
            # replay: the elements taken, in order
            infeasible, last_empty = False, False
            taken = []
            for n, a, b in L:
                if n == 'pop_front':
                    st = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'pop_front' and strip(c[1]).a[1] and strip(c[1]).a[1][0] is b]
                    some = st[0][3] == (st[0][2] in ('Some', 'Ok')) if st else None
                    if some is False:
                        if any(c[0] == 'is' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'front' and strip(c[1]).a[1][0] is b and c[3] == (c[2] in ('Some', 'Ok')) for c in o.conds):
                            infeasible = True
                        last_empty = True
                        continue
                    call_ = strip(st[0][1]) if st else None
                    taken.append([b, call_, False])
                elif n == 'push_front':
                    if taken and not taken[-1][2] and taken[-1][1] is not None and contains(a[0], lambda z: z is taken[-1][1]) and fld(a[0], 'inserted').op == 'fld':
                        taken[-1][2] = True
                    else:
                        r.ok('a kept entry is the one taken', False, 'heartbeat puts back %s' % show(a[0])[:80])
            if infeasible:
                continue
            for b, call_, back in taken:
                if not back:
                    key = lambda t: call_ is not None and contains(strip(t), lambda z: z is call_) or contains(strip(t), lambda z: z.op == 'call' and leaf(z.a[0]) == 'front' and z.a[1][0] is b)
                    rm = [a[0] for n, a, bb in M if key(a[0])]
                    r.ok('an expired entry leaves the membership view', len(rm) >= 1, 'heartbeat drops an entry from the expiry order only')
                    rep = []
                    v = strip(o.ret)
                    while v.op == 'upd!':
                        if leaf(v.a[1]) == 'push':
                            rep.append(v.a[4])
                        v = strip(v.a[0])
                    r.ok('an expired entry is reported once', len([x for x in rep if key(x)]) == 1, 'heartbeat reports an expired entry %d times' % len([x for x in rep if key(x)]))
                # its time
                st = [expired(o, c, b, call_) for c in o.conds]
                st = [x for x in st if x is not None]
                if not st:
                    if any('inserted' in showc(c) and 'duration' in showc(c) for c in o.conds):
                        r.undec.append('heartbeat: ' + txt(o, 160))
                    else:
                        r.ok('expiry is timed', False, 'heartbeat %s an entry without looking at its time' % ('keeps' if back else 'drops'))
                elif back:
                    r.ok('an entry stays until its expiry', st[-1] == 'alive', 'heartbeat keeps an entry that is %s' % st[-1])
                else:
                    r.ok('an entry leaves at its expiry', st[-1] == 'expired', 'heartbeat drops an entry that is %s' % st[-1])
            # stops only at the first entry that is alive or at the end
            empty0 = any(c[0] == 'cmp' and c[1] == 'eq' and 'len' in showc(c) and 'list' in showc(c) for c in o.conds) or any(c[0] == 'true' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'is_empty' and c[2] for c in o.conds) or any(c[0] == 'is' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'front' and c[3] == (c[2] not in ('Some', 'Ok')) for c in o.conds)
            alive = any(expired(o, c, None, None) == 'alive' for c in o.conds)
            r.ok('heartbeat stops only at an unexpired entry', last_empty or empty0 or alive, 'heartbeat stops although the next entry may have expired (%s)' % txt(o, 120))
            full += bool(taken)
        full or r.undec.append('heartbeat')
    with r.section('views'):
        for n, leafs in (('contains', 'contains'), ('len', 'len')):
            for o in r.outs(bodyre(r, BPC + n + '$'), sides=False):
                if o.exit != 'ret':
                    continue
                z = strip(o.ret)
                ok = z.op == 'call' and leaf(z.a[0]) == leafs and fieldroot(z.a[1][0]) in (('map', 'list') if n == 'len' else ('map',)) and (n == 'len' or pkey(z.a[1][1]))
                if ok:
                    r.ok('%s answers from the cache' % n, True)
                elif is_const(z) or z.op == 'un' or z.op == 'bin' or n == 'len' and z.op == 'call' and leaf(z.a[0]) in ('capacity',):
                    r.ok('%s answers from the cache' % n, False, '%s answers %s' % (n, show(z)[:80]))
                else:
                    r.undec.append('%s: %s' % (n, show(z)[:60]))
    with r.section('creation'):
        for o in r.outs(bodyre(r, BPC + 'new$'), sides=False):
            if o.exit != 'ret':
                continue
            m = strip(fld(o.ret, 'max_len'))
            if m.op == 'call' and leaf(m.a[0]) == 'max' and len(m.a[1]) == 2:
                k = [x.a[0] for x in m.a[1] if is_const(x)]
                r.ok('the cap is at least one', any(isinstance(x, int) and x >= 1 for x in k), 'the cap may be zero')
                r.ok('the configured cap is used', k == [1] and any(param_of(x) == 2 for x in m.a[1]), 'the cap is %s' % show(m)[:60])
            elif is_const(m):
                r.ok('the configured cap is used', isinstance(m.a[0], int) and m.a[0] >= 1 and any(c[0] == 'cmp' for c in o.conds), 'the cap is %s' % show(m)[:60])
            elif param_of(m) == 2:
                lo = any(c[0] == 'cmp' and param_of(c[2]) == 2 and c[1] in ('ne',) and is_const(c[3]) and c[3].a[0] == 0 or c[0] == 'cmp' and is_const(c[2]) and param_of(c[3]) == 2 and c[1] in ('lt', 'le') and c[2].a[0] + (c[1] == 'lt') >= 1 or c[0] == 'cmp' and c[1] == 'ne' and is_const(c[2]) and c[2].a[0] == 0 for c in o.conds)
                r.ok('the cap is at least one', lo, 'the cap may be zero')
            elif m.op == 'call' and leaf(m.a[0]) in ('min', 'saturating_sub', 'saturating_add', 'saturating_mul', 'wrapping_add', 'wrapping_sub', 'pow', 'isqrt', 'next_power_of_two') or m.op == 'bin' or m.op == 'call' and leaf(m.a[0]) == 'clamp' and amount(m.a[1][1]) != 1:
                r.ok('the configured cap is used', False, 'the cap is %s' % show(m)[:60])
            else:
                r.undec.append('new: cap %s' % show(m)[:60])
            r.ok('the configured duration is used', param_of(fld(o.ret, 'duration')) == 1, 'the duration is %s' % show(fld(o.ret, 'duration'))[:60])
            for f in ('map', 'list'):
                z = strip(fld(o.ret, f))
                r.ok('a new cache is empty', z.op == 'call' and leaf(z.a[0]) in ('default', 'new', 'with_capacity'), 'a new cache starts with %s' % show(z)[:60])
    with r.section('clock'):
        for o in r.outs(bodyre(r, r'<tn_network_libp2p::peers::cache::SystemClock as .*>::now$'), sides=False):
            z = strip(o.ret)
            r.ok('the clock is the monotonic clock', z.op == 'call' and leaf(z.a[0]) == 'now' and 'Instant' in z.a[0], 'the clock answers %s' % show(z)[:60])


def unlisted(R, o):
    """the path on which a member of the cache is not found in the expiry order"""
    for c in o.conds:
        if c[0] == 'is' and c[3] == (c[2] not in ('Some', 'Ok')):
            z = strip(c[1])
            if z.op == 'call' and leaf(z.a[0]) in ('position', 'rposition', 'find') and len(z.a[1]) == 2 and fieldroot(z.a[1][0]) == 'list':
                e = eqkey(R, z.a[1][1], None)
                if e and e[0] and pkey(e[1]):
                    return True
            if z.op == 'call' and leaf(z.a[0]) == 'remove' and fieldroot(z.a[1][0]) == 'list':
                return True
    return False


def evkey(t):
    """the key of an entry taken from the front of the list"""
    t = strip(t)
    return t.op == 'fld' and t.a[1] == 'key' and contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) in ('pop_front', 'front') and z.a[1] and fieldroot(z.a[1][0]) == 'list')


def timepoly(t):
    """a point in time as linear form over now / inserted / duration"""
    t = strip(t)
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = timepoly(t.a[1]), timepoly(t.a[2])
        return None if a is None or b is None else padd(a, b, 1 if t.a[0] == 'Add' else -1)
    if t.op == 'call':
        n = leaf(t.a[0])
        if n == 'now':
            return {('now',): 1}
        if n in ('add', 'sub', 'duration_since', 'saturating_duration_since') and len(t.a[1]) == 2:
            a, b = timepoly(t.a[1][0]), timepoly(t.a[1][1])
            return None if a is None or b is None else padd(a, b, 1 if n == 'add' else -1)
        if n == 'elapsed':
            a = timepoly(t.a[1][0])
            return None if a is None else padd({('now',): 1}, a, -1)
        if n == 'clone' and t.a[1]:
            return timepoly(t.a[1][0])
    if t.op == 'fld' and t.a[1] == 'inserted':
        return {('inserted',): 1}
    if t.op == 'fld' and t.a[1] == 'duration' and fieldroot(t) == 'duration':
        return {('duration',): 1}
    return None


def expired(o, c, base, call_):
    """'expired' / 'alive' / other when c compares the time of the entry taken from base"""
    if c[0] == 'true':
        z = strip(c[1])
        if not (z.op == 'call' and leaf(z.a[0]) in ('lt', 'le', 'gt', 'ge') and len(z.a[1]) == 2):
            return None
        n, a, b = leaf(z.a[0]), z.a[1][0], z.a[1][1]
        if n in ('gt', 'ge'):
            n, a, b = {'gt': 'lt', 'ge': 'le'}[n], b, a
        if not c[2]:
            n, a, b = {'lt': 'le', 'le': 'lt'}[n], b, a
    elif c[0] == 'cmp' and c[1] in ('lt', 'le'):
        n, a, b = c[1], c[2], c[3]
    else:
        return None
    a, b = strip(a), strip(b)
    if base is not None and not contains(a, lambda z: z.op == 'call' and leaf(z.a[0]) in ('pop_front', 'front') and z.a[1][0] is base) \
            and not contains(b, lambda z: z.op == 'call' and leaf(z.a[0]) in ('pop_front', 'front') and z.a[1][0] is base):
        return None
    x, y = timepoly(a), timepoly(b)
    if x is None or y is None:
        return None
    d = padd(x, y, -1)              # a - b
    if d == {('inserted',): 1, ('duration',): 1, ('now',): -1}:
        return 'expired' if n == 'le' else 'expired (later than its expiry)'
    if d == {('inserted',): -1, ('duration',): -1, ('now',): 1}:
        return 'alive' if n == 'lt' else 'alive (or at its expiry)'
    return 'timed by %s' % shp(d)
