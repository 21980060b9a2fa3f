"""C10-C13: notification, signals, channels, ports."""
import re
from engine.rules import *
from engine.lib import *
from engine import comp as cp
from engine.comp import NotComp


def ecalls(o, *names):
    """(index, event) of the calls on outcome o whose last path segment is one of names"""
    return [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in names]


def subst(t, what, by):
    return sa.rebuild(t, lambda x: by if x is what else None, {})


HOLE = mk('param', 99, 'key')
COUNT = lambda t: contains(t, lambda z: z.op == 'fld' and z.a[1] == 'count_pending')
ABSENT = lambda o, t: any(c[0] == 'is' and c[2] in ('Ok', 'Some') and not c[3] and strip(c[1]) is strip(t) for c in o.conds)
PRESENT = lambda o, t: any(c[0] == 'is' and c[2] in ('Ok', 'Some') and c[3] and strip(c[1]) is strip(t) for c in o.conds)


def amount(t):
    return t.a[0] if is_const(t) else None


@check('C10', ['tn_utils'])
def c10(r):
    shards = {}
    MAPOPS = ('remove', 'remove_entry', 'entry', 'get_mut', 'get', 'insert', 'retain', 'clear', 'drain', 'iter_mut', 'values_mut', 'take', 'extract_if')

    def shard(m, key):
        t = subst(strip(m), strip(key), HOLE)
        return strip(sa.rebuild(t, lambda x: mk('param', 98, 'pending') if x.op == 'fld' and x.a[1] == 'pending' else None, {}))

    def note(fn, m, key):
        s = shard(m, key)
        shards.setdefault(s, []).append(fn)

    def is_map(t):
        return contains(t, lambda z: z.op == 'fld' and z.a[1] == 'pending')

    with r.section('publication'):
        outs = [o for o in r.outs(r.fn('NotifyRead::notify'), sides=False) if o.exit == 'ret']
        sent = False
        for o in outs:
            t = ' & '.join(showc(c) for c in o.conds)[-300:]
            ops = [(i, e) for i, e in ecalls(o, *MAPOPS) if e.args and is_map(strip(e.args[0])) and ('Map' in e.name)]
            rem = [(i, e) for i, e in ops if leaf(e.name) in ('remove', 'remove_entry')]
            other = [e for i, e in ops if leaf(e.name) not in ('remove', 'remove_entry', 'get', 'entry', 'get_mut')]
            r.ok('other keys', not other, 'notify changes other entries: %s' % other[:1])
            if not rem:
                if any(leaf(e.name) in ('get_mut', 'entry', 'get') for _, e in ops):
                    r.undec.append('notify: entry of the key not taken by remove')
                    continue
                if not ops:
                    r.ok('takes the waiters', False, 'no entry is taken [%s]' % t)
                continue
            for _, e in rem:
                note('notify', e.args[0], e.args[1])
                r.ok('the published key', param_of(e.args[1]) == 2, 'takes the waiters of %s' % show(e.args[1])[:100])
            res = rem[0][1].res
            subs = [e for _, e in ecalls(o, 'fetch_sub') if COUNT(e.args[0])]
            adds = [e for _, e in ecalls(o, 'fetch_add', 'store', 'swap') if COUNT(e.args[0])]
            r.ok('count only falls', not adds, '%s' % adds[:1])
            if ABSENT(o, res):
                r.ok('nobody waiting', all(amount(e.args[1]) == 0 for e in subs), 'the count changes although nobody waited: %s' % subs[:1])
                continue
            looped = any(cp.isnext(c) and c[3] for c in o.conds)
            each = [e for e in subs if amount(e.args[1]) == 1]
            bulk = [e for e in subs if contains(e.args[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'len' and contains(z, lambda q: strip(q) is strip(res)))]
            good = (len(bulk) == 1 and len(subs) == 1) or (not bulk and len(subs) == len(each) == (1 if looped else 0))
            if bulk and len(subs) == 1:
                x = strip(bulk[0].args[1])
                good = x.op == 'call' and leaf(x.a[0]) == 'len'
            r.ok('count falls by the number of waiters', good, 'count changes: %s [%s]' % (subs, t))
            snd = [(i, e) for i, e in ecalls(o, 'send')]
            if looped:
                mine = [(i, e) for i, e in snd if contains(strip(e.args[0]), lambda z: z.op == 'elem' and contains(z, lambda q: q is strip(res)))]
                r.ok('every waiter is sent the value', mine, 'a waiter taken from the map gets nothing [%s]' % t)
                for i, e in mine:
                    sent = True
                    r.ok('the published value', param_of(e.args[1]) == 3, 'sent is %s' % show(e.args[1])[:100])
                    r.ok('all waiters', not contains(strip(e.args[0]), lambda z: z.op == 'call' and leaf(z.a[0]) in ('skip', 'take', 'filter', 'step_by', 'take_while', 'skip_while')),
                         'not all waiters are sent: %s' % show(e.args[0])[:200])
                r.ok('no waiter skipped', any(cp.isnext(c) and not c[3] for c in o.conds), 'the loop over the waiters can end early [%s]' % t)
        if not sent:
            chains = [e for o in outs for _, e in ecalls(o, 'for_each', 'send')]
            (r.undec.append('notify: sends not readable') if chains else r.ok('every waiter is sent the value', False, 'no value is sent'))

    def registration(o, fn, keyp, added=None):
        """one registration on outcome o"""
        t = ' & '.join(showc(c) for c in o.conds)[-300:]
        regs = [z for z in {z.id: z for z in ([o.ret] if o.ret is not None else []) and list(subterms(o.ret))}.values() if z.op == 'agg' and path_match(z.a[0], 'notify_read::Registration')]
        if not r.ok(fn + ': returns a registration', regs, 'returned is %s' % show(o.ret)[:200]):
            return
        z = regs[0]
        own = fld(payload(fld(z, 'registration'), 'Some'), '0'), fld(payload(fld(z, 'registration'), 'Some'), '1')
        r.ok(fn + ': key kept', keyp(own[0]), 'registration is for %s' % show(own[0])[:100])
        r.ok(fn + ': same object', param_of(fld(z, 'this')) == 1, 'registration belongs to %s' % show(fld(z, 'this'))[:80])
        push = [(i, e) for i, e in ecalls(o, 'push') if contains(strip(e.args[0]), lambda q: q.op == 'fld' and q.a[1] == 'pending')]
        fresh = [(i, e) for i, e in ecalls(o, 'insert') if len(e.args) == 3 and is_map(strip(e.args[0])) and 'Map' in e.name]
        if not push and fresh:
            i, e = fresh[0]
            absent = any((c[0] == 'is' and c[2] in ('Ok', 'Some') and not c[3] and is_map(c[1])) or (c[0] == 'true' and not c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains_key')
                         for c in o.before(i))
            r.ok(fn + ': not replacing others', absent, 'other waiters for the key are lost: %s' % repr(e)[-120:])
            r.ok(fn + ': recorded under the key', keyp(e.args[1]), 'recorded under %s' % show(e.args[1])[:100])
            note(fn, e.args[0], e.args[1])
            count_one(o, fn, i, added)
            return
        if not push:
            ins = [e for _, e in ecalls(o, 'insert', 'or_insert', 'or_insert_with', 'extend', 'and_modify') if is_map(strip(e.args[0]))]
            (r.undec.append(fn + ': sender stored in an unread way') if ins else r.ok(fn + ': recorded', False, 'the waiter is not recorded [%s]' % t))
            return
        r.ok(fn + ': recorded once', len(push) == 1, 'recorded %d times' % len(push))
        i, e = push[0]
        ch = [q for q in subterms(e.args[1]) if q.op == 'call' and leaf(q.a[0]) == 'channel']
        r.ok(fn + ': the two ends belong together', ch and contains(own[1], lambda q: q is ch[0]), 'sender %s receiver %s' % (show(e.args[1])[:80], show(own[1])[:80]))
        ent = [q for q in subterms(e.args[0]) if q.op == 'call' and leaf(q.a[0]) in ('entry', 'get_mut') and len(q.a[1]) == 2]
        for q in ent[:1]:
            r.ok(fn + ': recorded under the key', keyp(q.a[1][1]), 'recorded under %s' % show(q.a[1][1])[:100])
            note(fn, q.a[1][0], q.a[1][1])
        r.ok(fn + ': not replacing others', not [x for _, x in ecalls(o, 'insert', 'clear', 'remove') if is_map(strip(x.args[0])) and 'Map' in x.name], 'other waiters are lost [%s]' % t)
        count_one(o, fn, i, added)

    def count_one(o, fn, i, added):
        adds = [(k, x) for k, x in ecalls(o, 'fetch_add') if COUNT(x.args[0])]
        bad = [x for _, x in ecalls(o, 'fetch_sub', 'store') if COUNT(x.args[0])]
        r.ok(fn + ': count only rises', not bad, '%s' % bad[:1])
        r.ok(fn + ': count rises by one', len(adds) == 1 and (amount(adds[0][1].args[1]) == 1 or (added and added(adds[0][1], o, adds[0][0]))),
             'count changes: %s' % [x for _, x in adds])
        rel = [k for k, x in enumerate(o.events) if x.k == 'drop' and x.args and x.args[0].op == 'guard' and k > i]
        if adds:
            r.ok(fn + ': counted before it can be notified', adds[0][0] < (rel[0] if rel else i), 'the waiter is visible before it is counted')

    with r.section('registration'):
        for o in r.outs(r.fn('NotifyRead::register_one'), sides=False):
            if o.exit == 'ret':
                registration(o, 'register_one', lambda t: param_of(t) == 2)
    with r.section('registration of many'):
        outs = [o for o in r.outs(r.fn('NotifyRead::register_all'), sides=False) if o.exit == 'ret']
        loops = [o for o in outs if any(cp.isnext(c) and c[3] for c in o.conds)]
        ofkeys = lambda t: contains(strip(t), lambda z: z.op == 'elem' and contains(z, par(2)))
        whole = lambda x, o, i: (strip(x.args[1]).op == 'call' and leaf(strip(x.args[1]).a[0]) == 'len' and param_of(strip(x.args[1]).a[1][0]) == 2
                                 and not any(cp.isnext(c) for c in o.before(i)))
        for o in loops:
            registration(o, 'register_all', ofkeys, whole)
            r.ok('register_all: repeated keys too', not [e for _, e in ecalls(o, 'collect', 'dedup', 'from_iter') if leaf(e.name) == 'dedup' or e.info and any('Set<' in str(z) for z in e.info[2])], 'a repeated key is registered once')
            r.ok('register_all: every key', any(cp.isnext(c) and not c[3] for c in o.conds), 'the loop over the keys can end early')
        if not loops:
            n = 0
            for o in outs:
                for z in subterms(o.ret):
                    if z.op == 'call' and leaf(z.a[0]) == 'map' and len(z.a[1]) == 2 and z.a[1][1].op == 'closure':
                        try:
                            es = r.emits(z.a[1][0])
                            g = sa.build(r.F, r.F.bodies[z.a[1][1].a[0]], args={1: z.a[1][1], 2: es[0].val}, sides=False)
                        except (NotComp, KeyError, IndexError) as e:
                            r.undec.append('register_all: %s' % e)
                            continue
                        r.ok('register_all: every key', len(es) == 1 and not es[0].conds and not es[0].marks and contains(es[0].val, par(2)), 'registers %s' % es)
                        for q in sa.outcomes(g):
                            if q.exit == 'ret':
                                n += 1
                                pre = [x for _, x in ecalls(o, 'fetch_add') if COUNT(x.args[0])]
                                if pre:
                                    q.events = [x for x in o.events if x in pre] + list(q.events)
                                registration(q, 'register_all', ofkeys, lambda x, *_: whole(x, o, 0))
            if not n:
                r.undec.append('register_all: loop not readable')
    with r.section('cancellation'):
        outs = [o for o in r.outs(dropper(r), sides=False) if o.exit == 'ret']
        seen = set()
        for o in outs:
            t = ' & '.join(showc(c) for c in o.conds)[-400:]
            locks = [i for i, e in enumerate(o.events) if e.k == 'lock']
            subs = [(i, e) for i, e in ecalls(o, 'fetch_sub') if COUNT(e.args[0])]
            adds = [e for _, e in ecalls(o, 'fetch_add', 'store') if COUNT(e.args[0])]
            r.ok('count only falls', not adds, '%s' % adds[:1])
            gets = [(i, e) for i, e in ecalls(o, 'get_mut', 'entry', 'get', 'remove', 'remove_entry') if 'Map' in e.name and is_map(strip(e.args[0]))]
            wipe = [e for _, e in ecalls(o, 'clear', 'drain', 'retain') if 'Map' in e.name and is_map(strip(e.args[0]))]
            r.ok('other keys', not wipe, '%s' % wipe[:1])
            if not gets:
                seen.add('none')
                r.ok('nothing registered', not subs, 'count changes without a registration: %s' % [e for _, e in subs])
                continue
            for i, e in gets:
                note('cleanup', e.args[0], e.args[1])
                r.ok('the registered key', contains(strip(e.args[1]), lambda z: z.op == 'fld' and z.a[1] == 'registration') , 'cleans up %s' % show(e.args[1])[:100])
            # the receiver is gone before the list is inspected
            closed = [i for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('is_closed', 'retain', 'extract_if', 'position', 'retain_mut')]
            drops = [i for i, e in enumerate(o.events) if (e.k == 'drop' and e.args and is_receiver(e.args[0])) or
                     (e.k == 'call' and leaf(e.name) in ('close', 'drop') and e.args and is_receiver(e.args[0]))]
            if closed:
                r.ok('own receiver is dropped first', drops and drops[0] < closed[0], 'the list is cleaned while the own receiver is still open')
            first = gets[0][1].res
            if ABSENT(o, first) or any(c[0] == 'is' and c[2] == 'Vacant' and c[3] for c in o.conds):
                seen.add('absent')
                r.ok('already notified', all(amount(e.args[1]) == 0 for _, e in subs), 'count changes although the waiters were already notified: %s' % [e for _, e in subs])
                continue
            if leaf(gets[0][1].name) == 'remove':
                r.undec.append('cleanup: the list is taken out of the map')
                continue
            ret = ecalls(o, 'retain', 'retain_mut')
            if not ret:
                if not closed:
                    r.ok('removes waiters that are gone', False, 'the waiter is not removed from the list [%s]' % t)
                else:
                    r.undec.append('cleanup: removal not by retain')
                continue
            seen.add('list')
            isc = [c for c in o.conds if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_closed']
            gone = isc[0][2] if len(isc) == 1 else None
            for i, e in ret:
                try:
                    for cs, v in cp.apply(r.ctx(), e.args[1], [mk('elem', strip(e.args[0]))]):
                        kc = [c for c in cs if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_closed']
                        keep = bool(v.a[0]) if v.op == 'c' else None
                        cnd = None if v.op == 'c' else cond(v)
                        if cnd is not None and cnd[0] == 'true' and cnd[1].op == 'call' and leaf(cnd[1].a[0]) == 'is_closed':
                            r.ok('keeps the live, removes the gone', not cnd[2], 'kept under %s' % showc(cnd))
                        elif keep is not None and kc:
                            r.ok('keeps the live, removes the gone', keep == (not kc[0][2]), 'waiter kept=%s when closed=%s' % (keep, kc[0][2]))
                        elif keep is not None and not cs:
                            r.ok('keeps the live, removes the gone', False, 'every waiter is %s' % ('kept' if keep else 'removed'))
                        else:
                            r.undec.append('cleanup: retain condition %s' % show(v)[:120])
                except NotComp as x:
                    r.undec.append('cleanup: %s' % x)
            diff = [e for _, e in subs if strip(e.args[1]).op == 'bin' and strip(e.args[1]).a[0].startswith('Sub')]
            if not diff:
                for _, e in ret:
                    tally(r, e.args[1], len(subs) == 1 and tallied(subs[0][1].args[1]))
            if gone is not None and not diff:
                tot = [amount(e.args[1]) for _, e in subs]
                if None in tot:
                    tot2 = [show(e.args[1])[:80] for _, e in subs]
                    r.ok('count falls by the waiters removed', len(tot) == 1 and counts(subs[0][1].args[1], gone), 'removed=%s, count falls by %s' % (gone, tot2))
                else:
                    r.ok('count falls by the waiters removed', sum(tot) == (1 if gone else 0), 'waiter gone: %s, count falls by %s' % (gone, tot))
            elif diff:
                x = strip(diff[0].args[1])
                ln = lambda z: contains(z, lambda q: q.op == 'call' and leaf(q.a[0]) == 'len')
                r.ok('count falls by the waiters removed', ln(x.a[1]) and ln(x.a[2]) and len(subs) == 1, 'count falls by %s' % show(x)[:200])
            elif not subs:
                r.ok('count falls by the waiters removed', False, 'the count does not change when waiters are removed')
            elif None not in [amount(e.args[1]) for _, e in subs]:
                r.ok('count falls by the waiters removed', sum(amount(e.args[1]) for _, e in subs) == 0, 'the count falls by %s whatever is removed' % [amount(e.args[1]) for _, e in subs])
            elif len(subs) == 1 and tallied(subs[0][1].args[1]):
                pass    # the closure's own steps are what `tally` has judged
            else:
                r.undec.append('cleanup: count %s' % subs[0][1])
            rm = [(i, e) for i, e in ecalls(o, 'remove', 'remove_entry') if 'Map' in e.name or 'Entry' in e.name]
            emp = [c for c in o.conds if c[0] in ('true', 'cmp') and contains_len(c)]
            em = empty_verdict(emp)
            if em is None and rm:
                r.ok('empty entry only', False, 'the entry is removed with live waiters in it [%s]' % t)
            elif em is not None:
                r.ok('empty entry goes, others stay', bool(rm) == em, 'list empty: %s, entry removed: %s' % (em, bool(rm)))
            elif not rm:
                r.ok('leaves nothing behind', False, 'an empty entry is never removed')
            guard = [i for i, e in enumerate(o.events) if e.k == 'drop' and e.args and e.args[0].op == 'guard']
            r.ok('one critical section', len(locks) == 1 and all(i < (guard[0] if guard else 10**9) for i, _ in ret + rm), 'the list is inspected and changed in %d critical sections' % len(locks))
        r.ok('cases', seen >= {'absent', 'list'} or r.undec, 'cases seen: %s' % sorted(seen))
    with r.section('polling'):
        for o in r.rets(poller(r), sides=False):
            ws = [e for e in o.events if e.k in ('write', 'lwrite') and contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'registration')]
            ready = any(c[0] == 'is' and (c[2] == 'Ready' and c[3] or c[2] == 'Pending' and not c[3]) for c in o.conds)
            if ws and not ready:
                v = ws[-1].args[1]
                r.ok('pending keeps the registration', v.op == 'agg' and v.a[1] == 'Some', 'a waiter that is not ready yet is forgotten')
            ps = ecalls(o, 'poll')
            r.ok('polls its own receiver', ps and any(is_receiver(e.args[0]) for _, e in ps), 'polls %s' % [show(e.args[0])[:80] for _, e in ps])
    with r.section('one shard per key'):
        r.ok('same shard', len(shards) <= 1, 'the same key is looked for in different places: %s' % {show(k)[-160:]: sorted(set(v)) for k, v in shards.items()})
    with r.section('count'):
        for o in r.rets(r.fn('NotifyRead::num_pending')):
            t = strip(o.ret)
            r.ok('num_pending', t.op == 'call' and leaf(t.a[0]) == 'load' and COUNT(t), r.otext(o))
        for b, x in r.callers('fetch_add|fetch_sub|fetch_update|store|swap|fetch_max|compare_exchange', 'tn_utils'):
            for root_ in r.roots([b]):
                if any(COUNT(e.args[0]) for _, _, e in r.graph(root_).calls('fetch_add|fetch_sub|fetch_update|store|swap|fetch_max|compare_exchange') if e.args):
                    r.ok('count changed by ' + root_.path, path_match(root_.path, 'NotifyRead::notify|NotifyRead::register_one|NotifyRead::register_all|drop|NotifyRead::cleanup|NotifyRead::register|NotifyRead::new'),
                         'the count is changed elsewhere')


def tally(r, f, counted=False):
    """the closure that decides which waiters stay counts one for each that goes"""
    b = r.F.bodies.get(f.a[0]) if f.op == 'closure' else None
    if b is None:
        return
    for q in sa.outcomes(sa.build(r.F, b, sides=False)):
        kc = [c for c in q.conds if c[0] == 'true' and head(c[1]) == 'is_closed']
        ws = [e for e in q.events if e.k == 'write' and root_par(e.args[0]) == 1]
        if q.exit == 'ret' and len(kc) == 1 and kc[0][2] and counted and not ws:
            r.ok('one is counted for each waiter that goes', False, 'a waiter that goes is not counted')
        if q.exit != 'ret' or len(kc) != 1 or not any(is_const(e.args[1]) or e.args[1].op == 'bin' for e in ws):
            continue
        for e in ws:
            v = strip(e.args[1])
            one = v.op == 'bin' and v.a[0].startswith('Add') and strip(v.a[1]) == strip(e.args[0]) and amount(v.a[2]) == 1
            r.ok('one is counted for each waiter that goes', kc[0][2] and one, 'closed=%s: %s becomes %s' % (kc[0][2], show(e.args[0]), show(v)))


def root_par(t):
    t = strip(t)
    while t.op == 'fld':
        t = t.a[0]
    return param_of(t)


def tallied(t):
    t = strip(t)
    return t.op == 'upd!' and is_const(strip(t.a[0])) and strip(t.a[0]).a[0] == 0 and leaf(t.a[1]) in ('retain', 'retain_mut')


def counts(t, gone):
    return contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) in ('count', 'len', 'sum'))


def contains_len(c):
    return any(isinstance(x, T) and contains(x, lambda q: q.op == 'call' and leaf(q.a[0]) in ('is_empty', 'len') and not contains(q, lambda z: z.op == 'call' and leaf(z.a[0]) == 'finish' and False))
               and head(x) in ('is_empty', 'len') for x in c[1:])


def head(t):
    return leaf(t.a[0]) if t.op == 'call' else None


def empty_verdict(cs):
    for c in cs:
        if c[0] == 'true' and head(c[1]) == 'is_empty':
            return c[2]
        if c[0] == 'cmp':
            a, b = c[2], c[3]
            if head(a) == 'len' and is_const(b) and b.a[0] == 0 and c[1] in ('eq', 'ne', 'le'):
                return c[1] in ('eq', 'le')
            if head(b) == 'len' and is_const(a) and a.a[0] == 0 and c[1] in ('eq', 'ne', 'lt'):
                return c[1] == 'eq'
    return None


def is_receiver(t):
    return contains(t, lambda z: z.op == 'fld' and z.a[1] == '1' and contains(z.a[0], lambda q: q.op == 'fld' and q.a[1] == 'registration'))


def dropper(r):
    bs = [b for b in r.F.find('drop') if 'Registration' in b.path]
    if len(bs) != 1:
        raise MissingAnchor('Drop for Registration')
    return bs[0]


def poller(r):
    bs = [b for b in r.F.find('poll') if 'Registration' in b.path and 'closure' not in b.path]
    if len(bs) != 1:
        raise MissingAnchor('Future for Registration')
    return bs[0]


def chain_of(t):
    """(root term, field names) of a field chain"""
    ns = []
    while t.op in ('fld', 'as'):
        if t.op == 'fld':
            ns.append(t.a[1])
        t = t.a[0]
    return t, tuple(reversed(ns))


def ends(t, path):
    return chain_of(strip(t))[1][-len(path):] == path


def loops_through(o):
    """the outcome goes through a loop to its end (not leaving it early)"""
    return all(any(cp.isnext(d) and not d[3] and d[1].a[0] is c[1].a[0] for d in o.conds) for c in o.conds if cp.isnext(c) and c[3])


@check('C11', ['tn_types'])
def c11(r):
    FL = WK = None
    with r.section('flag'):
        for o in r.rets(r.fn('Noticer::noticed')):
            root_, ns = chain_of(strip(o.ret))
            if r.ok('noticed reads the flag', root_.op == 'param' and len(ns) >= 2, r.otext(o)):
                FL = ns
    if FL is None:
        return
    polls = [b for b in r.F.find('poll') if 'Noticer' in b.path and b.d.get('trait')]
    isflag = lambda t: ends(t, FL)
    with r.section('polling'):
        r.ok('futures', polls, 'Noticer is no future')
        for b in polls:
            for o in r.rets(b, sides=False):
                t = r.otext(o)
                v = o.ret.a[1] if o.ret.op == 'agg' else None
                fl = [c[2] for c in o.conds if c[0] == 'true' and isflag(c[1])]
                r.ok('stays resolved', not [e for e in o.events if e.k in ('write', 'lwrite') and isflag(e.args[0]) and not (is_const(e.args[1]) and e.args[1].a[0])], 'polling clears the flag: ' + t)
                locks = [i for i, e in enumerate(o.events) if e.k == 'lock']
                if v is None or len(set(fl)) > 1:
                    r.undec.append('%s: %s' % (b.path, t))
                    continue
                if v == 'Ready':
                    r.ok('resolves only when flagged', fl and fl[0], t)
                elif v == 'Pending':
                    r.ok('unresolved only when not flagged', fl and not fl[0], t)
                    ws = [(i, e) for i, e in enumerate(o.events) if e.k in ('write', 'lwrite') and e.args[1].op == 'agg' and e.args[1].a[1] == 'Some' and contains(e.args[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'waker')]
                    reps = [(i, e) for i, e in ecalls(o, 'replace', 'insert', 'clone_from') if len(e.args) == 2 and contains(e.args[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'waker')]
                    same = any(c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) in ('will_wake', 'is_some_and') for c in o.conds)
                    if not r.ok('the waker of this poll is kept', ws or reps or same, 'unresolved without storing the waker: ' + t):
                        continue
                    for i, e in ws:
                        WK = chain_of(strip(e.args[0]))[1]
                    for i, e in (ws + reps)[:1]:
                        rel = [k for k, x in enumerate(o.events) if x.k == 'drop' and x.args and x.args[0].op == 'guard']
                        r.ok('test and store in one critical section', len(locks) == 1 and locks[0] < i and all(k > i for k in rel), 'the flag is tested and the waker stored in different critical sections: ' + t)
        r.ok('a noticer has one owner', not [b for b in r.F.find('clone') if 'Noticer' in b.path and 'Notifier' not in b.path], 'a cloned noticer would lose the waker of its twin')

    def signal(fn):
        """the flags and wakers of one notify; [(outcome, index of the flag write, drain index)]"""
        seen = False
        for o in r.rets(r.fn(fn)):
            t = ' & '.join(showc(c) for c in o.conds)[-300:]
            fw = [(i, e) for i, e in enumerate(o.events) if e.k in ('write', 'lwrite') and isflag(e.args[0]) and contains(e.args[0], lambda z: z.op == 'elem')]
            for i, e in fw:
                r.ok(fn + ': flag raised', is_const(e.args[1]) and bool(e.args[1].a[0]), 'flag is set to %s' % show(e.args[1])[:60])
            el = any(cp.isnext(c) and c[3] and on_list(c[1].a[0]) for c in o.conds)
            wakes = [(i, e) for i, e in ecalls(o, 'wake', 'wake_by_ref')]
            wakes += [(i, e) for i, e in ecalls(o, 'for_each') if len(e.args) == 2 and e.args[1].op == 'fn' and leaf(e.args[1].a[0]) in ('wake', 'wake_by_ref')]
            if el:
                r.ok(fn + ': every subscriber is flagged', fw, 'a subscriber is not flagged [%s]' % t)
                r.ok(fn + ': all of them', loops_through(o), 'the loop over the subscribers can end early [%s]' % t)
            if fw:
                seen = True
                e = fw[0][1]
                src = [z for z in subterms(strip(e.args[0])) if z.op == 'elem'][0]
                part = [z for z in subterms(src) if z.op == 'call' and leaf(z.a[0]) in ('skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while')]
                cutr = [z for z in subterms(src) if z.op == 'call' and leaf(z.a[0]) in ('drain', 'split_off') and len(z.a[1]) == 2 and not is_full(z.a[1][1])]
                r.ok(fn + ': the whole list', not part and not cutr, 'only part of the subscribers is signalled: %s' % show(src)[:200])
                own = [c for c in o.before(fw[0][0]) if not cp.isnext(c) and contains_t(c, src) and not (c[0] == 'is' and not c[3]) and not wakerish(c)]
                r.ok(fn + ': unconditionally', not own, 'a subscriber is flagged only under %s' % list(map(showc, own)))
            tk = [(i, e) for i, e in ecalls(o, 'take', 'replace', 'clone') if e.args and WK and ends(e.args[0], WK)]
            some = [c for c in o.conds if c[0] == 'is' and c[2] in ('Ok', 'Some') and c[3] and c[1].op != 'next' and wakerish(c)]
            nolist = [c for c in o.conds if cp.isnext(c) and not c[3] and not on_list(c[1].a[0])]
            if some and not wakes and not (nolist and not any(cp.isnext(c) and c[3] and not on_list(c[1].a[0]) for c in o.conds)):
                r.ok(fn + ': waiting tasks are woken', False, 'a stored waker is not woken [%s]' % t)
            for i, e in wakes:
                r.ok(fn + ': flag before wake-up', not fw or (fw[0][0] < i), 'a task is woken before its flag is set [%s]' % t)
                r.ok(fn + ': flag is set by the time of the wake-up', fw or not el, 'a task is woken whose flag is not set [%s]' % t)
        if not seen:
            lz = any(ecalls(o, 'for_each', 'map', 'filter_map') for o in r.rets(r.fn(fn)))
            (r.undec.append(fn + ': loop not readable') if lz else r.ok(fn + ': every subscriber is flagged', False, 'no subscriber is ever flagged'))
        if not any(ecalls(o, 'wake', 'wake_by_ref', 'for_each') for o in r.rets(r.fn(fn))):
            r.ok(fn + ': waiting tasks are woken', False, 'no waker is ever woken')

    def on_list(t):
        return contains(t, lambda z: z.op == 'fld' and chain_of(z)[0].op == 'param') and not contains(t, wakers_of)

    def wakers_of(z):
        return z.op == 'taken' or (WK is not None and z.op == 'fld' and ends(z, WK)) or (z.op == 'upd!' and leaf(z.a[1]) in ('push', 'extend')) or (z.op == 'call' and leaf(z.a[0]) == 'filter_map')

    def wakerish(c):
        return any(isinstance(x, T) and contains(x, lambda z: z.op == 'taken' or (WK is not None and z.op == 'fld' and ends(z, WK))) for x in c[1:])

    def contains_t(c, t):
        return any(isinstance(x, T) and contains(strip(x), lambda z: z is t) for x in c[1:])

    def new_flag(z):
        """the flag a noticer is created with"""
        x = fld(z, FL[0])
        if x.op == 'call' and leaf(x.a[0]) in ('new', 'from'):
            x = x.a[1][0]
        for n in FL[1:]:
            x = fld(x, n)
        return x

    def list_pushes(o):
        return [(i, e) for i, e in ecalls(o, 'push', 'push_back', 'insert') if e.args and contains(e.args[0], par(1)) and any(z.op == 'agg' and path_match(z.a[0], 'notifier::Noticer') for a in e.args[1:] for z in subterms(a))]

    def shared(o):
        n = [e for _, e in ecalls(o, 'new', 'default', 'from') if 'Mutex' in e.name or 'RwLock' in e.name]
        r.ok('the subscriber shares its flag', len(n) <= 1, 'the recorded subscriber has its own flag: %d locks are created' % len(n))

    with r.section('signal'):
        signal('notifier::Notifier::notify')
        signal('ShutdownNotifier::notify')
    with r.section('re-arming subscription'):
        for o in r.rets(r.fn('notifier::Notifier::subscribe'), sides=False):
            zs = [z for z in subterms(o.ret) if z.op == 'agg' and path_match(z.a[0], 'notifier::Noticer')]
            if r.ok('returns a noticer', zs, r.otext(o)):
                fl = new_flag(zs[0])
                r.ok('starts unresolved', is_const(fl) and not fl.a[0], 'a new noticer starts with %s' % show(fl)[:100])
            r.ok('recorded', list_pushes(o), 'the subscriber is not recorded: ' + r.otext(o))
            shared(o)
        for o in r.rets(r.fn('notifier::Notifier::notify'), sides=False):
            ds = [e for _, e in ecalls(o, 'drain', 'take', 'clear', 'split_off', 'replace')]
    with r.section('sticky subscription'):
        ST = None
        for o in r.rets(r.fn('ShutdownNotifier::subscribe'), sides=False):
            t = r.otext(o)
            zs = [z for z in subterms(o.ret) if z.op == 'agg' and path_match(z.a[0], 'notifier::Noticer')]
            if not r.ok('returns a noticer', zs, t):
                continue
            st = [(chain_of(strip(c[1])), c[2]) for c in o.conds if c[0] == 'true' and chain_of(strip(c[1]))[0].op == 'param']
            locks = [i for i, e in enumerate(o.events) if e.k == 'lock']
            ps = list_pushes(o)
            if ps:
                shared(o)
            fl = strip(new_flag(zs[0]))
            sticky = None
            if len(st) == 1:
                ST, sticky = st[0][0][1], st[0][1]
            elif not st and chain_of(fl)[0].op == 'param':
                ST = chain_of(fl)[1]
            elif 'load' in t or len(st) > 1:
                r.undec.append('subscribe: ' + t)
                continue
            r.ok('looks at the signal', ST is not None, 'subscribing does not look at the raised signal: ' + t)
            val = bool(fl.a[0]) if is_const(fl) else (sticky if chain_of(fl)[1] == ST and chain_of(fl)[0].op == 'param' else None)
            if sticky is None:
                r.ok('recorded or told', ps and chain_of(fl)[1] == ST, 'a subscriber may be neither recorded nor told: ' + t)
            elif sticky:
                if val is None:
                    r.undec.append('subscribe: ' + t)
                else:
                    r.ok('late subscriber resolves at once', val is True, 'after the signal a subscriber gets an unresolved noticer')
            else:
                r.ok('early subscriber is recorded', ps, 'a subscriber before the signal is not recorded')
                if val is not None:
                    r.ok('early subscriber starts unresolved', val is False, 'a subscriber starts resolved without a signal')
            inner = [i for i in locks if not contains(o.events[i].args[0], lambda z: z.op == 'elem')]
            r.ok('one critical section', len(inner) == 1, 'the signal is looked at and the subscriber recorded in %d critical sections' % len(inner))
            rel = [k for k, x in enumerate(o.events) if x.k == 'drop' and x.args and x.args[0].op == 'guard' and contains(x.args[0], par(1))]
            for i, e in ps:
                r.ok('recorded under the lock', inner and inner[0] < i and all(k > i for k in rel), 'the subscriber is recorded after the lock is released')
        for o in r.rets(r.fn('ShutdownNotifier::notify'), sides=False):
            if ST is None:
                break
            t = ' & '.join(map(showc, o.conds))[-300:]
            already = any(c[0] == 'true' and c[2] and chain_of(strip(c[1]))[1] == ST for c in o.conds)
            w = [(i, e) for i, e in enumerate(o.events) if e.k in ('write', 'lwrite') and chain_of(strip(e.args[0]))[1] == ST and chain_of(strip(e.args[0]))[0].op == 'param']
            if already and not w:
                r.ok('signal latched', True)
                continue
            if not r.ok('signal latched', w and is_const(w[-1][1].args[1]) and bool(w[-1][1].args[1].a[0]), 'the signal is not remembered [%s]' % t):
                continue
            dr = [i for i, e in ecalls(o, 'drain', 'take', 'iter', 'into_iter', 'replace', 'next', 'filter_map', 'split_off') if e.args and contains(e.args[0], lambda z: z.op == 'fld' and chain_of(z)[0].op == 'param' and chain_of(z)[1] != ST and z.a[1] != FL[-1])]
            rel = [k for k, x in enumerate(o.events) if x.k == 'drop' and x.args and x.args[0].op == 'guard' and not contains(x.args[0], lambda z: z.op == 'elem')]
            if dr and rel:
                g = [k for k in rel if k > dr[0]]
                r.ok('latched before anyone can slip in', not g or w[0][0] < g[0], 'the list is taken and the lock released before the signal is latched')
        for o in r.rets(r.fn('ShutdownNotifier::new')):
            st = o.ret
            if ST:
                x = fld(st, ST[0])
                x = x.a[1][0] if x.op == 'call' and leaf(x.a[0]) in ('new', 'from') and x.a[1] else x
                for n in ST[1:]:
                    x = fld(x, n)
                if is_const(x):
                    r.ok('starts unsignalled', not x.a[0], 'a new notifier starts signalled')


KINDS = {'broadcast': ('Empty', 'Closed', 'Lagged'), 'mpsc': ('Empty', 'Disconnected')}
TELLS = {'Empty': 'Empty', 'Closed': 'Disconnected', 'Disconnected': 'Disconnected', 'Lagged': 'Lagged'}


def variants_left(conds, t, vs):
    """the variants of vs the term t can have under conds"""
    left = set(vs)
    for c in conds:
        if c[0] == 'is' and c[1] is t:
            left = left & {c[2]} if c[3] else left - {c[2]}
        elif c[0] == 'isin' and c[1] is t:
            left = {v for v in left if v not in c[2]}
    return left


def chan_impl(r, trait, kind, name):
    """the body of a method of a channel wrapper; for an async method the body of its future"""
    bs = [b for b in r.F.find(name) if (b.d.get('trait') or '').endswith(trait) and ('::%s::' % kind) in b.path]
    if len(bs) != 1:
        raise MissingAnchor('%s::%s for %s' % (trait, name, kind))
    return r.F.bodies.get(bs[0].path + '::{closure#0}', bs[0]) if name in ('recv', 'send') else bs[0]


def results_of(o, *names):
    """[(call term as conditions see it, True for success, False for failure)] of the calls on o, in order"""
    out, seen = [], set()
    for c in o.conds:
        if c[0] == 'is' and c[2] in ('Ok', 'Some') and c[1].op == 'call' and leaf(c[1].a[0]) in names:
            out.append((c[1], c[3]))
    return out


def errpart(t):
    """the failure a call ended with"""
    return lambda z: z.op == 'fld' and z.a[0].op == 'as' and z.a[0].a[1] == 'Err' and z.a[0].a[0] is t


@check('C12', ['tn_types'])
def c12(r):
    def conversion(b, src, want, inst):
        """an outcome of b with the source variant known returns the wanted variant, with the value that was in the source"""
        for o in r.rets(b, sides=False):
            left = variants_left(o.conds, src(o), want)
            got = o.ret.a[1] if o.ret.op == 'agg' else None
            if got is None:
                r.undec.append('%s: %s' % (inst, r.otext(o)))
                continue
            bad = [v for v in left if want[v] != got]
            r.ok(inst, not bad, '%s becomes %s' % ('/'.join(bad), got))
            for _, x in o.ret.a[2]:
                r.ok(inst + ': value handed back', root_of(x).op == 'param', 'the value handed back is %s' % show(x)[:80])

    def root_of(t):
        while t.op in ('fld', 'as') or t.op == 'call' and leaf(t.a[0]) == 'into_inner' and t.a[1]:
            t = t.a[0] if t.op != 'call' else t.a[1][0]
        return t

    def in_place(kind, name, o):
        jump = ecalls(o, 'resubscribe', 'close', 'subscribe', 'downgrade')
        r.ok(kind + ' ' + name + ': keeps its place in the stream', not jump, 'the receiver is moved or closed: %s' % [e for _, e in jump[:1]])

    def froms(ty, src):
        return [b for b in r.F.find('from') if ('sync::%s as' % ty) in b.path and src in ' '.join(str(l) for l in b.d.get('locals', []))]

    with r.section('conversions'):
        for b in r.F.find('from'):
            if not re.search(r'sync::(TryRecvError|TrySendError|SendError) as', b.path):
                continue
            kinds = set()
            for o in r.rets(b, sides=False):
                kinds |= {c[2] for c in o.conds if c[0] == 'is' and c[1].op == 'param'}
                kinds |= {v for c in o.conds if c[0] == 'isin' and c[1].op == 'param' for v in c[2]}
            src = lambda o: next((c[1] for c in o.conds if c[0] in ('is', 'isin') and c[1].op == 'param'), None)
            if 'TryRecvError' in b.path:
                k = 'broadcast' if kinds & {'Lagged', 'Closed'} else 'mpsc'
                if not kinds:
                    outs_ = {o.ret.a[1] for o in r.rets(b, sides=False) if o.ret.op == 'agg'}
                    r.ok('receive failures are told apart', not outs_, 'every receive failure becomes %s' % '/'.join(map(str, outs_)))
                    continue
                conversion(b, src, {v: TELLS[v] for v in KINDS[k]}, 'receive failures')
            elif 'TrySendError' in b.path and kinds:
                conversion(b, src, {'Full': 'Full', 'Closed': 'Closed'}, 'send failures')
            else:
                for o in r.rets(b, sides=False):
                    for _, x in (o.ret.a[2] if o.ret.op == 'agg' else ()):
                        r.ok('value handed back', root_of(x).op == 'param', 'the value handed back is %s' % show(x)[:80])
                    if 'TrySendError' in b.path and o.ret.op == 'agg' and 'mpsc' in str(b.d.get('sig', '')):
                        r.ok('send failures', False, 'full and closed are not told apart')
    with r.section('broadcast send'):
        for name in ('send', 'try_send'):
            b = chan_impl(r, 'TnSender', 'broadcast', name)
            for o in r.rets(b, sides=False):
                v = o.ret.a[1] if o.ret.op == 'agg' else None
                if v is None:
                    r.ok(name + ': never fails', not (o.ret.op == 'call' and leaf(o.ret.a[0]) in ('send', 'map_err', 'map')), 'the result of the channel is passed on: ' + r.otext(o))
                    continue
                r.ok(name + ': never fails', v == 'Ok', 'sending without listeners is an error: ' + r.otext(o))
                sub = lambda n: lambda t: const(n, 'u64') if t.op == 'call' and leaf(t.a[0]) in ('receiver_count', 'strong_count') else None
                idle = any('receiver_count' in showc(c) for c in o.conds) and not any(all(truth(c, sub(n)) is not False for c in o.conds) for n in (1, 2, 3, 1000))
                r.ok(name + ': delivers', ecalls(o, 'send') or idle, 'success without sending: ' + r.otext(o))
    with r.section('queue send'):
        for name in ('send', 'try_send'):
            b = chan_impl(r, 'TnSender', 'mpsc', name)
            for o in r.rets(b, sides=False):
                t = r.otext(o)
                cs = ecalls(o, 'send', 'try_send', 'reserve', 'try_reserve', 'send_timeout', 'blocking_send')
                r.ok(name + ': sends', cs, 'returns without sending: ' + t)
                if name == 'try_send':
                    r.ok(name + ': does not wait', not ecalls(o, 'send', 'blocking_send', 'reserve', 'block_on'), t)
                rs = results_of(o, 'send', 'try_send', 'reserve', 'try_reserve')
                v = o.ret.a[1] if o.ret.op == 'agg' else None
                if v == 'Ok':
                    r.ok(name + ': success only when queued', not rs or rs[-1][1], 'a failed send is reported as a success: ' + t)
                    r.ok(name + ': failure is looked at', rs or contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) in ('send', 'try_send')), 'the result of the send is ignored: ' + t)
                elif v == 'Err':
                    c = rs[-1][0] if rs else None
                    x = fld(o.ret, '0')
                    if c is None or rs[-1][1]:
                        r.ok(name + ': failure only when not queued', False, 'a send that was queued (or never tried) is reported as failed: ' + t)
                        continue
                    e = errpart(c)
                    if x.op == 'agg' and x.a[1] in ('Full', 'Closed', 'Broadcast'):
                        es = [z for z in subterms(x) if e(z)]
                        srcs = [d[1] for d in o.conds if d[0] in ('is', 'isin') and isinstance(d[1], T) and e(d[1])]
                        left = variants_left(o.conds, srcs[0], ('Full', 'Closed')) if srcs else {'Full', 'Closed'}
                        r.ok(name + ': says why', left == {x.a[1]}, '%s is reported as %s' % ('/'.join(sorted(left)), x.a[1]))
                        r.ok(name + ': value handed back', es, 'the value is not handed back: ' + t)
                    else:
                        r.ok(name + ': value handed back', contains(x, e) or contains(x, lambda z: z is c), 'the failure is not the one of the channel: ' + t)
                elif not contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) in ('send', 'try_send')):
                    r.undec.append('%s: %s' % (name, t))
    with r.section('receive'):
        b = chan_impl(r, 'TnReceiver', 'broadcast', 'recv')
        some = none = False
        g = r.graph(b, sides=False)
        jump = g.calls('resubscribe|subscribe|downgrade')
        r.ok('broadcast recv: keeps its place in the stream', not jump, 'the receiver is moved: %s' % [x[2] for x in jump[:1]])
        rc = lambda e: e.k == 'call' and leaf(e.name) in ('recv', 'try_recv', 'recv_many')
        failed = lambda c: c[0] == 'is' and isinstance(c[1], T) and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) in ('recv', 'try_recv')) and (
            c[2] in ('Ok', 'Some') and not c[3] or c[2] not in ('Ok', 'Some') and c[3]) or c[0] == 'isin' and contains(c[1], lambda z: z.op == 'as' and z.a[1] == 'Err')
        for n, i, e in g.events(rc):
            again = g.find_path(rc, avoid_edge=failed, src=(n, i))
            r.ok('every value received is handed on', again is None, 'a value is received and another receive follows')
        for o in r.rets(b, sides=False):
            t = r.otext(o)
            rs = results_of(o, 'recv', 'try_recv')
            v = o.ret.a[1] if o.ret.op == 'agg' else None
            if v == 'Some':
                some = True
                r.ok('a received value', rs and rs[-1][1] and contains(o.ret, lambda z: z is rs[-1][0]) or not rs and contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'recv'), t)
            elif v == 'None':
                none = True
                if not rs or rs[-1][1]:
                    r.ok('the stream ends only on close', False, 'the stream ends without a failed receive: ' + t)
                    continue
                srcs = [d[1] for d in o.conds if d[0] in ('is', 'isin') and isinstance(d[1], T) and errpart(rs[-1][0])(d[1])]
                left = variants_left(o.conds, srcs[-1], ('Closed', 'Lagged')) if srcs else {'Closed', 'Lagged'}
                r.ok('the stream ends only on close', 'Lagged' not in left, 'a receiver that fell behind is told the stream ended: ' + t)
            elif o.ret.op == 'call' and leaf(o.ret.a[0]) in ('ok', 'and_then', 'unwrap_or_default') and contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'recv'):
                r.ok('the stream ends only on close', leaf(o.ret.a[0]) != 'ok', 'every failure ends the stream: ' + t)
            else:
                r.undec.append('recv: ' + t)
        if some and not none:
            r.ok('the stream ends on close', False, 'a closed channel never ends the stream')
        for o in r.outs(b, sides=False):
            if o.exit in ('panic', 'abort'):
                rs = results_of(o, 'recv')
                r.ok('no panic on a failed receive', not rs, r.otext(o))
        b = chan_impl(r, 'TnReceiver', 'mpsc', 'recv')
        for o in r.rets(b, sides=False):
            t = r.otext(o)
            in_place('mpsc', 'recv', o)
            rs = results_of(o, 'recv')
            v = o.ret.a[1] if o.ret.op == 'agg' else None
            if v == 'None':
                r.ok('queue ends only on close', rs and not rs[-1][1], t)
            elif v == 'Some':
                r.ok('queue value', contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'recv'), t)
            else:
                r.ok('queue value', o.ret.op == 'call' and leaf(o.ret.a[0]) == 'recv', t) if o.ret.op == 'call' and leaf(o.ret.a[0]) in ('recv', 'try_recv', 'ok') else r.undec.append('mpsc recv: ' + t)
        for o in r.rets(chan_impl(r, 'TnReceiver', 'mpsc', 'poll_recv'), sides=False):
            t = r.otext(o)
            in_place('mpsc', 'poll_recv', o)
            if not r.ok('poll asks the channel', ecalls(o, 'poll_recv', 'poll_recv_many', 'try_recv', 'poll'), t):
                continue
            if o.ret.op == 'agg' and o.ret.a[1] == 'Ready' and fld(o.ret, '0').op == 'agg' and fld(o.ret, '0').a[1] == 'None':
                ended = [c for c in o.conds if c[0] == 'is' and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'poll_recv') and (c[2] in ('Ok', 'Some') and not c[3] or c[2] == 'None' and c[3])]
                waits = [c for c in o.conds if c[0] == 'is' and c[1].op == 'call' and leaf(c[1].a[0]) == 'poll_recv' and (c[2] == 'Pending' and c[3] or c[2] == 'Ready' and not c[3])]
                r.ok('poll ends only on close', ended or not waits, 'the stream ends while the channel is open: ' + t)
    with r.section('non-blocking receive'):
        for kind in ('broadcast', 'mpsc'):
            b = chan_impl(r, 'TnReceiver', kind, 'try_recv')
            told = set()
            for o in r.rets(b, sides=False):
                t = r.otext(o)
                v = o.ret.a[1] if o.ret.op == 'agg' else None
                rs = results_of(o, 'try_recv')
                in_place(kind, 'try_recv', o)
                r.ok(kind + ': one receive', len(ecalls(o, 'try_recv', 'recv', 'blocking_recv')) == 1, 'a result is replaced by that of another receive: ' + t)
                bad = [c for c, ok in rs if not ok]
                srcs = [d[1] for d in o.conds if bad and d[0] in ('is', 'isin') and isinstance(d[1], T) and errpart(bad[0])(d[1])]
                if v == 'Err' or v is None:
                    told |= variants_left(o.conds, srcs[0], KINDS[kind]) if srcs else set(KINDS[kind])
                if v is None:
                    if not contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) in ('map_err', 'from', 'try_recv')):
                        r.undec.append('try_recv: ' + t)
                    continue
                if v == 'Ok':
                    r.ok(kind + ': value of the channel', not bad, 'a failed receive is not reported: ' + t)
                    r.ok(kind + ': value received', contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'try_recv'), t)
                    continue
                x = fld(o.ret, '0')
                if not bad:
                    r.ok(kind + ': failure of the channel', False, 'a failure is reported without a failed receive: ' + t)
                    continue
                if x.op == 'agg':
                    left = variants_left(o.conds, srcs[0], KINDS[kind]) if srcs else set(KINDS[kind])
                    wrong = [z for z in left if TELLS[z] != x.a[1]]
                    r.ok(kind + ': says why', not wrong, '%s is reported as %s' % ('/'.join(sorted(wrong)), x.a[1]))
                else:
                    r.ok(kind + ': failure of the channel', contains(x, errpart(bad[0])), 'the failure is not the one of the channel: ' + t)
            for k in KINDS[kind]:
                r.ok(kind + ': every failure is reported', k in told, '%s is never reported' % k)


def is_static(t):
    return t.op == 'c' and isinstance(t.a[0], str) and t.a[0].startswith('{alloc')


def used_set(t):
    """a lock-protected collection in a static"""
    return is_static(t) and 'Mutex' in t.a[0] and ('Vec<' in t.a[0] or 'Set<' in t.a[0] or 'Map<' in t.a[0])


def claims(o, p):
    """None when p is recorded as taken on o under the same lock as the test that it was free, otherwise what is wrong"""
    same = lambda x: strip(x) is strip(p) or cp.canon(strip(x)) is cp.canon(strip(p))
    ps = [(i, e) for i, e in ecalls(o, 'push', 'push_back', 'insert', 'replace') if len(e.args) >= 2 and contains(e.args[0], used_set) and same(e.args[1])]
    if not ps:
        return 'is not recorded as taken'
    i, e = ps[-1]
    lk = [k for k, x in enumerate(o.events) if x.k == 'lock' and contains(x.args[0], used_set) and k < i]
    if not lk:
        return 'is recorded without the lock'
    if any(x.k == 'drop' and x.args and x.args[0].op == 'guard' and contains(x.args[0], used_set) for x in o.events[lk[-1]:i]):
        return 'is recorded after the lock is released'
    if leaf(e.name) == 'insert' and 'Set' in e.name:
        if any(c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'insert' and c[2] for c in o.conds) or contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'insert'):
            return None
        tests = []
    tests = [(k, x) for k, x in enumerate(o.events) if x.k == 'call' and lk[-1] < k < i and leaf(x.name) in ('contains', 'any', 'contains_key', 'binary_search', 'position', 'find', 'all', 'get')
             and x.args and contains(x.args[0], used_set)]
    if not tests:
        if any(cp.isnext(c) and contains(c[1], used_set) for c in o.conds):
            return None
        return 'is recorded without testing, under the same lock, that it is free'
    n = leaf(tests[-1][1].name)
    cs = [c for c in o.conds if c[0] in ('true', 'is') and isinstance(c[1], T) and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == n and contains(z, used_set))]
    pol = cs[-1][-1] if cs else None
    if cs and pol is not (n == 'all'):
        return 'is recorded although it is taken'
    return None


def free_of_claim(r, f, arg):
    """what is wrong with the claims of the closure f(arg) wherever it accepts; [] when every acceptance claims arg"""
    out = []
    for o in cp.runs(r.ctx(), f, [arg]):
        v = o.ret
        if v.op == 'c' and not v.a[0] or v.op != 'c' and negc(cond(v)) in o.conds:
            continue
        out.append(claims(o, arg))
    return [x for x in out if x]


@check('C13', ['tn_types'])
def c13(r):
    entry = r.fn('helpers::get_available_port')
    windows = {}          # port term -> slot term
    sysport = lambda t: contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) in ('port', 'local_addr'))
    is_slot = lambda t: t.op in ('fld', 'as') and root_call(t) is not None and (leaf(root_call(t).a[0]) in ('get_or_init', 'nextest_global_slot') or contains(root_call(t), lambda z: z.op == 'c' and z.a[0] == 'NEXTEST_TEST_GLOBAL_SLOT') and leaf(root_call(t).a[0]) in ('from_str', 'parse', 'filter'))

    def root_call(t):
        while t.op in ('fld', 'as'):
            t = t.a[0]
        return t if t.op == 'call' else None

    def candidate(p, o, f=None):
        """p, handed to a caller, is claimed"""
        if sysport(p):
            return
        windows[p] = o

    def port(p, o, where):
        """obligations for the port term p returned on outcome o"""
        c = root_call(p)
        n = leaf(c.a[0]) if c is not None else None
        if n in ('find', 'find_map') and len(c.a[1]) == 2:
            for e in r.emits(c.a[1][0]):
                if n == 'find':
                    bad = free_of_claim(r, c.a[1][1], e.val)
                    r.ok('every port handed out is claimed', not bad, 'a port of %s %s' % (where, bad and bad[0]))
                    candidate(e.val, o)
                    continue
                for q in cp.runs(r.ctx(), c.a[1][1], [e.val]):
                    value_of(q.ret, q, where)
        elif n == 'filter' and len(c.a[1]) == 2:
            value_of(c, o, where)
        else:
            bad = claims(o, p)
            if bad and n is not None and n not in ('port', 'next') and not sysport(p) and not contains(p, is_slot):
                r.undec.append('%s: %s' % (where, show(p)[:200]))
                return
            r.ok('every port handed out is claimed', not bad, 'a port of %s %s' % (where, bad))
            candidate(p, o)

    def value_of(v, q, where):
        """v: an Option with the port"""
        if v.op == 'agg' and v.a[1] in ('None', 'Err'):
            return
        if v.op == 'agg' and v.a[1] in ('Some', 'Ok'):
            port(v.a[2][0][1], q, where)
        elif v.op == 'call' and leaf(v.a[0]) == 'filter' and len(v.a[1]) == 2:
            x = fld(dcast(v.a[1][0], 'Some'), '0') if v.a[1][0].op != 'agg' else (v.a[1][0].a[2][0][1] if v.a[1][0].a[2] else None)
            if x is None:
                return
            bad = free_of_claim(r, v.a[1][1], x)
            r.ok('every port handed out is claimed', not bad, 'a port of %s %s' % (where, bad and bad[0]))
            candidate(x, q)
        elif v.op == 'call' and leaf(v.a[0]) in ('then_some', 'then'):
            r.undec.append('%s: %s' % (where, show(v)[:200]))
        elif v.op == 'call' and leaf(v.a[0]) in ('ok', 'map', 'and_then'):
            r.ok('every port handed out is claimed', not sysport(v) or contains(v, used_set), 'a port of %s is handed out unclaimed: %s' % (where, show(v)[:200]))
        else:
            r.undec.append('%s: %s' % (where, show(v)[:200]))

    with r.section('claims'):
        done = set()
        for o in r.rets(entry, sides=False):
            if o.ret.op != 'agg':
                r.undec.append('get_available_port: ' + r.otext(o)[:300])
                continue
            if o.ret.a[1] == 'Ok':
                p = fld(o.ret, '0')
                if p.id in done and root_call(p) is not None and leaf(root_call(p).a[0]) in ('find', 'find_map', 'filter'):
                    continue
                done.add(p.id)
                port(p, o, 'the system' if sysport(p) or 'find_map' in show(p)[:30] else 'the window')
            else:
                tried = any(c[0] == 'is' and isinstance(c[1], T) and c[1].op in ('call', 'next') and (leaf(c[1].a[0]) == 'find_map' if c[1].op == 'call' else True) and not c[3] and not (c[1].op == 'call' and contains(c[1], is_slot)) for c in o.conds) or any(
                    e.k == 'call' and leaf(e.name) in ('local_addr', 'find_map') for e in o.events)
                tried = tried or any(c[0] == 'cmp' and any(contains(x, lambda z: z.op == 'fld' and z.a[1] == 'max_retries') for x in c[2:]) for c in o.conds)
                r.ok('falls back to a system port', tried, 'fails without trying a system-assigned port: ' + r.otext(o)[-400:])
        bad = [b.path for b in r.bodies('tn_types') if 'helpers' in b.path and 'test' not in b.path 
               if b.kind in ('Fn', 'AssocFn', 'Closure') and r.graph(b, sides=False).events(lambda e: e.k == 'call' and leaf(e.name) in ('remove', 'clear', 'retain', 'pop', 'drain', 'truncate', 'swap_remove', 'take') and e.args and contains(e.args[0], used_set))]
        r.ok('a port stays taken', not bad, 'ports are released in %s' % bad)
    with r.section('windows'):
        r.ok('slots have windows', windows, 'no port depends on the slot')
        slots = {z for p in windows for z in subterms(p) if is_slot(z)}
        acc = accepted(r, slots)
        if acc is None:
            r.undec.append('which slots are accepted is not readable')
        for p in windows:
            got = {}
            for s in (acc if acc is not None else range(64)):
                env = lambda t: (s, s) if is_slot(t) else None
                v = interval(p, env, (0, 65535))
                if v == (0, 65535):
                    r.undec.append('window not readable: ' + show(p)[:200])
                    got = {}
                    break
                got[s] = v
            ws = sorted((v, s) for s, v in got.items())
            clash = next(((a, b) for a, b in zip(ws, ws[1:]) if a[0][1] >= b[0][0]), None)
            r.ok('windows are disjoint', clash is None, clash and 'slots %d and %d share ports %s and %s' % (clash[0][1], clash[1][1], clash[0][0], clash[1][0]))
            out = [(s, v) for s, v in got.items() if not (16384 <= v[0] and v[1] < 32768)]
            r.ok('windows inside the reserved band', not out, out and 'slot %d gets ports %d..=%d, outside 16384..32768' % (out[0][0], *out[0][1]))


def accepted(r, slots):
    """the slot numbers for which ports come from a window"""
    defs = []
    for b in r.F.find('nextest_global_slot'):
        defs += r.rets(b, sides=False)
    fs = [z for o in defs for z in subterms(o.ret) if z.op == 'call' and leaf(z.a[0]) == 'get_or_init']
    runs = [q for z in fs[:1] for q in cp.runs(r.ctx(), z.a[1][1], [])] if fs else defs
    if not runs:
        return None
    isnum = lambda t: t.op in ('fld', 'as') and contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) in ('from_str', 'parse'))

    def accepts(s):
        sub = lambda t: const(s) if isnum(t) and t.op == 'fld' or t.op == 'param' else None
        for o in runs:
            v = o.ret
            if v.op == 'agg' and v.a[1] in ('None', 'Err'):
                continue
            cs = [c for c in o.conds if not (c[0] == 'is')]
            if not possible(cs, sub):
                continue
            if v.op == 'call' and leaf(v.a[0]) == 'filter' and len(v.a[1]) == 2:
                x = v.a[1][0].a[2][0][1] if v.a[1][0].op == 'agg' and v.a[1][0].a[2] else v.a[1][0]
                for cs, ret in preds(v.a[1][1], x):
                    if possible(cs, sub) and value(ret, sub) is not False:
                        return True
                continue
            return True
        return False
    memo = {}

    def preds(f, x):
        k = (f.id, x.id)
        if k not in memo:
            memo[k] = cp.apply(r.ctx(), f, [x])
        return memo[k]
    return [s for s in list(range(0, 300)) + [511, 512, 1023, 1024, 4096, 32768, 65535] if accepts(s)]
