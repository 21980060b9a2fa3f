"""C42: votes for other validators' headers."""
import re
from engine.rules import *
from engine.lib import *
from checks.certs import lastf, root_of, quorum_bound, might_ok
from checks.headers import FIELDS

HN = 'tn_primary::network::handler::RequestHandler::'
VOTES = 'tables::Votes'
OPV = ('Header::validate', 'check_for_missing_parents', 'try_accept_unknown_certs', 'notify_read_parent_certificates', 'sync_header_batches',
       'wait_for_execution', 'read_vote_info', 'write_vote', 'persist', 'Vote::new', 'EpochSeedMessage::verify', 'EpochSeedMessage::new',
       'into_error_ref', 'vote_inner', 'to_identifier', 'quorum_threshold')


def hfield(t):
    """the field of the requested header a term is"""
    t = strip(t)
    p = []
    while t.op == 'fld':
        p.append(t.a[1])
        t = t.a[0]
    if t.op in ('param', 'env', 'cap') or t.op == 'call':
        pass
    s = show(strip(t))
    p = list(reversed(p))
    if p and p[0] == 'header':
        p = p[1:]
    elif s not in ('header',):
        return None
    return p[-1] if p else ''


def order(c, t):
    """the orders of (x, y) a comparison allows, given t(x) true for one side; returns (set of '<=>' chars for that side first, other side)"""
    if c is None or c[0] != 'cmp':
        return None
    op, a, b = c[1], c[2], c[3]
    s = {'lt': '<', 'le': '<=', 'eq': '=', 'ne': '<>', 'gt': '>', 'ge': '>='}[op]
    if t(a):
        return set(s), b
    if t(b):
        return set(s.translate(str.maketrans('<>', '><'))), a
    return None


def votecond(c, f):
    """the orders (header field, recorded field) an edge allows"""
    o = order(c, lambda t: hfield(t) == f and show(t).startswith('{env}.header'))
    if o is None:
        return None
    k = recorded(o[1])
    return o[0] if k == f else None


def recorded(t):
    t = strip(t)
    f = t.a[1] if t.op == 'fld' else None
    while t.op in ('fld', 'as'):
        t = t.a[0]
    return f if t.op == 'call' and leaf(t.a[0]) == 'read_vote_info' else None


def allsub(t, name):
    return [x for x in subterms(t) if x.op == 'call' and leaf(x.a[0]) == name]


def okedge(name, *args):
    """an edge on which the call succeeded"""
    def m(c):
        if c is None or c[0] != 'is' or c[2] not in ('Ok', 'Some') or not c[3]:
            return False
        t = strip(c[1])
        if t.op != 'call' or leaf(t.a[0]) != name:
            return False
        return all(t.a[1][i] is not None and f(t.a[1][i]) for i, f in args)
    return m


def isheader(t):
    return hfield(t) == '' and show(strip(t)).startswith('{env}.header')


def of_vote(t):
    """the header a vote term is for"""
    t = strip(t)
    return t.a[1][0] if t.op == 'call' and t.a[0].endswith('Vote::new') else None


def has_table(e, tab):
    return any(isinstance(x, list) and any(str(y).endswith(tab) for y in x) for x in (e.info or ()))


def persist_event(e):
    return e.k == 'call' and leaf(e.name or '') == 'persist' and has_table(e, VOTES)


def barrier(g):
    """the edges on which forcing the votes to storage succeeded"""
    nodes = [n for n, i, e in g.events(persist_event)]
    return okedge('persist'), nodes


def vote_exits(g):
    out = []
    for n, t in g.exits():
        v = [x for x in subterms(t) if x.op == 'agg' and x.a[1] == 'Vote' and x.a[0].endswith('PrimaryResponse')]
        if v:
            out.append((n, t, v[0]))
    return out


@check('C42', ['tn_types', 'tn_primary', 'tn_storage', 'state_sync', 'tn_config'], note='All paths of the two functions that answer vote requests are read from the request to the vote.')
def c42(r):
    with r.section('vote_inner'):
        g = r.graph(r.fn(HN + 'vote_inner::{closure#0}'), sides=False, opaque=OPV)
        inner(r, g)
    with r.section('vote'):
        outer(r, r.graph(r.fn(HN + 'vote::{closure#0}'), sides=False, opaque=OPV))
    with r.section('records'):
        records(r)
    with r.section('census'):
        who(r)


def alts(g, t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and g.phis.get(x):
            todo += list(g.phis[x])
        else:
            out.append(x)
    return out


def common(r, g, nm):
    """what holds for every vote returned: it is for the requested header and was forced to storage"""
    xs = vote_exits(g)
    ed, nodes = barrier(g)
    wrong = [e for n, i, e in g.events(lambda e: e.k == 'call' and leaf(e.name or '') == 'persist') if not has_table(e, VOTES)]
    r.ok('%s: barrier is for votes' % nm, not wrong, 'the barrier forces another table than the votes to storage: %s' % [e.info for e in wrong][:2])
    for n, t, v in xs:
        for x in alts(g, v.a[2][0][1]):
            d = of_vote(x)
            if d is None:
                r.undec.append('%s: vote %s' % (nm, show(x)[:200]))
            else:
                r.ok('%s: vote for this header' % nm, isheader(d), 'the vote returned is for %s' % show(d)[:200])
    tn = {id(n) for n, _, _ in xs}
    if xs:
        r.before(g, None, edge=ed, dst_node=lambda n: id(n) in tn, inst='%s: durable before sent' % nm,
                 msg='a vote is returned without its record having been forced to storage')
    return xs, tn


def inner(r, g):
    xs, tn = common(r, g, 'vote_inner')
    r.ok('votes', bool(xs), 'vote_inner never returns a vote')
    W = lambda e: e.k == 'call' and leaf(e.name or '') == 'write_vote'
    ws = g.events(W)
    r.ok('recorded', bool(ws), 'vote_inner records no vote')
    for n, i, e in ws:
        d = of_vote(e.args[1])
        if d is None:
            r.undec.append('vote recorded %s' % show(e.args[1])[:200])
        else:
            r.ok('record is for this header', isheader(d), 'the record written is of a vote for %s' % show(d)[:200])
    isx = lambda n: id(n) in tn
    # a vote is either recorded in this call, or repeats the recorded one
    same = lambda c: bool(same_digest(c))
    wok = okedge('write_vote')
    r.before(g, None, edge=lambda c: same(c) or wok(c), dst_node=isx, inst='recorded or repeated',
             msg='a vote is returned that was neither recorded nor is the one on record')
    # the record is forced to storage after it is written
    wn = {id(n) for n, i, e in ws}
    ed, nodes = barrier(g)
    for n, i, e in ws:
        p = g.find_path(None, dst_node=isx, avoid_edge=ed, src=(n, i))
        r.ok('forced after writing', p is None, 'the vote is returned after recording it without forcing the record to storage [path: %s]' % (r.pathtext(p[0]) if p else ''))
    # what must be known about the record before another vote is recorded or cast
    none = lambda c: none_recorded(c)
    def guard(need, inst, msg, dst=W, **kw):
        if dst is not None:
            r.before(g, dst, edge=need, inst=inst, msg=msg)
        else:
            r.before(g, None, edge=need, dst_node=isx, inst=inst, msg=msg)
    for dst, nm in ((W, 'recording'), (None, 'voting')):
        guard(okedge('read_vote_info', (1, lambda t: hfield(t) == 'author')), '%s: looked up' % nm, 'the vote on record for the author is not looked up (or the lookup failed) first', dst)
        guard(lambda c: none(c) or le(c, 'epoch', '<'), '%s: not an earlier epoch' % nm, 'a header of an epoch before the one voted on gets a vote', dst)
        guard(lambda c: none(c) or le(c, 'epoch', '=') or le(c, 'round', '<'), '%s: not an earlier round' % nm, 'a header of a round before the one voted on gets a vote', dst)
        guard(lambda c: none(c) or le(c, 'epoch', '=') or le(c, 'round', '=') or le(c, 'round', '<=') or same(c), '%s: not another header' % nm,
              'a second header of the author and round voted on gets a vote', dst)
    # what must be known about the header
    for dst, nm in ((W, 'recording'), (None, 'voting')):
        guard(okedge('validate', (0, isheader), (1, lambda t: lastf(t) == 'committee')), '%s: header validated' % nm,
              'the header is not validated against the committee', dst)
        guard(lambda c: not_zero(c), '%s: not round zero' % nm, 'a header of round zero gets a vote', dst)
        guard(lambda c: seed_ok(c) or legacy(c), '%s: seed signature' % nm, 'the seed signature is not verified', dst)
        guard(okedge('wait_for_execution', (1, lambda t: hfield(t) == 'latest_execution_block')), '%s: executed' % nm, 'the execution result the header names is not confirmed', dst)
        guard(okedge('notify_read_parent_certificates', (1, isheader)), '%s: parents' % nm, 'the parents are not confirmed', dst)
        guard(okedge('sync_header_batches', (1, isheader)), '%s: batches' % nm, 'the payload is not confirmed to be available', dst)
    for n, i, e in g.events(lambda e: e.k == 'call' and leaf(e.name or '') == 'sync_header_batches'):
        r.ok('batches of the whole header', show(strip(e.args[2])) == 'false' and show(strip(e.args[3])) == '0', 'the batches are synchronised with %s' % [show(strip(a)) for a in e.args[2:]])
    # each parent
    par = lambda t: bool(allsub(t, 'notify_read_parent_certificates'))
    NX = lambda c, pol: c is not None and c[0] == 'is' and c[3] == pol and show(c[1]).startswith('next(') and par(c[1])
    starts = [m for n in g.nodes.values() for m, c in n.succ if NX(c, True)]
    r.ok('parents examined', bool(starts), 'the parents are not examined one by one')
    for m in starts:
        src = (g.nodes[m], -1)
        for need, inst, msg in ((lambda c: pcmp(c, 'epoch', 'epoch', 0), 'epoch', 'a parent of another epoch is accepted'),
                                (lambda c: pcmp(c, 'round', 'round', 1), 'round', 'a parent of a round other than the previous one is accepted'),
                                (lambda c: fresh(c), 'author once', 'two parents of one author are accepted'),
                                (lambda c: older(c), 'older', 'a parent created after the header is accepted')):
            for dn, what in ((isx, 'vote'),):
                p = g.find_path(None, dst_node=dn, avoid_edge=need, src=src)
                r.ok('parent %s' % inst, p is None, '%s [path: %s]' % (msg, r.pathtext(p[0]) if p else ''))
    for n in g.nodes.values():
        for m, c in n.succ:
            if c is not None and NX(c, True):
                part = [leaf(x.a[0]) for x in subterms(c[1]) if x.op == 'call' and leaf(x.a[0]) in ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map')]
                r.ok('every parent', not part, 'only some of the parents (%s) are examined' % part)
    # quorum of the parents
    guard(lambda c: quorum(r, c), 'quorum of parents', 'the power of the parents need not reach a quorum', None)
    guard(lambda c: quorum(r, c), 'recording: quorum of parents', 'the power of the parents need not reach a quorum', W)
    stake(r, g)


def none_recorded(c):
    if c is None or c[0] != 'is':
        return False
    t = strip(c[1])
    if c[3] or c[2] not in ('Ok', 'Some'):
        return False
    # `read_vote_info(..)?Ok.0 is not Some`
    if t.op == 'fld' and t.a[0].op == 'as':
        t = t.a[0].a[0]
        return t.op == 'call' and leaf(t.a[0]) == 'read_vote_info'
    return False


def le(c, f, bad):
    """an edge that excludes the orders `bad` between the header's field and the recorded one"""
    o = votecond(c, f)
    return o is not None and not (o & set(bad))


def same_digest(c):
    """an edge on which the vote on record is for this very header"""
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return False
    a, b = strip(c[2]), strip(c[3])
    for x, y in ((a, b), (b, a)):
        if recorded(x) == 'vote_digest' or any(recorded(z) == 'vote_digest' for z in subterms(x)):
            for z in subterms(y):
                if hfield(z) is not None and show(z).startswith('{env}.header') and (hfield(z) == 'digest' or '.digest' in show(z)):
                    return True
                if of_vote(z) is not None and isheader(of_vote(z)):
                    return 'header_digest' in show(y)
    return False


def not_zero(c):
    if c is None or c[0] != 'cmp':
        return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        if hfield(x) == 'round' and show(strip(y)) in ('0', '1'):
            z = show(strip(y))
            o = order(c, lambda t: t is x)
            if z == '0' and '=' not in o[0]:
                return True
            if z == '1' and o[0] <= set('>='):
                return True
    return False


def seed_ok(c):
    if c is None or c[0] != 'true' or not c[2]:
        return False
    t = strip(c[1])
    if t.op != 'call' or leaf(t.a[0]) != 'verify' or 'EpochSeed' not in t.a[0]:
        return False
    m, sig, key = t.a[1][0], t.a[1][1], t.a[1][2]
    m = strip(m)
    if m.op != 'call' or leaf(m.a[0]) != 'new':
        return False
    ok = lastf(m.a[1][0]) == 'epoch' and 'committee' in show(m.a[1][0]) and hfield(m.a[1][1]) == 'round' and 'prior_epoch_record' in show(m.a[1][2])
    return ok and hfield(sig) == 'seed_signature' and lastf(key) == 'protocol_key' and 'header.inner.author' in show(key)


def legacy(c):
    """an edge on which the header's epoch has no seed signatures yet"""
    if c is None:
        return False
    s = showc(c)
    return ('seed_signature' in s and 'verify' not in s and (s.startswith('not ') or s.startswith('!'))) or 'FORK' in s


def parent(t):
    t = strip(t)
    p = []
    while t.op == 'fld':
        p.append(t.a[1])
        t = t.a[0]
    return p[0] if p and t.op == 'elem' and allsub(t, 'notify_read_parent_certificates') else None


def pcmp(c, f, h, plus):
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        x, y = strip(x), strip(y)
        if plus == 0 and parent(x) == f and hfield(y) == h:
            return True
        if plus == 1:
            if hfield(y) == h and plus_one(x) is not None and parent(plus_one(x)) == f:
                return True
            if parent(y) == f and minus_one(x) is not None and hfield(minus_one(x)) == h:
                return True
    return False


def plus_one(t):
    if t.op == 'bin' and t.a[0] == 'Add':
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if show(b) == '1':
                return a
    if t.op == 'call' and leaf(t.a[0]) == 'saturating_add' and show(t.a[1][1]) == '1':
        return t.a[1][0]
    return None


def minus_one(t):
    if t.op == 'bin' and t.a[0] == 'Sub' and show(t.a[2]) == '1':
        return t.a[1]
    if t.op == 'call' and leaf(t.a[0]) in ('saturating_sub', 'wrapping_sub') and show(t.a[1][1]) == '1':
        return t.a[1][0]
    return None


def fresh(c):
    if c is None or c[0] != 'true':
        return False
    t = strip(c[1])
    return t.op == 'call' and leaf(t.a[0]) == ('insert' if c[2] else 'contains') and 'Set' in t.a[0] and parent(t.a[1][1]) in ('author', 'origin')


def older(c):
    o = order(c, lambda t: parent(t) == 'created_at')
    return o is not None and hfield(o[1]) == 'created_at' and '>' not in o[0]


def quorum(r, c):
    if c is None or c[0] != 'cmp':
        return False
    o = order(c, lambda t: lastf(t) == 'quorum_threshold' or (strip(t).op == 'call' and leaf(strip(t).a[0]) == 'quorum_threshold'))
    return o is not None and '>' not in o[0] and strip(o[1]).op in ('phi', 'call')


def stake(r, g):
    """what the parents' power is summed from: the power of each parent's author, once per parent"""
    for n in g.nodes.values():
        for m, c in n.succ:
            if not quorum(r, c):
                continue
            t = [x for x in c[2:4] if lastf(x) != 'quorum_threshold'][0]
            seen, todo = set(), [t]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'phi':
                    todo += list(g.phis.get(x, ()))
                    continue
                if x.op == 'c' or x is t:
                    if x.op == 'c':
                        r.ok('sum starts at none', x.a[0] == 0, 'the power of the parents starts at %s' % show(x))
                    continue
                if x.op == 'bin' and x.a[0] == 'Add':
                    inc = [y for y in x.a[1:3] if not (y.op == 'phi' and y in seen) and not (y.op == 'c' and y.a[0] == 0)]
                    for y in inc:
                        powers(r, g, y, x)
                    continue
                r.undec.append('power of the parents: %s' % show(x)[:200])


def powers(r, g, y, x):
    """an amount added for one parent: nothing, one, or its author's power"""
    vals = g.phis.get(y, {y})
    for v in vals:
        v = strip(v)
        if v.op == 'c':
            r.ok('power of one parent', v.a[0] in (0, 1), 'a parent counts for %s' % show(v))
        elif not (lastf(v) in ('voting_power', 'voting_power_by_id')):
            r.undec.append('power of a parent: %s' % show(v)[:200])


def outer(r, g):
    xs, tn = common(r, g, 'vote')
    isx = lambda n: id(n) in tn
    peer = lambda c: peer_is_author(c)
    CALL = lambda e: e.k == 'call' and leaf(e.name or '') == 'vote_inner'
    r.all_before(g, CALL, edge=peer, inst='author asks', msg='a vote is considered for a header whose author need not be the peer asking')
    succ = lambda n: n.exit and n.exit[0] == 'ret' and not is_err(n.exit[1])
    r.need_before_success(g, edge=peer, inst='author asks: any answer', msg='a request by someone other than the author is answered', succ=succ)
    if xs:
        r.before(g, None, edge=lambda c: same_digest(c), dst_node=isx, inst='fast path repeats', msg='the fast path returns a vote that is not the one on record')
    for n, i, e in g.events(CALL):
        r.ok('same header', isheader(e.args[1]), 'vote_inner is asked about %s' % show(e.args[1])[:200])
    # one request per author at a time
    lock = lambda e: e.k == 'lock' and 'auth_last_vote' in show(e.args[0]) and 'header.inner.author' in show(e.args[0])
    r.all_before(g, CALL, through=lock, inst='one at a time', msg='two requests for one author can be considered at once: the author\'s lock is not taken')
    calls = [(n, i) for n, i, e in g.events(CALL)]
    locks = [(n, i) for n, i, e in g.events(lock)]
    drop = lambda e: e.k == 'drop' and e.args and strip(e.args[0]).op == 'guard' and 'auth_last_vote' in show(e.args[0])
    for n, i in locks:
        for dn, di, de in g.events(drop):
            if g.find_path(lambda e: e is de, src=(n, i)) is None:
                continue
            p = g.find_path(CALL, src=(dn, di))
            if p is not None:
                r.ok('held while considering', False, 'the author\'s lock is released before the request is considered [path: %s]' % r.pathtext(p[0]))
    r.ok('held while considering', True)
    # the answer kept for repeats
    for n, t in g.exits():
        t = strip(t)
        if is_err(t):
            continue
        if any(x.op == 'taken' for x in subterms(t)):
            r.before(g, None, edge=lambda c: cached_same(c), dst_node=lambda m, n=n: m is n, inst='kept answer', msg='the answer kept for another header is returned')
    for n, i, e in g.events(lambda e: e.k == 'write' and 'auth_last_vote' in show(e.args[0])):
        v = strip(e.args[-1])
        for x in subterms(v):
            if x.op == 'agg' and len(x.a[2]) == 4:
                f = [y for _, y in x.a[2]]
                fresh_res = any(y.op == 'call' and leaf(y.a[0]) in ('vote_inner', 'into_error_ref')
                                for z in subterms(f[3]) for q in alts(g, z) for y in subterms(q))
                if fresh_res:
                    r.ok('answer kept for this header', hfield(f[2]) is not None and 'header' in show(f[2]), 'the answer is kept for %s' % show(f[2])[:120])


def peer_is_author(c):
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        if '{env}.peer' in show(strip(x)) and '{env}.peer' not in show(strip(y)) and '{env}.header.inner.author' in full(y):
            return True
        if '{env}.peer' in full(x) and hfield(y) == 'author':
            return True
    return False


def full(t):
    return ' '.join(show(x) for x in subterms(strip(t)) if x.op in ('fld',))


def cached_same(c):
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        if any(z.op == 'taken' for z in subterms(strip(x))) and hfield(y) is not None and '{env}.header' in show(strip(y)):
            return hfield(y) == 'digest'
    return False


def records(r):
    """a record is kept under the author of the header voted on, and says which header that was"""
    for nm, pat in (('write', 'VoteDigestStore>::write_vote'), ('read', 'VoteDigestStore>::read_vote_info')):
        b = r.F.one('<DB as tn_storage::stores::vote_digest_store::' + pat)
        for o in r.rets(b, sides=False, opaque=('insert', 'get')):
            ev = [e for e in o.events if e.k == 'call' and leaf(e.name or '') in ('insert', 'get')]
            t = strip(o.ret)
            if len(ev) != 1 or not has_table(ev[0], VOTES):
                r.ok('%s: table' % nm, False, 'the record of votes is not %s: %s' % ('written' if nm == 'write' else 'read', r.otext(o)))
                continue
            e = ev[0]
            if might_ok(o) and not (t.op == 'call' and leaf(t.a[0]) in ('insert', 'get')) and not any(okedge(leaf(e.name))(c) for c in o.conds):
                r.ok('%s: failure reported' % nm, False, 'a failure is reported as success: %s' % r.otext(o))
            k = strip(e.args[1])
            if nm == 'read':
                r.ok('read: key', show(k) == 'header_author', 'the record is read under %s' % show(k))
            else:
                r.ok('write: key', show(k) == 'vote.origin', 'the record is kept under %s' % show(k))
                v = strip(e.args[2])
                fs = dict(v.a[2]) if v.op == 'agg' else {}
                if not fs:
                    r.undec.append('record %s' % show(v)[:200])
                for f in ('epoch', 'round'):
                    if f in fs:
                        r.ok('write: %s' % f, show(fs[f]) == 'vote.%s' % f, 'the record\'s %s is %s' % (f, show(fs[f])))
                if 'vote_digest' in fs:
                    r.ok('write: digest', 'vote.header_digest' in show(fs['vote_digest']), 'the record\'s digest is %s' % show(fs['vote_digest'])[:200])
    for pat in ('tn_types::primary::vote::Vote::new', 'tn_types::primary::vote::Vote::new_with_signer'):
        for o in r.rets(r.fn(pat), sides=False):
            t = strip(o.ret)
            fs = dict(t.a[2]) if t.op == 'agg' else {}
            if not fs:
                r.undec.append('vote %s' % show(t)[:200])
                continue
            for f, w in (('header_digest', 'digest'), ('round', 'round'), ('epoch', 'epoch'), ('origin', 'author')):
                s = show(fs[f])
                r.ok('vote: %s' % f, s.startswith('header.inner.' + w), 'the %s of a vote is %s' % (f, s[:120]))
            r.ok('vote: author', show(fs['author']) == 'author', 'the voter is %s' % show(fs['author']))
            r.ok('vote: signature', 'header.inner.digest' in ' '.join(show(x) for x in subterms(fs['signature'])), 'the signature is over %s' % show(fs['signature'])[:200])


def who(r):
    """nothing else casts votes, and nothing erases the record"""
    for b, c in r.callers('Vote::new') + r.callers('Vote::new_with_signer'):
        p = b.path
        okp = any(x in p for x in ('RequestHandler::vote', 'Certifier::propose_header')) or any(
            any(x in q.path for x in ('RequestHandler::vote', 'Certifier::propose_header')) for q in r.roots([b]))
        r.ok('casts a vote: %s' % p, okp or '::test' in p, 'votes are cast in %s' % p)
    for b, c in r.callers('RequestHandler::vote_inner'):
        r.ok('vote_inner used by: %s' % b.path, 'RequestHandler::vote' in b.path, 'vote_inner is reached other than through vote, in %s' % b.path)
    for nm in ('remove', 'clear_table', 'insert'):
        for b, c in r.callers('Database::' + nm) + r.callers('DbTxMut::' + nm):
            ga = str(c.get('f', {}).get('c', {}).get('ga', ''))
            if re.search(r'tables::Votes\b', ga) and 'vote_digest_store' not in b.path:
                r.ok('record touched: %s' % b.path, False, 'the record of votes is changed in %s' % b.path)
