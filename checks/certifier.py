"""C43: collecting votes.  C44: durable before announced."""
from engine.rules import *
from engine.lib import *
from engine import comp as cp
from checks.certs import lastf, might_ok
from checks.votes import hfield, isheader, order, okedge, has_table, alts, of_vote

VA = 'tn_primary::aggregators::votes::VotesAggregator::'
CF = 'tn_primary::certifier::Certifier::'
PR = 'tn_primary::proposer::Proposer::'
OPA = ('verify_secure', 'new_unverified', 'quorum_threshold', 'voting_power_by_id', 'aggregated_signature', 'set_signature_verification_state', 'to_string')


def eqcond(c, f, g):
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return False
    a, b = strip(c[2]), strip(c[3])
    return (f(a) and g(b)) or (f(b) and g(a))


def vfield(t):
    """the field of the parameter `vote` a term is"""
    t = strip(t)
    p = []
    while t.op == 'fld':
        p.append(t.a[1])
        t = t.a[0]
    return p[-1] if p and show(t) == 'vote' else None


def pfield(t):
    """the field of the vote a peer answered with (request_vote)"""
    t = strip(t)
    if t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[0].op == 'as' and t.a[0].a[0].a[1] == 'Vote':
        return t.a[1]
    return None


@check('C43', ['tn_types', 'tn_primary', 'tn_storage', 'state_sync', 'tn_config'], note='Every outcome of counting a vote and all paths on which votes are asked for are read.')
def c43(r):
    with r.section('append'):
        append(r)
    with r.section('new'):
        for o in r.rets(r.fn(VA + 'new'), sides=False):
            fs = dict(o.ret.a[2]) if o.ret.op == 'agg' else {}
            for f, t in fs.items():
                s = strip(t)
                r.ok('starts empty: %s' % f, (s.op == 'c' and s.a[0] == 0) or (s.op == 'call' and leaf(s.a[0]) in ('new', 'default', 'with_capacity')), 'a count starts with %s = %s' % (f, show(t)[:100]))
    with r.section('request_vote'):
        requested(r)
    with r.section('propose_header'):
        proposing(r)
    with r.section('census'):
        for nm, where in (('VotesAggregator::append', 'Certifier::propose_header'), ('Certificate::new_unverified', 'VotesAggregator::append')):
            for b, _ in r.callers(nm):
                ok = where in b.path or any(where in q.path for q in r.roots([b])) or '::test' in b.path
                r.ok('%s used by %s' % (nm, b.path), ok, '%s is called in %s' % (nm, b.path))


def append(r):
    comm = lambda t: show(strip(t)) == 'committee'
    for o in r.rets(r.fn(VA + 'append'), sides=False, own=(1,), opaque=OPA):
        seen = digest = sig = member = False
        quorum = None
        power = vote_in = None
        for c in o.conds:
            t = strip(c[1]) if c[0] in ('true', 'is') else None
            if c[0] == 'true' and t.op == 'call' and leaf(t.a[0]) in ('insert', 'contains') and 'authorities_seen' in show(t.a[1][0]):
                if vfield(t.a[1][1]) == 'author':
                    seen = c[2] == (leaf(t.a[0]) == 'insert') or seen
            elif eqcond(c, lambda t: vfield(t) == 'header_digest', lambda t: show(t).startswith('header.inner.digest')):
                digest = True
            elif c[0] == 'true' and t.op == 'call' and leaf(t.a[0]) == 'verify_secure' and c[2]:
                s, m, k = t.a[1][:3]
                sig = vfield(s) == 'signature' and signs(m) and 'vote.author' in show(strip(k)) and 'authorities' in show(strip(k)) and lastf(k) == 'protocol_key'
            elif c[0] == 'is' and c[3] and 'vote.author' in show(t) and 'authorities' in show(t):
                member = True
            elif c[0] == 'cmp' and any('quorum_threshold' in show(x) for x in c[2:4]):
                od = order(c, lambda t: lastf(t) == 'quorum_threshold')
                if od is None:
                    r.undec.append('quorum %s' % showc(c)[:200])
                else:
                    quorum, power = od
        made = o.ret.op == 'agg' and o.ret.a[1] == 'Ok' and any(x.op == 'call' and leaf(x.a[0]) == 'new_unverified' for x in subterms(o.ret))
        st = (o.state or {}).get(1)
        f = fields_of(st) if st is not None else {}
        w, vv = f.get('weight'), f.get('verified_votes')
        counted = changed(w, 'weight') or changed(vv, 'verified_votes') or made
        good = seen and digest and sig and (member or sig)
        if counted or might_ok(o):
            for k, what in (('seen', 'was already counted for its author'), ('digest', 'is for another header'), ('sig', 'is not shown to be signed by the member it names')):
                r.ok('counted: %s' % k, {'seen': seen, 'digest': digest, 'sig': sig}[k], 'a vote that %s is counted: %s' % (what, r.otext(o)))
            if w is not None and changed(w, 'weight'):
                r.ok('counts its power', addition(w, 'weight'), 'a vote counts as %s' % show(strip(w))[:200])
            else:
                r.ok('counts its power', is_err(o.ret), 'a valid vote does not count: %s' % r.otext(o))
            if vv is not None and changed(vv, 'verified_votes'):
                r.ok('signature kept', show(strip(vv)).count('push') == 1 and 'vote.author' in show(strip(vv)) and 'vote.signature' in show(strip(vv)), 'the vote kept is %s' % show(strip(vv))[:200])
        else:
            r.ok('rejected for a reason', not good, 'a valid vote is rejected: %s' % r.otext(o))
        if made:
            ok = quorum is not None and '>' not in quorum and power is not None and (addition(power, 'weight') or lastf(power) == 'weight')
            r.ok('certificate: quorum', ok, 'a certificate is formed from less than a quorum: %s' % r.otext(o))
            for x in subterms(o.ret):
                if x.op == 'call' and leaf(x.a[0]) == 'new_unverified':
                    a = x.a[1]
                    r.ok('certificate: header', show(strip(a[1])) == 'header', 'the certificate is for %s' % show(a[1])[:100])
                    r.ok('certificate: committee', comm(a[0]), 'the committee of the certificate is %s' % show(a[0])[:100])
                    r.ok('certificate: votes', show(strip(a[2])).startswith('self.verified_votes') and not [y for y in subterms(a[2]) if y.op == 'call' and leaf(y.a[0]) in ('skip', 'take', 'filter')],
                         'the certificate is made from %s' % show(a[2])[:200])
        elif quorum is not None and not is_err(o.ret):
            r.ok('certificate at quorum', quorum <= {'>'}, 'no certificate is formed at a quorum: %s' % r.otext(o))


def signs(m):
    """the message a vote is verified over: the digest it names (compared with that of the header) in the consensus intent"""
    s = show(strip(m))
    return ('vote.header_digest' in s or 'header.inner.digest' in s) and 'ConsensusDigest' in s


def fields_of(st):
    out = {}
    t = st
    if t.op == 'agg':
        return dict(t.a[2])
    while t.op == 'upd':
        out.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return out


def changed(t, f):
    return t is not None and show(strip(t)) != 'self.%s' % f


def addition(t, f):
    t = strip(t)
    if t.op == 'bin' and t.a[0] == 'Add':
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if show(a) == 'self.%s' % f and 'vote.author' in show(b) and lastf(b) in ('voting_power_by_id', 'voting_power'):
                return True
    return False


def requested(r):
    g = r.graph(r.fn(CF + 'request_vote::{closure#0}::{closure#0}') if r.F.find(CF + 'request_vote::{closure#0}::{closure#0}') else r.fn(CF + 'request_vote::{closure#0}'),
                sides=False, opaque=('request_vote', 'read_all', 'to_string', 'voting_power_by_id'))
    xs = []
    for n, t in g.exits():
        t = strip(t)
        if t.op == 'agg' and t.a[1] == 'Ok':
            xs.append((n, t))
    r.ok('votes come back', bool(xs), 'request_vote never returns a vote')
    for n, t in xs:
        v = strip(t.a[2][0][1])
        dn = lambda m, n=n: m is n
        for f, h, what in (('header_digest', lambda t: hfield(t) == 'digest' or show(t).startswith('{env}.header.inner.digest'), 'is for another header'),
                           ('origin', lambda t: hfield(t) == 'author', 'is for another author\'s header'),
                           ('author', lambda t: show(t) == '{env}.authority', 'is from someone other than the peer asked'),
                           ('epoch', lambda t: hfield(t) == 'epoch' or show(t).endswith('committee.inner.epoch'), 'is of another epoch'),
                           ('round', lambda t: hfield(t) == 'round', 'is of another round')):
            r.before(g, None, dst_node=dn, edge=lambda c, f=f, h=h: eqcond(c, lambda t: pfield(t) == f or (t.op == 'fld' and t.a[1] == f and t.a[0] is v), h), inst='asked for: %s' % f,
                     msg='a vote that %s is accepted' % what)


def proposing(r):
    A = lambda e: e.k == 'call' and e.name.endswith('VotesAggregator::append')
    g = agraph(r, CF + 'propose_header', A, opaque=('request_vote', 'VotesAggregator::append', 'to_string', 'VotesAggregator::new', 'Vote::new', 'others_primaries_by_id'))
    A = lambda e: e.k == 'call' and e.name.endswith('VotesAggregator::append')
    for n, i, e in r.events(g, A, 1, 'counts votes'):
        v = strip(e.args[1])
        if of_vote(v) is not None:
            r.ok('own vote', isheader(of_vote(v)) and show(strip(v.a[1][1])).endswith('authority_id'), 'our own vote is %s' % show(v)[:200])
        r.ok('counted against the committee', lastf(e.args[2]) == 'committee', 'votes are counted against %s' % show(e.args[2])[:100])
        r.ok('counted for this header', isheader(e.args[3]), 'votes are counted for %s' % show(e.args[3])[:100])
        for x in alts(g, strip(e.args[0])):
            root = strip(x)
            while root.op == 'upd!':
                root = strip(root.a[0])
            if root.op == 'call' and root.a[0].endswith('VotesAggregator::new') or root.op == 'phi':
                continue
            r.ok('fresh count', not show(root).startswith('{env}.self'), 'the votes of several headers are counted together in %s' % show(root)[:100])
    for n, t in g.exits():
        t = strip(t)
        if t.op == 'agg' and t.a[1] == 'Ok':
            for x in alts(g, base(t.a[2][0][1])):
                s = strip(x)
                ok = any(y.op == 'call' and y.a[0].endswith('VotesAggregator::append') for y in subterms(s)) or s.op == 'phi' or (s.op == 'agg' and s.a[1] in ('None', 'Err'))
                if not ok:
                    r.ok('certificate comes from the count', False, 'the certificate is %s' % show(s)[:200])
    r.before(g, A, edge=lambda c: eqcond(c, lambda t: hfield(t) == 'epoch', lambda t: show(t).endswith('committee.inner.epoch')), inst='epoch', msg='votes are collected for a header of another epoch')


def base(t):
    t = strip(t)
    while t.op in ('fld', 'as'):
        t = strip(t.a[0])
    return t


def agraph(r, p, want, **kw):
    """the graph of an async function (below the wrapper that #[instrument] adds) that has the event wanted"""
    g = None
    for q in ('::{closure#0}', '::{closure#0}::{closure#0}', ''):
        if r.F.find(p + q):
            g = r.graph(r.fn(p + q), sides=False, **kw)
            if g.events(want):
                return g
    return g if g is not None else r.graph(r.fn(p + '::{closure#0}'))


@check('C44', ['tn_types', 'tn_primary', 'tn_storage', 'state_sync', 'tn_config'], note='Votes are decided with C42; here all paths to sending a header and to announcing a certificate of ours are read.')
def c44(r):
    with r.section('header'):
        header(r)
    with r.section('restart'):
        restart(r)
    with r.section('certificate'):
        certificate(r)
    with r.section('votes'):
        from checks import votes as V
        for nm in ('vote_inner', 'vote'):
            V.common(r, r.graph(r.fn(V.HN + nm + '::{closure#0}'), sides=False, opaque=V.OPV), nm)
    with r.section('census'):
        for nm, where in (('ConsensusBus::headers', ('Proposer::store_and_send_header',)), ('PrimaryNetworkHandle::publish_certificate', ('Certifier::spawn_header_proposal', 'Certifier::spawn')),
                          ('Certifier::propose_header', ('Certifier::spawn_header_proposal',)), ('StateSynchronizer::process_own_certificate', ('Certifier::spawn_header_proposal',)),
                          ('RequestHandler::vote', ('process_vote_request',))):
            for b, _ in r.callers(nm):
                ok = any(w in q.path for w in where for q in [b] + list(r.roots([b]))) or '::test' in b.path
                r.ok('%s used by %s' % (nm, b.path), ok, '%s is used in %s, past what makes records durable' % (nm, b.path))


def header(r):
    g = agraph(r, PR + 'store_and_send_header', lambda e: e.k == 'call' and leaf(e.name or '') == 'persist', opaque=('persist', 'write_last_proposed', 'get_last_proposed', 'to_string'))
    S = lambda e: e.k == 'call' and leaf(e.name or '') in ('send', 'try_send', 'send_timeout') and 'headers' in show(e.args[0])
    last = lambda t, f: strip(t).op == 'fld' and strip(t).a[1] == f and any(x.op == 'call' and leaf(x.a[0]) == 'get_last_proposed' for x in subterms(t))
    older = lambda c: (lambda o: o is not None and hfield(o[1]) == 'round' and o[0] <= set('>'))(order(c, lambda t: last(t, 'round')))
    sameep = lambda c: eqcond(c, lambda t: last(t, 'epoch'), lambda t: hfield(t) == 'epoch')
    W = lambda e: e.k == 'call' and leaf(e.name or '') == 'write_last_proposed'
    for n, i, e in r.events(g, S, 1, 'header sent'):
        r.ok('sends the header', isheader(e.args[1]), 'what is sent is %s' % show(e.args[1])[:100])
    for n, i, e in r.events(g, W, 1, 'header recorded'):
        r.ok('records the header', isheader(e.args[1]), 'what is recorded is %s' % show(e.args[1])[:100])
    P = lambda e: e.k == 'call' and leaf(e.name or '') == 'persist'
    for n, i, e in g.events(P):
        r.ok('barrier is for headers', has_table(e, 'tables::LastProposed'), 'the barrier forces another table to storage: %s' % (e.info,))
    for need, inst, msg in ((okedge('write_last_proposed'), 'recorded', 'a header is sent that was not recorded'), (okedge('persist'), 'durable', 'a header is sent before its record was forced to storage')):
        r.all_before(g, S, edge=lambda c: need(c) or older(c), inst='%s before sent' % inst, msg=msg)
        r.all_before(g, S, edge=lambda c: need(c) or sameep(c), inst='%s before sent (epoch)' % inst, msg=msg + ' although the record on file is of another epoch')
    for n, i, e in g.events(W):
        p = g.find_path(S, avoid_edge=okedge('persist'), src=(n, i))
        r.ok('forced after writing', p is None, 'the header is sent after recording it without forcing the record to storage')
        # a record of a later round of this epoch is not overwritten
        keep = lambda c: is_none_last(c) or (lambda o: o is not None and hfield(o[1]) == 'round' and '>' not in o[0])(order(c, lambda t: last(t, 'round'))) or (
            c is not None and c[0] == 'cmp' and c[1] == 'ne' and any(last(x, 'epoch') for x in c[2:4]))
        r.before(g, lambda x: x is e, edge=keep, inst='later record kept', msg='the record of a later header of this epoch is overwritten')
    for b in ('write_last_proposed', 'get_last_proposed'):
        for o in r.rets(r.F.one('<DB as tn_storage::stores::proposer_store::ProposerStore>::' + b), sides=False, opaque=('insert', 'get')):
            ev = [e for e in o.events if e.k == 'call' and leaf(e.name or '') in ('insert', 'get')]
            t = strip(o.ret)
            r.ok('store: %s' % b, len(ev) == 1 and has_table(ev[0], 'tables::LastProposed') and strip(ev[0].args[1]).op == 'c' and (len(ev[0].args) < 3 or show(strip(ev[0].args[2])) == 'header'),
                 'the record is not kept: %s' % r.otext(o))
            if might_ok(o) and not (t.op == 'call' and leaf(t.a[0]) in ('insert', 'get')) and not any(c[0] == 'is' and c[3] and c[2] == 'Ok' for c in o.conds):
                r.ok('store: failure reported', False, 'a failure is reported as success: %s' % r.otext(o))


def is_none_last(c):
    if c is None or c[0] != 'is' or c[3]:
        return False
    t = strip(c[1])
    return t.op == 'fld' and any(x.op == 'call' and leaf(x.a[0]) == 'get_last_proposed' for x in subterms(t))


def restart(r):
    """after a restart the recorded header of a round is proposed again, not another"""
    b = r.fn(PR + 'propose_next_header')
    g = r.graph(b, sides=False, opaque=('get_last_proposed', 'to_string', 'primary_round', 'spawn_task'))
    SP = lambda e: e.k == 'call' and leaf(e.name or '') == 'spawn_task'
    kinds = {}
    for n, i, e in r.events(g, SP, 2, 'proposals'):
        cl = [c for c in calls_within(r, e.args[2])]
        for c in cl:
            kinds.setdefault(c, []).append((n, i, e))
    for c, ns in kinds.items():
        for n, i, e in ns:
            if c == 'repropose_header':
                h = [v for x in subterms(strip(e.args[2])) if x.op == 'closure' for f, v in x.a[1] if f == 'header']
                for v in h:
                    r.ok('the header on record again', 'get_last_proposed' in show(v), 'the header proposed again is %s' % show(v)[:100])
    r.ok('proposes again', bool(kinds.get('repropose_header')), 'a recorded header is never proposed again')
    look = okedge('get_last_proposed')
    for n, i, e in kinds.get('propose_header', []):
        r.before(g, lambda x: x is e, edge=look, inst='record looked up', msg='a new header is built without looking for the record of this round')
        need = lambda c: fresh_round(r, c)
        r.before(g, lambda x: x is e, edge=need, inst='no second header', msg='a new header is built although one for this round is on record')


def other_slot(c):
    """a condition that says the header on record is of another round or another epoch"""
    if c[0] != 'cmp' or c[1] not in ('ne', 'lt'):
        return False
    for x, y in ((c[2], c[3]), (c[3], c[2])):
        s, t = show(strip(x)), strip(y)
        if 'get_last_proposed' in s:
            if lastf(x) == 'round' and (show(t) == 'self.round' or t.op == 'phi') and c[1] == 'ne':
                return True
            if lastf(x) == 'epoch' and lastf(t) == 'epoch' and 'get_last_proposed' not in show(t) and c[1] == 'ne':
                return True
    return False


def fresh_round(r, c):
    """an edge on which no header of this round and epoch is on record"""
    s = showc(c) if c is not None else ''
    if 'get_last_proposed' not in s:
        return False
    if c[0] == 'is' and not c[3]:
        t = strip(c[1])
        if t.op == 'fld':
            return True
        if t.op == 'call' and leaf(t.a[0]) == 'filter':
            for cs, ret in cp.apply(r.ctx(), t.a[1][1], [mk('fld', mk('as', t.a[1][0], 'Some'), '0')]):
                ret = strip(ret)
                if ret.op == 'c' and ret.a[0] in (True, 1, 'true'):
                    continue
                if any(other_slot(x) for x in cs):
                    continue
                if ret.op == 'bin' and ret.a[0] == 'Eq' and other_slot(('cmp', 'ne', ret.a[1], ret.a[2])):
                    continue
                return False
            return True
        return False
    return other_slot(c)


def calls_within(r, t):
    """names of the functions the closure a term builds can call"""
    out = set()
    for x in subterms(strip(t)):
        if x.op in ('closure', 'clos') or (x.op == 'agg' and 'closure' in str(x.a[0])):
            p = [y for y in x.a if isinstance(y, str) and 'closure' in y]
            for q in p:
                for b in r.F.find(q):
                    out |= {leaf(e) for e in called(r, b)}
    return out


def called(r, b, depth=2):
    out = set()
    g = r.graph(b, sides=False, opaque=('repropose_header', 'propose_header'))
    for n, i, e in g.events(lambda e: e.k == 'call'):
        out.add(e.name)
    return out


def certificate(r):
    TAB = 'tables::ProposedCertificates'
    g = agraph(r, CF + 'spawn_header_proposal', lambda e: e.k == 'call' and leaf(e.name or '') == 'propose_header', opaque=('propose_header', 'publish_certificate', 'process_own_certificate', 'persist', 'insert', 'get', 'to_string'))
    ev = lambda nm: (lambda e: e.k == 'call' and leaf(e.name or '') == nm)
    key = lambda t: show(strip(t)).startswith('{env}.header.inner.digest')
    tabs = [e for n, i, e in g.events(lambda e: e.k == 'call' and leaf(e.name or '') in ('get', 'insert', 'persist') and 'node_storage' in show(e.args[0]))]
    for e in tabs:
        r.ok('table of %s' % leaf(e.name), has_table(e, TAB), 'a record of another table is used: %s' % (e.info,))
        if leaf(e.name) != 'persist':
            r.ok('key of %s' % leaf(e.name), key(e.args[1]), 'the certificate is recorded under %s' % show(e.args[1])[:100])
    known = lambda t: any(x.op == 'call' and leaf(x.a[0]) == 'get' for x in subterms(strip(t)))
    fresh_pub = lambda e: (e.k == 'call' and leaf(e.name or '') == 'publish_certificate' and not known(e.args[1])) or (e.k == 'call' and leaf(e.name or '') == 'process_own_certificate')
    for n, i, e in g.events(lambda e: e.k == 'call' and leaf(e.name or '') == 'publish_certificate' and known(e.args[1])):
        r.ok('publishes the record of this header', any(key(x.a[1][1]) for x in subterms(strip(e.args[1])) if x.op == 'call' and leaf(x.a[0]) == 'get'), 'the certificate published is %s' % show(e.args[1])[:200])
    r.all_before(g, fresh_pub, edge=okedge('insert'), inst='recorded before announced', msg='a certificate is announced that was not recorded')
    r.all_before(g, fresh_pub, edge=okedge('persist'), inst='durable before announced', msg='a certificate is announced before its record was forced to storage')
    for n, i, e in g.events(ev('insert')):
        p = g.find_path(fresh_pub, avoid_edge=okedge('persist'), src=(n, i))
        r.ok('forced after recording', p is None, 'the certificate is announced after recording it without forcing the record to storage')
        for m, j, f in g.events(fresh_pub):
            r.ok('records what is announced', roots_eq(e.args[2], f.args[1]), 'the certificate recorded (%s) is not the one announced (%s)' % (show(e.args[2])[:80], show(f.args[1])[:80]))
    # one certificate for one header
    notyet = lambda c: c is not None and c[0] == 'is' and not c[3] and known(c[1])
    r.all_before(g, ev('propose_header'), edge=notyet, inst='not certified twice', msg='votes are collected for a header that may already be certified')
    lock = lambda e: e.k == 'lock' and 'proposal_lock' in show(e.args[0])
    drop = lambda e: e.k == 'drop' and e.args and strip(e.args[0]).op == 'guard' and 'proposal_lock' in show(e.args[0])
    G = lambda e: e.k == 'call' and leaf(e.name or '') == 'get' and 'node_storage' in show(e.args[0])
    r.all_before(g, G, through=lock, inst='one at a time', msg='two proposals of one header can run at once')
    for dn, di, de in g.events(drop):
        if g.find_path(lambda e: e is de) is None:
            continue
        p = g.find_path(ev('insert'), src=(dn, di))
        r.ok('lock held until recorded', p is None, 'the proposal lock is released before the certificate is recorded')


def roots_eq(a, b):
    f = lambda t: [x for x in [strip(t)]][0]
    a, b = f(a), f(b)
    while b.op == 'upd!':
        b = strip(b.a[0])
    while a.op == 'upd!':
        a = strip(a.a[0])
    return a is b
