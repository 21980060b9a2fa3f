"""Consensus results: stored before executed, followed only with enough signatures (C51)."""
from .pending import *

OPR = ('get_committee', 'verify_secure', 'to_intent_message', 'behind_consensus', 'publish_consensus_num_hash_if_newer', 'published_consensus_num_hash', 'digest', 'consensus_output',
       'set_request_missing_epoch_if_newer', 'save_consensus', 'consensus_header', 'number', 'consensus_header_hash', 'digest_data', 'publish_consensus', 'last_consensus_header',
       'save_consensus_output', 'persist_current', 'notify_exex_consensus_output', 'fetch_batches', 'staging_final', 'clear_staging')
OPG = ('get_committee', 'contains', 'verify_secure', 'to_intent_message', 'behind_consensus', 'publish_consensus_num_hash_if_newer', 'published_consensus_num_hash', 'digest',
       'consensus_output', 'set_request_missing_epoch_if_newer')


@check('C51', ['tn_executor', 'state_sync', 'tn_primary', 'tn_types'])
def c51(r):
    with r.section('stored first'):
        stored_first(r)
    with r.section('saving'):
        saving(r)
    with r.section('order'):
        order(r)
    with r.section('gossip'):
        gossip(r)
    with r.section('what is signed'):
        signed(r)


def stored_first(r):
    cl = {b.path: b for b, _ in r.callers(r'ConsensusBusApp::consensus_output') if any(
        x['k'] == 'call' and 'c' in x['f'] and leaf(x['f']['c'].get('decl') or x['f']['c'].get('fn') or '') in ('send', 'try_send') for x in (bb['x'] for bb in b.d['bbs'] if not bb.get('c')))}
    n = 0
    for path in sorted(cl):
        for o in r.outs(cl[path], sides=False, opaque=OPR, loops=1):
            sent = [strip(e.args[1]) for e in o.events if e.k == 'call' and leaf(e.name) in ('send', 'try_send') and contains(e.args[0], lambda z: iscall(z, 'consensus_output'))]
            r.ok('executed once', len(sent) == len(set(sent)), '%s hands the same output on twice' % path)
            for i, e in enumerate(o.events):
                if e.k != 'call' or not e.args:
                    continue
                nm = leaf(e.name)
                cs = o.before(i)
                sv = [strip(c[1]) for c in cs if c[0] == 'is' and c[2] == 'Ok' and c[3] and iscall(strip(c[1]), 'save_consensus')]
                t = ' & '.join(showc(c)[:120] for c in cs[-3:])
                if nm in ('send', 'try_send') and contains(e.args[0], lambda z: iscall(z, 'consensus_output')):
                    n += 1
                    r.ok('saved before it is executed', sv, '%s hands an output on that was not saved [%s]' % (path, t))
                    if sv:
                        r.ok('what was saved', any(strip(z.a[1][0]) == strip(e.args[1]) for z in sv), 'hands on %s' % show(e.args[1])[:100])
                elif nm in ('publish_consensus', 'notify_exex_consensus_output') or nm == 'send_replace' and contains(e.args[0], lambda z: iscall(z, 'last_consensus_header')):
                    r.ok('saved before it is announced', sv, '%s announces an output that was not saved [%s]' % (path, t))
    r.ok('outputs are executed', n, 'no output is ever handed on')


def saving(r):
    b = bodyre(r, r'state_sync::(consensus::)?save_consensus::\{closure#0\}$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPR, loops=1):
        if o.exit != 'ret' or strip(o.ret).op != 'agg' or strip(o.ret).a[1] != 'Ok':
            continue
        n += 1
        done = lambda nm: [strip(c[1]) for c in o.conds if c[0] == 'is' and c[2] == 'Ok' and c[3] and iscall(strip(c[1]), nm)]
        w, p = done('save_consensus_output'), done('persist_current')
        r.ok('written', w and all(envarg(z.a[1][1]) == 'consensus_output' for z in w), 'reports an output as saved that was not written')
        r.ok('and persisted', p, 'reports an output as saved that was not persisted')
        ix = {leaf(e.name): i for i, e in enumerate(o.events) if e.k == 'call'}
        if w and p:
            r.ok('and persisted', ix.get('save_consensus_output', 0) < ix.get('persist_current', 1), 'persists before it writes')
    r.ok('outputs are saved', n, 'outputs are never saved')


def order(r):
    cl = r.callers(r'Subscriber::fetch_batches')
    r.ok('batches are fetched', cl, 'fetch_batches is never called')
    for b, _ in cl:
        names = [str(x['f']['c'].get('fn') or '') + str(x['f']['c'].get('decl') or '') for x in (bb['x'] for bb in b.d['bbs'] if not bb.get('c')) if x['k'] == 'call' and 'c' in x['f']]
        r.ok('outputs stay in order', not any('FuturesUnordered' in z for z in names), '%s handles outputs in the order their batches arrive' % b.path)
        r.ok('outputs stay in order', not any('FuturesOrdered' in z and 'push_front' in z for z in names), '%s puts an output before earlier ones' % b.path)


def gossip(r):
    b = bodyre(r, r'RequestHandler::process_gossip::\{closure#0\}$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPG, loops=1, limit=20000):
        for i, e in enumerate(o.events):
            if e.k != 'call' or leaf(e.name) != 'publish_consensus_num_hash_if_newer':
                continue
            n += 1
            cs = o.before(i)
            t = ' & '.join(showc(c)[-120:] for c in cs[-4:])
            R = None
            for a, f in zip(e.args[1:4], ('epoch', 'number', 'hash')):
                s = strip(a)
                good = s.op == 'fld' and s.a[1] == f
                R = strip(s.a[0]) if good and R is None else R
                r.ok('what was announced', good and strip(s.a[0]) == R, 'follows %s as the %s' % (show(a)[-80:], f))
            if R is None:
                continue
            RF = lambda z, f: strip(z).op == 'fld' and strip(z).a[1] == f and strip(strip(z).a[0]) == R
            D = lambda z: contains(z, lambda q: iscall(q, 'digest') and strip(q.a[1][0]) == R or iscall(q, 'digest_data') and all(RF(x, f) for x, f in zip(q.a[1], ('epoch', 'round', 'number', 'hash'))))
            com = lambda z: contains(z, lambda q: iscall(q, 'get_committee') and RF(q.a[1][1], 'epoch'))
            r.ok('from the committee', any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'contains', 'any') and com(strip(c[1]).a[1][0]) and (RF(strip(c[1]).a[1][1], 'validator') or iscall(strip(c[1]), 'any')) for c in cs) or
                 any(c[0] == 'is' and c[3] and iscall(strip(c[1]), 'get') and com(strip(c[1]).a[1][0]) and RF(strip(c[1]).a[1][1], 'validator') for c in cs), 'an announcement from outside the committee counts [%s]' % t)
            vs = [strip(c[1]) for c in cs if c[0] == 'true' and c[2] and iscall(strip(c[1]), 'verify_secure', 'verify')]
            r.ok('with a valid signature', any(RF(z.a[1][0], 'signature') and D(z.a[1][1]) and RF(z.a[1][2], 'validator') for z in vs), 'an announcement counts without a valid signature over it [%s]' % t)
            ins = [y for y in o.events[:i] if y.k == 'call' and leaf(y.name) == 'insert' and len(y.args) > 1 and contains(y.args[0], lambda z: F(z, 'consensus_certs'))]
            mine = [y for y in ins if RF(y.args[1], 'validator')]
            r.ok('each signer once', mine, 'the signer is not added to those of the result [%s]' % ', '.join(show(y.args[1])[-60:] for y in ins))
            for y in mine[:1]:
                keyed = [z for z in subterms(y.args[0]) if iscall(z, 'entry', 'get_mut', 'get', 'index_mut')]
                r.ok('per result', any(D(z.a[1][1]) for z in keyed), 'signers are gathered under %s' % [show(z.a[1][1])[-60:] for z in keyed])
            need = []
            for c in cs:
                if c[0] == 'cmp' and c[1] in ('le', 'lt') and contains(c[3], lambda z: iscall(z, 'len') and contains(z, lambda q: F(q, 'consensus_certs'))) and contains(c[2], lambda z: iscall(z, 'len') and com(z)) and not contains(c[2], lambda z: iscall(z, 'max')):
                    need.append(c)
            if not need and any(c[0] == 'cmp' and contains(c[2], lambda z: F(z, 'consensus_certs')) | contains(c[3], lambda z: F(z, 'consensus_certs')) and (com(c[2]) or com(c[3])) for c in cs if not any(iscall(z, 'max') for q in c[2:4] for z in subterms(q))):
                wrong = [c for c in cs if c[0] == 'cmp' and contains(c[2], lambda z: F(z, 'consensus_certs')) and com(c[3]) and not any(iscall(z, 'max') for q in c[2:4] for z in subterms(q))]
                r.ok('by enough of the committee', not wrong, 'followed when %s' % showc(wrong[0])[-200:]) if wrong else r.undec.append('process_gossip: %s' % t)
                continue
            r.ok('by enough of the committee', need, 'an announcement is followed without enough signers [%s]' % t)
            for c in need[:1]:
                lo, k, plus = strip(c[2]), strip(c[3]), 0
                while k.op == 'bin' and k.a[0].startswith('Add') and any(is_const(strip(q)) for q in k.a[1:3]):
                    a, d = (strip(q) for q in k.a[1:3])
                    k, plus = (d, plus + a.a[0]) if is_const(a) else (a, plus + d.a[0])
                if k.op != 'call':
                    r.undec.append('process_gossip: count %s' % show(k)[:100])
                    continue
                bad = None
                try:
                    for size in range(1, 60):
                        L = numeval(lo, [(lambda z: iscall(z, 'len') and com(z), size)]) + (1 if c[1] == 'lt' else 0) - plus
                        if L * 3 <= size:
                            bad = size
                            break
                except NotComp as x:
                    r.undec.append('process_gossip: %s' % x)
                    continue
                r.ok('by more than a third', bad is None, '%s signers of %s suffice' % (L, bad))
                r.ok('signers of this result', any(strip(y.args[0]) == strip(k.a[1][0]) or over_same(y.args[0], k.a[1][0]) for y in mine), 'counts %s' % show(k)[-100:])
    r.ok('announcements are followed', n, 'announcements are never followed')


def over_same(a, b):
    """the same set, before and after something was put into it"""
    u = lambda t: u(t.a[0]) if strip(t).op == 'upd!' and t is strip(t) else t
    x, y = strip(a), strip(b)
    while x.op == 'upd!':
        x = strip(x.a[0])
    while y.op == 'upd!':
        y = strip(y.a[0])
    return x == y


def signed(r):
    b = bodyre(r, r'ConsensusResult::digest_data$')
    for o in r.outs(b, sides=False, loops=1):
        if o.exit == 'ret':
            got = {param_of(z) for z in subterms(o.ret) if z.op == 'param'}
            got |= {param_of(strip(z)) for e in o.events if e.k == 'call' and leaf(e.name) == 'update' for a in e.args for z in subterms(a) if z.op == 'param'}
            r.ok('the whole result is signed', {1, 2, 3, 4} <= got, 'the digest leaves out %s' % sorted({1: 'epoch', 2: 'round', 3: 'number', 4: 'hash'}[k] for k in {1, 2, 3, 4} - got))
    b = bodyre(r, r'ConsensusResult::digest$')
    for o in r.outs(b, sides=False, opaque=('digest_data',), loops=1):
        if o.exit == 'ret':
            d = [z for z in subterms(o.ret) if iscall(z, 'digest_data')]
            if d:
                r.ok('the whole result is signed', all(F(x, f) for x, f in zip(d[0].a[1], ('epoch', 'round', 'number', 'hash'))), 'digests %s' % show(d[0])[:120])
    cl = r.callers(r'PrimaryNetworkHandle::publish_consensus')
    for b, _ in cl:
        for o in r.outs(b, sides=False, opaque=OPR, loops=1):
            for i, e in enumerate(o.events):
                if e.k == 'call' and leaf(e.name) == 'publish_consensus':
                    dd = [z for y in o.events[:i] if y.k == 'call' and leaf(y.name) == 'digest_data' for z in [y]]
                    for y in dd[:1]:
                        r.ok('signed as announced', [strip(a) for a in y.args[:4]] == [strip(a) for a in e.args[1:5]], 'signs %s and announces %s' % ([show(a)[-40:] for a in y.args[:4]], [show(a)[-40:] for a in e.args[1:5]]))
