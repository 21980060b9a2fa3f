"""C40: certificates from outside."""
from engine.rules import *
from engine import comp as cp
from engine.comp import NotComp
from engine.lib import *

TY = 'tn_types::primary::certificate::'
STATE = 'signature_verification_state'
OKST = {'VerifiedDirectly', 'VerifiedIndirectly', 'Genesis'}


def cidx(o, *names):
    return [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in names]


def ok_after(o, e):
    """the call event's result is known to be Ok (its Err is returned otherwise), or it is itself what is returned"""
    if e.res is None:
        return False
    if o.ret is not None and (o.ret is e.res or strip(o.ret) is strip(e.res)):
        return True
    return any(c[0] == 'is' and c[2] == 'Ok' and c[3] and c[1] is e.res for c in o.conds)


def might_ok(o):
    return o.exit == 'ret' and o.ret is not None and not is_err(o.ret)


def states_of(o, base):
    """variants the state of `base` may have according to the conditions, or None when unconstrained"""
    vs = {'Unverified', 'VerifiedDirectly', 'VerifiedIndirectly', 'Unsigned', 'Genesis'}
    for c in o.conds:
        if c[0] == 'is' and c[1].op == 'fld' and c[1].a[1] == STATE and strip(c[1].a[0]) is base:
            vs = vs & {c[2]} if c[3] else vs - {c[2]}
        elif c[0] == 'isin' and c[1].op == 'fld' and c[1].a[1] == STATE:
            vs = vs - set(c[2])
    return vs


def sig_of(t, base):
    """t is the signature carried by base's state"""
    t = view(strip(t))
    if t.op == 'fld' and t.a[1] == '0':
        x = t.a[0]
        if x.op == 'as':
            x = x.a[0]
        if x.op == 'fld' and x.a[1] == STATE and x.a[0] is base:
            return True
        if x.op == 'call' and leaf(x.a[0]) == 'aggregated_signature' and strip(x.a[1][0]) is base:
            return True
    return False


def digest_of(t, base):
    t = view(strip(t))
    if t.op == 'call' and leaf(t.a[0]) == 'digest':
        x = t.a[1][0]
        return x is base or (x.op == 'fld' and x.a[1] == 'header' and x.a[0] is base)
    return f(f(base, 'header'), 'inner', 'digest')(t) or f(base, 'header', 'inner', 'digest')(t)


def reset(t, base):
    """t is certificate `base` with its state discarded: Unverified over the signature it carried"""
    t = strip(t)
    if t.op in ('upd', 'upd!') and t.op == 'upd':
        v = fld(t, STATE)
        return t.a[0] is base and v.op == 'agg' and v.a[1] == 'Unverified' and sig_of(fld(v, '0'), base)
    return False


def sanitised(r, t, g=None):
    """every certificate in collection t was reset before it got there: 'yes' / 'no' / None (unreadable)"""
    R = r.ctx()
    t = strip(t)
    while True:
        if t.op == 'upd!' and leaf(t.a[1]) in ('retain', 'sort_by_key', 'sort', 'sort_by', 'truncate', 'shuffle', 'dedup'):
            t = t.a[0]
        elif t.op == 'call' and leaf(t.a[0]) in ('iter', 'iter_mut', 'into_iter', 'collect', 'enumerate') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'as' and t.a[0].a[1] in ('Ok', 'Some'):
            t = t.a[0].a[0]
        elif t.op in ('fld',) and t.a[0].op in ('as',):
            break
        else:
            break
    if t.op == 'call' and leaf(t.a[0]) in ('map', 'filter_map', 'and_then') and len(t.a[1]) == 2:
        res = 'yes'
        x = mk('call', 'core::elem', (t.a[1][0],), None) if False else call('elem', (t.a[1][0],))
        try:
            rs = cp.apply(R, t.a[1][1], (x,))
        except NotComp:
            return None
        for item in rs:
            v = item[1] if isinstance(item, tuple) else item
            v = strip(v)
            if is_err(v) or is_none(v):
                continue
            if v.op == 'agg' and v.a[1] in ('Ok', 'Some'):
                v = fld(v, '0')
            if reset(v, strip(x)):
                continue
            if v.op == 'call' and leaf(v.a[0]) in ('map_err', 'inspect_err', 'validate_fetched_certificate'):
                while v.op == 'call' and leaf(v.a[0]) in ('map_err', 'inspect_err'):
                    v = v.a[1][0]
                if v.op == 'call' and leaf(v.a[0]) == 'validate_fetched_certificate':
                    continue
            if strip(v) is strip(x):
                return 'no'
            res = None
        return res if rs else None
    if t.op in ('fld', 'param', 'as'):
        return 'no'
    if g is not None and (t.op == 'phi' or t.op == 'call' and leaf(t.a[0]) in ('new', 'with_capacity', 'default')):
        res = None
        for n, i, e in g.events(lambda e: e.k == 'call' and leaf(e.name) in ('push', 'push_back')):
            b = e.args[0]
            while b.op == 'upd!':
                b = b.a[0]
            if strip(b) is not t and not (t.op == 'phi' and b.op == 'phi' and b.a[1] == t.a[1]):
                continue
            v = strip(e.args[1])
            if v.op == 'upd' and reset(v, v.a[0]):
                res = res or 'yes'
            elif v.op in ('elem', 'fld', 'param'):
                return 'no'
            else:
                return None
        return res
    return None


@check('C40', ['tn_types', 'tn_primary', 'tn_storage', 'state_sync'],
       note='The verification core is read path by path; every way a certificate of a peer reaches it is shown to discard the state the peer claimed.')
def c40(r):
    SELF = None
    with r.section('verify_signature'):
        b = r.fn(TY + 'Certificate::verify_signature')
        outs = [o for o in r.outs(b, own=(1,), sides=False, opaque=('verify_secure', 'from_signature')) if might_ok(o)]
        r.ok('exists', bool(outs), 'signatures can never verify')
        for o in outs:
            base = strip(o.before(0)[1]) if False else None
            sts = [c[1].a[0] for c in o.conds if c[0] in ('is', 'isin') and c[1].op == 'fld' and c[1].a[1] == STATE]
            base = strip(sts[0]) if sts else None
            vs = states_of(o, base) if base is not None else {'?'}
            if vs <= OKST:
                r.ok('already verified', True)
                continue
            good = False
            for c in o.conds:
                if c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'verify_secure':
                    s, m, k = c[1].a[1][:3]
                    kk = view(strip(k))
                    msg = view(strip(m))
                    r.ok('signed value', msg.op == 'agg' and digest_of(fld(msg, 'value'), base) and (intent_of(fld(msg, 'intent')) or ('',))[0] == 'ConsensusDigest',
                         'the aggregate signature is verified over %s' % show(msg)[:200])
                    r.ok('keys', any(x.op == 'param' and x.a[0] == 2 for x in subterms(kk)), 'verified against keys %s' % show(kk)[:150])
                    r.ok('signature', any(sig_of(x, base) for x in subterms(strip(s))), 'the signature verified is %s' % show(s)[:150])
                    good = True
            r.ok('verified before accepted', good and vs == {'Unverified'}, 'a certificate in state %s is accepted without verifying a signature' % sorted(vs))
            st = fld(o.state[1], STATE) if o.state.get(1) is not None else None
            r.ok('verified state', st is not None and st.op == 'agg' and st.a[1] == 'VerifiedDirectly' and sig_of(fld(st, '0'), base),
                 'after verification the state is %s' % (show(st)[:120] if st is not None else None))
    with r.section('reset'):
        b = r.fn(TY + 'Certificate::validate_received')
        for o in r.outs(b, own=(1,), sides=False, opaque=('aggregated_signature',)):
            if might_ok(o):
                st = fld(o.state[1], STATE)
                x = o.state[1]
                r.ok('discards the claimed state', reset(x, strip(x.a[0])) if x.op == 'upd' else False, 'on success the state is %s' % show(st)[:200])
        b = r.fn(TY + 'validate_fetched_certificate')
        for o in r.rets(b, sides=False, opaque=('aggregated_signature',)):
            if o.ret.op == 'agg' and o.ret.a[1] == 'Ok':
                x = strip(fld(o.ret, '0'))
                r.ok('fetched', x.op == 'upd' and reset(x, x.a[0]), 'a fetched certificate is returned as %s' % show(x)[:200])
            elif not is_err(o.ret):
                r.undec.append('validate_fetched_certificate returns %s' % show(o.ret)[:200])
        b = r.fn(TY + 'Certificate::aggregated_signature')
        for o in r.rets(b, sides=False):
            sts = [c[1].a[0] for c in o.conds if c[0] in ('is', 'isin') and c[1].op == 'fld' and c[1].a[1] == STATE]
            base = strip(sts[0]) if sts else None
            r.ok('own signature', o.ret.a[1] == 'None' if o.ret.op == 'agg' and o.ret.a[1] == 'None' else
                 base is not None and o.ret.op == 'agg' and sig_of(fld(o.ret, '0'), base), 'the signature of the certificate is %s' % show(o.ret)[:150])
        b = r.fn(TY + 'Certificate::is_verified')
        for o in r.rets(b, sides=False):
            sts = [c[1].a[0] for c in o.conds if c[0] in ('is', 'isin') and c[1].op == 'fld' and c[1].a[1] == STATE]
            vs = states_of(o, strip(sts[0])) if sts else {'?'}
            for v in vs:
                r.ok('is_verified(%s)' % v, o.ret.op == 'c' and bool(o.ret.a[0]) == (v in OKST), 'a certificate in state %s counts as verified: %s' % (v, show(o.ret)))
    OP = ('verify_signature', 'signed_by', 'Header::validate', 'Certificate::genesis', 'validate_received')
    for name, comm in (('verify_cert', 'set'), ('validate_and_verify', 'committee')):
        with r.section(name):
            b = r.fn(TY + 'Certificate::' + name)
            outs = [o for o in r.outs(b, own=(1,), sides=False, opaque=OP) if o.exit == 'ret']
            good = [o for o in outs if might_ok(o)]
            r.ok('exists', bool(good), 'no certificate is ever accepted')
            for o in good:
                if comm == 'committee':
                    r.ok('epoch', any(c[0] == 'cmp' and c[1] == 'eq' and {lastf(c[2]), lastf(c[3])} == {'epoch'} and
                                      len({root_of(c[2]), root_of(c[3])} & {1, 2}) == 2 for c in o.conds),
                         'a certificate is accepted without its epoch being that of the committee: %s' % r.otext(o))
                    if any(c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains' and
                           any(x.op == 'call' and leaf(x.a[0]) == 'genesis' for x in subterms(c[1])) for c in o.conds):
                        r.ok('genesis', any(c[0] == 'cmp' and c[1] == 'eq' and lastf(c[2]) == 'round' and c[3].op == 'c' and c[3].a[0] == 0 or
                                            c[0] == 'cmp' and c[1] == 'eq' and lastf(c[3]) == 'round' and c[2].op == 'c' and c[2].a[0] == 0 for c in o.conds),
                             'the genesis exception applies beyond round 0: %s' % r.otext(o))
                        continue
                    hv = [e for _, e in cidx(o, 'validate') if path_match(e.name, 'Header::validate')]
                    r.ok('header', any(ok_after(o, e) and root_of(e.args[0]) == 1 and root_of(e.args[1]) == 2 for e in hv),
                         'a certificate is accepted without a valid header: %s' % r.otext(o))
                else:
                    vr = cidx(o, 'validate_received')
                    vs = cidx(o, 'verify_signature')
                    r.ok('reset first', bool(vr) and bool(vs) and ok_after(o, vr[0][1]) and vr[0][0] < vs[0][0],
                         'a certificate is verified without discarding the state it came with: %s' % r.otext(o))
                sb = cidx(o, 'signed_by')
                vs = cidx(o, 'verify_signature')
                if not r.ok('signature verified', bool(vs) and any(ok_after(o, e) for _, e in vs), 'accepted without verifying the signature: %s' % r.otext(o)):
                    continue
                ks = vs[0][1].args[1]
                sbr = [e.res for _, e in sb]
                r.ok('signers are members', any(strip(s) in list(subterms(strip(ks))) for s in sbr) and
                     all(committee_keys(e.args[1], comm) for _, e in sb), 'the keys verified against are %s' % show(ks)[:200])
                q = False
                for c in o.conds:
                    if c[0] != 'cmp' or c[1] not in ('le', 'lt'):
                        continue
                    w, th = c[3], c[2]
                    if not any(strip(w) is strip(fld(s, '0')) for s in sbr):
                        continue
                    q = q or quorum_bound(r, th, c[1], comm)
                r.ok('quorum', q, 'accepted without the power of the signers reaching a quorum: %s' % r.otext(o))
    with r.section('signed_by'):
        b = r.fn(TY + 'Certificate::signed_by')
        g = r.graph(b, sides=False)
        cl = [x for x in r.F.bodies.values() if x.path.startswith(b.path + '::{closure')]
        if len(cl) != 1:
            r.undec.append('signed_by: %d closures' % len(cl))
        else:
            for o in r.outs(cl[0], sides=False):
                if o.exit != 'ret':
                    continue
                inc = [e for e in o.events if e.k in ('write', 'lwrite')]
                names = {}
                for e in inc:
                    names[strip(e.args[0]).id] = e.args[1]
                hit = o.ret.op == 'agg' and o.ret.a[1] == 'Some'
                if hit:
                    eqs = [c for c in o.conds if c[0] == 'cmp' and c[1] == 'eq']
                    r.ok('bit of the same member', any(any(x.op == 'call' and leaf(x.a[0]) == 'get' for x in subterms(c[2])) !=
                                                      any(x.op == 'call' and leaf(x.a[0]) == 'get' for x in subterms(c[3])) for c in eqs),
                         'a member counts as a signer without its bit being set: %s' % r.otext(o))
                    key = strip(fld(o.ret, '0'))
                    r.ok('key of that member', key.op == 'fld' and key.a[1] == '1' and key.a[0].op == 'param', 'the signer reported is %s' % show(key)[:100])
                ones = [e for e in inc if e.args[1].op == 'bin' and e.args[1].a[0] == 'Add' and con(1)(e.args[1].a[2]) and
                        strip(e.args[1].a[1]) is strip(e.args[0])]
                if inc:
                    r.ok('counted once', hit and len(ones) == len(inc) and len(names) == len(inc) <= 2,
                         'a member changes the counted power by %s when it is%s a signer' % ([show(e.args[1])[:80] for e in inc], '' if hit else ' not'))
                else:
                    r.ok('not counted', not hit or not inc, '')
    gop = ('process_peer_certificate', 'CertificateStore::write', 'CertificateStore>::write', 'Certificate::verify_cert', 'Certificate::validate_received', 'get_committee', 'behind_consensus')
    with r.section('claimed states are discarded'):
        g = r.graph('handler::RequestHandler::process_gossip::{closure#0}', sides=False, opaque=gop)
        r.all_before(g, ev_call('StateSynchronizer::process_peer_certificate'), ev_call('Certificate::validate_received|Certificate::verify_cert'),
                     inst='gossip: reset', msg='a gossiped certificate is processed with the verification state its sender claimed')
        r.all_before(g, ev_call('StateSynchronizer::process_peer_certificate'),
                     edge=lambda c: c[0] == 'is' and c[2] == 'Ok' and c[3] and c[1].op == 'call' and leaf(c[1].a[0]) == 'verify_cert',
                     inst='gossip: verified', msg='a gossiped certificate is processed although it does not verify')
        wr = lambda e: e.k == 'call' and path_match(e.decl or e.name, 'CertificateStore::write')
        if g.events(wr):
            r.before(g, wr, edge=lambda c: c[0] == 'is' and c[2] == 'Ok' and c[3] and c[1].op == 'call' and leaf(c[1].a[0]) == 'verify_cert',
                     inst='gossip: stored', msg='a gossiped certificate is stored although it does not verify')
        g = r.graph('handler::RequestHandler::vote_inner::{closure#0}', sides=False,
                    opaque=('process_peer_certificate', 'check_for_missing_parents', 'Header::validate', 'verify_secure', 'wait_for_execution'))
        evs = g.calls('StateSynchronizer::process_peer_certificate')
        r.ok('parents: sites', bool(evs), 'parents sent with a vote request are not processed')
        for n, i, e in evs:
            t = e.args[1]
            s = t
            if s.op == 'elem':
                s = s.a[0]
            reset_first = r_reset_before(g, n, i, e)
            v = 'yes' if reset_first else sanitised(r, s, g)
            if v is None:
                r.undec.append('parents: %s' % show(t)[:300])
            else:
                r.ok('parents: reset', v == 'yes', 'parents sent with a vote request keep the verification state the requester claimed: %s' % show(t)[:200], r.where(n, e))
        # fetched
        vt = [b for b in r.bodies('tn_primary') if '::spawn_verification_task::{closure' in b.path or b.path.endswith('::spawn_verification_task')]
        direct = False
        for b in vt:
            g = r.graph(b, sides=False, opaque=('Certificate::validate_received', 'CertificateValidator::validate_and_verify'))
            d = ev_call('CertificateValidator::validate_and_verify')
            if g.events(d) and g.find_path(d, avoid_ev=ev_call('Certificate::validate_received')) is None:
                direct = True
        bad = []
        n_ok = 0
        for o in r.rets('certificate_fetcher::fetch_from_peers::{closure#0}', sides=False, opaque=('validate_fetched_certificate', 'spawn_peer_fetch', 'validate_received')):
            if is_err(o.ret):
                continue
            n_ok += 1
            v = sanitised(r, fld(o.ret, '0') if o.ret.op == 'agg' else o.ret)
            if v == 'no':
                bad.append(o)
            elif v is None:
                r.undec.append('fetched: %s' % show(o.ret)[:300])
        r.ok('fetched: sites', n_ok > 0, 'no certificate is ever fetched')
        r.ok('fetched: reset', direct or not bad, 'fetched certificates keep the verification state the responder claimed: %s' % (r.otext(bad[0]) if bad else ''))
        for b, x in r.callers('StateSynchronizer::process_fetched_certificates_in_parallel', 'tn_primary'):
            gg = r.graph(b, sides=False, opaque=('fetch_from_peers', 'process_fetched_certificates_in_parallel'))
            for n, i, e in gg.calls('StateSynchronizer::process_fetched_certificates_in_parallel'):
                src = [z for z in subterms(e.args[1]) if z.op == 'call' and leaf(z.a[0]) in ('fetch_from_peers', 'fetch_missing_certificates', 'read_sync_certificates', 'fetch_certificates')]
                if not src:
                    r.undec.append('fetched certificates come from %s' % show(e.args[1])[:200])
                else:
                    r.ok('fetched: source', direct or any(leaf(z.a[0]) == 'fetch_from_peers' for z in src), 'certificates are processed straight from the peer: %s' % show(e.args[1])[:150])
    with r.section('processing'):
        g = r.graph('CertificateValidator::process_certificate::{closure#0}', sides=False,
                    opaque=('Certificate::validate_and_verify', 'forward_verified_certs', 'gc_round'))
        vok = lambda c: c[0] == 'is' and c[2] == 'Ok' and c[3] and c[1].op == 'call' and path_match(c[1].a[0], 'Certificate::validate_and_verify')
        ext = lambda c: c[0] == 'true' and not c[2] and lastf(c[1]) == 'external'
        r.all_before(g, ev_call('CertificateValidator::forward_verified_certs'), edge=lambda c: vok(c) or ext(c), inst='peer certificates verified',
                     msg='a certificate of a peer is forwarded without having been verified')
        for n, i, e in g.calls('Certificate::validate_and_verify'):
            k = strip(e.args[1])
            r.ok('current committee', k.op == 'call' and leaf(k.a[0]) == 'committee', 'verified against %s' % show(k)[:150])
        for nm, val in (('process_peer_certificate', 1), ('process_own_certificate', 0)):
            gg = r.graph('CertificateValidator::%s::{closure#0}' % nm, sides=False, opaque=('CertificateValidator::process_certificate',))
            evs = gg.calls('CertificateValidator::process_certificate')
            r.ok('%s: sites' % nm, bool(evs), '%s does not process the certificate' % nm)
            for n, i, e in evs:
                r.ok('%s: external' % nm, any(a.op == 'c' and int(bool(a.a[0])) == val for a in e.args[2:]), 'processed as %s' % [show(a) for a in e.args[2:]])
        g = r.graph('CertificateValidator::process_fetched_certificates_in_parallel::{closure#0}', sides=False,
                    opaque=('requires_direct_verification', 'mark_verified_indirectly', 'forward_verified_certs', 'spawn_verification_task', 'verify_certificate_chunk'))
        r.before(g, ev_call('CertificateValidator::mark_verified_indirectly'),
                 edge=lambda c: c[0] == 'true' and not c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'requires_direct_verification',
                 inst='indirect only when allowed', msg='a fetched certificate counts as verified although it had to be verified directly')
        vc = ev_call('CertificateValidator::verify_certificate_chunk')
        r.ok('chunk: sites', bool(g.events(vc)), 'fetched certificates are not verified')
        r.all_before(g, ev_call('CertificateValidator::forward_verified_certs'),
                     edge=lambda c: (c[0] == 'is' and c[2] == 'Ok' and c[3] and any(x.op == 'call' and leaf(x.a[0]) == 'verify_certificate_chunk' for x in subterms(c[1]))) or
                     (c[0] == 'cmp' and c[1] == 'eq' and any(x.op == 'call' and leaf(x.a[0]) == 'len' for x in (c[2], c[3])) and any(con(0)(x) for x in (c[2], c[3]))),
                     inst='fetched certificates verified', msg='fetched certificates are forwarded although their direct verification did not succeed')
        for o in r.rets('CertificateValidator::verify_certificate_chunk::{closure#0}', sides=False, opaque=('spawn_verification_task',)):
            if not is_err(o.ret):
                r.ok('every chunk', any(c[0] == 'is' and c[2] == 'Ok' and not c[3] and show(c[1]).startswith('next(') for c in o.conds) or
                     not any(e.k == 'call' and leaf(e.name) == 'next' for e in o.events),
                     'the result is returned before every chunk was verified: %s' % r.otext(o))
        for o in r.rets('CertificateValidator::requires_direct_verification', sides=False):
            v = strip(o.ret)
            par_no = any(c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains' and
                         root_of(c[1].a[1][0]) == 3 and any(x.op == 'call' and leaf(x.a[0]) == 'digest' or (x.op == 'fld' and x.a[1] == 'digest') for x in subterms(c[1].a[1][1])) for c in o.conds)
            if v.op == 'c' and not v.a[0] or v.op != 'c':
                r.ok('leaf certificates are verified directly', par_no, 'a certificate that no other one refers to is not verified directly: %s' % r.otext(o))
            if v.op != 'c':
                r.ok('interval', any(x.op == 'fld' and x.a[1] == 'certificate_verification_round_interval' for x in subterms(v)), 'the rounds verified directly are %s' % show(v)[:200])
            elif not v.a[0]:
                r.ok('interval', any(x.op == 'fld' and x.a[1] == 'certificate_verification_round_interval' for c in o.conds for y in c[1:] if isinstance(y, T) for x in subterms(y)),
                     'certificates of every round may be accepted indirectly: %s' % r.otext(o))
        for b in vt:
            g = r.graph(b, sides=False, opaque=('CertificateValidator::validate_and_verify',))
            if not g.calls('CertificateValidator::validate_and_verify'):
                continue
            for o in r.outs(g):
                if might_ok(o) and o.ret.op == 'agg' and o.ret.a[1] == 'Ok':
                    vs = cidx(o, 'validate_and_verify')
                    r.ok('every certificate of a chunk', all(ok_after(o, e) for _, e in vs) and
                         (bool(vs) or all(not (c[0] == 'is' and c[2] == 'Ok' and c[3] and c[1].op in ('next', 'call') and 'next' in show(c[1])[:6]) for c in o.conds)),
                         'a chunk is reported as verified although a certificate in it was not: %s' % r.otext(o))
        for o in r.rets('CertificateValidator::validate_and_verify', sides=False, opaque=('Certificate::validate_and_verify', 'gc_round')):
            if might_ok(o):
                vs = cidx(o, 'validate_and_verify')
                r.ok('verification not skipped', bool(vs) and ok_after(o, vs[0][1]), 'a certificate is accepted without verification: %s' % r.otext(o))
    with r.section('manager'):
        g = r.graph('CertificateManager::process_verified_certificates::{closure#0}', sides=False,
                    opaque=('is_verified', 'accept_verified_certificates', 'insert_pending', 'update_pending', 'get_missing_parents', 'gc_round'))
        ver = lambda c: c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_verified'
        for nm in ('accept_verified_certificates', 'insert_pending'):
            r.all_before(g, ev_call('*::' + nm) if False else (lambda e, nm=nm: e.k == 'call' and leaf(e.name) == nm), edge=ver, inst=nm,
                         msg='an unverified certificate is %s' % ('accepted' if nm[0] == 'a' else 'kept as pending'))
        guarded = set()
        for gg in (r.graph('CertificateManager::accept_verified_certificates::{closure#0}', sides=False),
                   r.graph('handler::RequestHandler::process_gossip::{closure#0}', sides=False, opaque=gop)):
            guarded |= {gg.entry.path} | set(gg.inlined)
        for pat in ('CertificateStore::write_all', 'CertificateStore::write'):
            for b, _ in r.callers(pat, 'tn_primary'):
                r.ok('store: %s' % leaf(pat), b.path in guarded, 'certificates are written to the store by %s, which is not shown to verify them' % b.path)


def lastf(t):
    t = strip(t)
    while t.op == 'cast':
        t = t.a[1]
    if t.op == 'fld':
        return t.a[1]
    if t.op == 'call':
        return leaf(t.a[0])
    return None


def root_of(t):
    t = strip(t)
    while True:
        if t.op in ('fld', 'as', 'upd', 'upd!'):
            t = t.a[0]
        elif t.op == 'call' and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'param':
            return t.a[0]
        else:
            return None


def committee_keys(t, comm):
    t = strip(t)
    if comm == 'set':
        return t.op == 'param' and t.a[0] == 2
    names = {leaf(x.a[0]) for x in subterms(t) if x.op == 'call'} | {x.a[1] for x in subterms(t) if x.op == 'fld'}
    return root_of(t) == 2 and bool(names & {'bls_keys', 'authorities', 'authorities_by_id'}) or \
        (any(x.op == 'param' and x.a[0] == 2 for x in subterms(t)) and 'authorities' in names)


def quorum_bound(r, th, op, comm):
    """weight >= th (op le) or weight > th (op lt) implies weight >= quorum"""
    th = strip(th)
    if op == 'le' and lastf(th) == 'quorum_threshold':
        return True
    atoms = [x for x in subterms(th) if x.op == 'call' and leaf(x.a[0]) == 'len']
    if len({a.id for a in atoms}) != 1:
        return False

    def ev(t, n):
        t = strip(t)
        if t.op == 'cast':
            return ev(t.a[1], n)
        if t.op == 'c':
            return t.a[0]
        if t is atoms[0]:
            return n
        if t.op == 'bin':
            a, b = ev(t.a[1], n), ev(t.a[2], n)
            if a is None or b is None:
                return None
            return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a // b if b else None}.get(t.a[0])
        return None
    for n in range(1, 40):
        v = ev(th, n)
        if v is None:
            return False
        if v + (op == 'lt') < 2 * n // 3 + 1:
            return False
    return True


def r_reset_before(g, n, i, e):
    """the very certificate is reset (validate_received) on every path before event i of node n"""
    def rst(x):
        return x.k == 'call' and leaf(x.name) == 'validate_received' and strip(x.args[0]) is strip(e.args[1])
    return bool(g.events(rst)) and g.find_path(lambda x: x is e, avoid_ev=rst) is None
