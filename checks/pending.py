"""Certificates enter the graph after their parents (C45)."""
from .consensus import *

CM = r'cert_manager::CertificateManager::'
PM = r'pending_cert_manager::PendingCertificateManager::'
OPP = ('is_verified', 'is_pending', 'gc_round', 'get_missing_parents', 'insert_pending', 'update_pending', 'accept_verified_certificates', 'next_for_gc_round', 'round', 'digest',
       'multi_contains', 'write_all', 'append_certificate', 'new_certificates', 'certificate_fetcher', 'parents', 'genesis', 'num_pending', 'garbage_collect')
F = lambda t, f: strip(t).op == 'fld' and strip(t).a[1] == f


def okof(t):
    """the value a fallible call returned"""
    t = strip(t)
    while t.op == 'fld' and str(t.a[1]) == '0' or t.op == 'as':
        t = strip(t.a[0])
    return t


def calls(o, *names):
    return [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in names]


def emptiness(c, p):
    """True/False if a condition says that the collection p is empty/not empty"""
    if c[0] == 'true' and iscall(strip(c[1]), 'is_empty') and p(strip(c[1]).a[1][0]):
        return c[2]
    if c[0] == 'cmp':
        for a, b, w in ((c[2], c[3], 0), (c[3], c[2], 1)):
            L = strip(a)
            if (iscall(L, 'len') and p(L.a[1][0]) or L.op == 'len' and p(L.a[0])) and is_const(strip(b)):
                k = strip(b).a[0]
                if c[1] == 'eq' and k == 0 or c[1] == 'le' and k == 0 and w == 0 or c[1] == 'lt' and k == 1 and w == 0:
                    return True
                if c[1] == 'ne' and k == 0 or c[1] == 'lt' and k == 0 and w == 1 or c[1] == 'le' and k == 1 and w == 1:
                    return False
    return None


@check('C45', ['tn_primary', 'tn_types'])
def c45(r):
    with r.section('arrival'):
        arrival(r)
    with r.section('parents'):
        parents(r)
    with r.section('acceptance'):
        acceptance(r)
    with r.section('waiting'):
        waiting(r)
    with r.section('release'):
        release(r)
    with r.section('collection'):
        collection(r)
    with r.section('who accepts'):
        who(r)


def arrival(r):
    b = bodyre(r, CM + r'process_verified_certificates::\{closure#0\}$')
    na = ni = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        for i, e in calls(o, 'accept_verified_certificates', 'insert_pending'):
            cs = o.before(i)
            t = ' & '.join(showc(c)[-140:] for c in cs[-4:])
            gm = [strip(c[1]) for c in cs if c[0] == 'is' and c[3] and iscall(strip(c[1]), 'get_missing_parents')]
            if leaf(e.name) == 'insert_pending':
                ni += 1
                X = strip(e.args[1])
                mine = [g for g in gm if strip(g.a[1][1]) == X]
                r.ok('waits for the missing parents', mine and okof(e.args[2]) == mine[0], 'a certificate is kept waiting for %s' % show(e.args[2])[:120])
                r.ok('only what misses parents waits', any(emptiness(c, lambda z: okof(z) in mine) is False for c in cs) or not mine, 'a certificate waits without a missing parent [%s]' % t)
            else:
                na += 1
                ups = [z for z in subterms(e.args[1]) if iscall(z, 'update_pending')]
                put = [y for y in o.events[:i] if y.k == 'call' and leaf(y.name) in ('push_front', 'push_back', 'insert', 'extend') and len(y.args) > 1]
                fr = [y for y in put if leaf(y.name) == 'push_front']
                if len(put) != 1 or not ups:
                    r.undec.append('process_verified_certificates: accepts %s' % show(e.args[1])[:120])
                    if not fr:
                        continue
                X = strip(put[-1].args[1])
                r.ok('before what it unlocks', leaf(put[-1].name) == 'push_front' or not ups or contains(put[-1].args[0], lambda z: iscall(z, 'new')), 'a certificate is passed on after those waiting for it')
                for z in ups[:1]:
                    r.ok('what it unlocks', rnd(z.a[1][1], lambda q: q == X) and iscall(strip(z.a[1][2]), 'digest') and strip(strip(z.a[1][2]).a[1][0]) == X, 'unlocks those waiting for %s, %s' % (show(z.a[1][1])[:80], show(z.a[1][2])[:80]))
                mine = [g for g in gm if strip(g.a[1][1]) == X]
                none = any(emptiness(c, lambda z: okof(z) in mine) for c in cs)
                edge = any(c[0] == 'cmp' and c[1] == 'le' and rnd(c[2], lambda q: q == X) and any(off(c[3], lambda q: iscall(q, 'gc_round'), k) for k in (0, 1)) or
                           c[0] == 'cmp' and c[1] == 'lt' and rnd(c[2], lambda q: q == X) and any(off(c[3], lambda q: iscall(q, 'gc_round'), k) for k in (0, 1, 2)) for c in cs)
                if not (none or edge) and any('gc_round' in showc(c) for c in cs) and any(c[0] == 'true' and strip(c[1]).op == 'bin' for c in cs):
                    r.undec.append('process_verified_certificates: %s' % t)
                else:
                    r.ok('all parents are there or collected', none or edge, 'a certificate is accepted although parents may be missing [%s]' % t)
            r.ok('verified certificates only', any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'is_verified') and strip(strip(c[1]).a[1][0]) == X for c in cs), 'an unverified certificate is let in [%s]' % t)
            r.ok('not while it waits', any(c[0] == 'true' and not c[2] and iscall(strip(c[1]), 'is_pending') and contains(strip(c[1]).a[1][1], lambda q: q == X) for c in cs), 'a waiting certificate is taken again [%s]' % t)
    r.ok('certificates are accepted', na and ni, 'certificates are never %s' % ('kept waiting' if na else 'accepted'))


def parents(r):
    b = bodyre(r, CM + r'get_missing_parents::\{closure#0\}$')
    CE = lambda t: envarg(t) == 'certificate'
    par = lambda t: contains(t, lambda z: iscall(z, 'parents') and contains(z, CE))
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        rt = strip(o.ret) if o.exit == 'ret' else None
        if rt is None or rt.op != 'agg' or rt.a[1] != 'Ok':
            continue
        v = bare(dict(rt.a[2]).get('0', dict(rt.a[2]).get(0)))
        t = txt(o, 220)
        first = any(c[0] == 'cmp' and c[1] == 'eq' and both(c[2:4], lambda q: rnd(q, CE), lambda q: is_const(strip(q)) and strip(q).a[0] == 1) for c in o.conds)
        exists = [c for c in o.conds if c[0] == 'is' and c[3] and iscall(strip(c[1]), 'multi_contains')]
        if iscall(v, 'new', 'default') or v.op == 'agg' and not v.a[2]:
            if first:
                it = [c for c in o.conds if cp.isnext(c) and c[3]]
                gen = [c for c in o.conds if c[0] == 'true' and c[2] and (iscall(strip(c[1]), 'contains_key', 'contains') and contains(c[1], lambda z: iscall(z, 'genesis')) or iscall(strip(c[1]), 'all'))]
                none = any(c[0] == 'true' and not c[2] and iscall(strip(c[1]), 'any') for c in o.conds) or any(c[0] == 'is' and not c[3] and iscall(strip(c[1]), 'find') for c in o.conds)
                loops = any(cp.isnext(c) for c in o.conds)
                r.ok('first round parents are genesis', gen or none or loops and not it, 'a certificate of the first round with other parents is accepted [%s]' % t)
                n += 1
            elif exists:
                r.undec.append('get_missing_parents: %s' % t)
            else:
                r.ok('parents are looked up', False, 'no parent is missing whatever the store holds [%s]' % t)
            continue
        if first:
            r.undec.append('get_missing_parents: first round %s' % show(v)[:100])
            continue
        try:
            es = r.emits(v)
        except NotComp as x:
            r.undec.append('get_missing_parents: %s' % x)
            continue
        n += 1
        if len(es) != 1:
            r.undec.append('get_missing_parents: %d kinds of parents' % len(es))
            continue
        e = es[0]
        r.ok('missing are parents', par(e.val), 'reports %s' % show(e.val)[:120])
        zips = [z for z in subterms(v) if iscall(z, 'zip') and len(z.a[1]) == 2 and contains(z.a[1][1], lambda q: iscall(q, 'multi_contains'))]
        MC = lambda t: contains(t, lambda z: iscall(z, 'multi_contains', 'contains', 'read', 'get')) or zips and F(t, '1')
        pos = [c for c in e.conds if c[0] == 'true' and MC(c[1])]
        if len(e.conds) != 1 or not pos and e.conds[0][0] != 'is':
            r.undec.append('get_missing_parents: kept when %s' % [showc(c)[:100] for c in e.conds]) if e.conds else r.ok('missing are those not stored', False, 'every parent is reported missing')
            continue
        for c in pos:
            r.ok('missing are those not stored', not c[2], 'a parent counts as missing when it is stored')
            m = [z for z in subterms(v) if iscall(z, 'multi_contains')]
            for z in m[:1]:
                r.ok('all parents are looked up', par(z.a[1][1]) and not any(iscall(q, 'skip', 'take', 'filter', 'step_by', 'rev', 'skip_while', 'take_while') for q in subterms(z.a[1][1])), 'looks up %s' % show(z.a[1][1])[:120])
    r.ok('parents are looked up', n, 'parents are never looked up')


def acceptance(r):
    b = bodyre(r, CM + r'accept_verified_certificates::\{closure#0\}$')
    C = lambda t: contains(t, lambda z: envarg(z) == 'certificates' and z.op != 'param')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        for i, e in calls(o, 'append_certificate', 'send'):
            x = strip(e.args[1])
            if leaf(e.name) == 'send' and not contains(e.args[0], lambda z: iscall(z, 'new_certificates')):
                continue
            n += leaf(e.name) == 'send'
            cs = o.before(i)
            w = [strip(c[1]) for c in cs if c[0] == 'is' and c[3] and c[2] == 'Ok' and iscall(strip(c[1]), 'write_all', 'write')]
            r.ok('stored before passed on', w, 'a certificate is passed on before it is stored [%s]' % ' & '.join(showc(c)[:100] for c in cs[-3:]))
            for z in w[:1]:
                r.ok('all are stored', C(z.a[1][1]) and not any(iscall(q, 'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while') for q in subterms(z.a[1][1])), 'stores %s' % show(z.a[1][1])[:100])
            r.ok('in the order of release', x.op == 'elem' and C(x) and not any(iscall(q, 'rev') for q in subterms(x)) or not contains(x, lambda q: q.op == 'elem'), 'passes on %s' % show(x)[:100])
        if o.exit == 'ret' and strip(o.ret).op == 'agg' and strip(o.ret).a[1] == 'Ok' and any(cp.isnext(c) and c[3] for c in o.conds):
            r.ok('everything accepted is passed on', any(contains(e.args[0], lambda z: iscall(z, 'new_certificates')) for _, e in calls(o, 'send')), 'a stored certificate is not passed on')
    r.ok('certificates are passed on', n, 'accepted certificates are never passed on')


def waiting(r):
    b = bodyre(r, PM + 'insert_pending$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        if o.exit != 'ret' or strip(o.ret).op != 'agg' or strip(o.ret).a[1] != 'Ok':
            continue
        cert = lambda t: param_of(strip(t)) == 2
        dg = lambda t: iscall(strip(t), 'digest') and cert(strip(t).a[1][0])
        ins = [(i, e) for i, e in calls(o, 'insert')]
        p = [e for _, e in ins if F(e.args[0], 'pending')]
        m = [e for _, e in ins if contains(e.args[0], lambda z: F(z, 'missing_for_pending'))]
        if not p and not any(e.k == 'call' and e.args and F(e.args[0], 'pending') for e in o.events):
            r.ok('the certificate waits', False, 'a certificate with missing parents is forgotten')
        for e in p:
            r.ok('under its digest', dg(e.args[1]), 'kept under %s' % show(e.args[1])[:80])
            v = strip(e.args[2])
            if v.op == 'agg':
                fs = dict(v.a[2])
                r.ok('with its missing parents', cert(fs.get('certificate', v)) and param_of(strip(fs.get('missing_parent_digests', v))) == 3, 'kept with %s' % show(v)[:120])
        each = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('for_each', 'try_for_each', 'fold', 'extend') and e.args and contains(e.args[0], lambda q: param_of(q) == 3)]
        if each and not m:
            n += 1
            r.undec.append('insert_pending: noted by %s' % leaf(each[0].name))
        elif m or any(cp.isnext(c) and c[3] for c in o.conds):
            n += 1
            r.ok('noted under every missing parent', m, 'a missing parent does not know who waits for it')
            for e in m:
                en = [z for z in subterms(e.args[0]) if iscall(z, 'entry')]
                for z in en[:1]:
                    k = strip(z.a[1][1])
                    if k.op == 'agg' and len(k.a[2]) == 2:
                        a, d = (q for _, q in k.a[2])
                        r.ok('at the round before', off(a, lambda q: rnd(q, cert), -1) or iscall(strip(a), 'saturating_sub') and rnd(strip(a).a[1][0], cert) and amount(strip(a).a[1][1]) == 1, 'noted at round %s' % show(a)[:80])
                        r.ok('noted under every missing parent', strip(d).op == 'elem' and contains(d, lambda q: param_of(q) == 3), 'noted under %s' % show(d)[:80])
                if len(e.args) > 1 and not F(e.args[0], 'missing_for_pending'):
                    r.ok('who waits', dg(e.args[1]), 'noted %s' % show(e.args[1])[:80])
    r.ok('missing parents are noted', n, 'missing parents are never noted')


def release(r):
    b = bodyre(r, PM + 'update_pending$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        if o.exit != 'ret' or strip(o.ret).op != 'agg' or strip(o.ret).a[1] != 'Ok':
            continue
        rem = [(i, e) for i, e in calls(o, 'remove', 'remove_entry')]
        miss = [(i, e) for i, e in rem if F(e.args[0], 'missing_for_pending')]
        own = [(i, e) for i, e in rem if contains(e.args[0], lambda z: F(z, 'missing_parent_digests'))]
        gone = [(i, e) for i, e in rem if F(e.args[0], 'pending')]
        for i, e in miss:
            k = strip(e.args[1])
            if k.op == 'agg' and len(k.a[2]) == 2 and own:
                d = strip(k.a[2][1][1])
                r.ok('the parent that arrived', all(strip(y.args[1]) == d for _, y in own), 'strikes out %s for %s' % (show(own[0][1].args[1])[-80:], show(d)[-80:]))
        for i, e in gone:
            n += 1
            cs = o.before(i)
            q = lambda z: F(z, 'missing_parent_digests')
            em = [emptiness(c, lambda z: contains(z, lambda y: q(y)) or q(z)) for c in cs]
            r.ok('released when no parent is missing', True in em, 'released while parents may be missing [%s]' % ' & '.join(showc(c)[-120:] for c in cs[-3:]))
            r.ok('the parent is struck out first', any(j < i for j, _ in own), 'released without striking out the parent')
            r.ok('those that wait for it', strip(e.args[1]).op == 'elem', 'releases %s' % show(e.args[1])[:100])
            put = [(j, y) for j, y in calls(o, 'push_back', 'push_front', 'push', 'insert') if j > i and len(y.args) > 1]
            cert = [y for _, y in put if contains(y.args[1], lambda z: strip(z) == strip(e.res) or z == e.res) and strip(y.args[1]).op != 'agg']
            nxt = [y for _, y in put if strip(y.args[1]).op == 'agg' and len(strip(y.args[1]).a[2]) == 2]
            r.ok('released certificates are returned', cert, 'a released certificate is lost')
            r.ok('released after their parents', all(leaf(y.name) != 'push_front' for y in cert), 'a released certificate precedes its parents')
            r.ok('and what waits for those', nxt, 'those waiting for a released certificate stay behind')
            for y in nxt[:1]:
                a, d = (z for _, z in strip(y.args[1]).a[2])
                r.ok('and what waits for those', contains(a, lambda z: iscall(z, 'round') and contains(z, lambda w: strip(w) == strip(e.res))) and (strip(d) == strip(e.args[1]) or iscall(strip(d), 'digest')), 'goes on with %s, %s' % (show(a)[-80:], show(d)[-80:]))
        if own and not gone:
            em = [emptiness(c, lambda z: contains(z, lambda y: F(y, 'missing_parent_digests'))) for c in o.conds]
            r.ok('released with the last parent', True not in em, 'a certificate without missing parents keeps waiting')
    r.ok('waiting certificates are released', n, 'waiting certificates are never released')


def collection(r):
    b = bodyre(r, PM + 'next_for_gc_round$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP[:-1], loops=1):
        if o.exit != 'ret' or strip(o.ret).op != 'agg':
            continue
        if strip(o.ret).a[1] == 'Some':
            n += 1
            r.ok('collected parents only', any(c[0] == 'cmp' and c[1] in ('le', 'lt') and param_of(strip(c[3])) == 2 and contains(c[2], lambda z: F(z, 'missing_for_pending')) for c in o.conds), 'a parent that is not collected is given up [%s]' % txt(o, 200))
            r.ok('the oldest first', contains(o.ret, lambda z: iscall(z, 'first_key_value', 'pop_first', 'first_entry', 'next', 'range', 'min')) or contains(o.ret, lambda z: z.op == 'elem'), 'takes %s' % show(o.ret)[:100])
    r.ok('collected parents are given up', n, 'certificates whose parents are collected wait for ever')
    b = bodyre(r, CM + r'process_gc_round::\{closure#0\}$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPP, loops=1):
        for i, e in calls(o, 'accept_verified_certificates'):
            n += 1
            u = okof(e.args[1])
            r.ok('what a collected parent held', iscall(u, 'update_pending') and contains(u.a[1][2], lambda z: iscall(z, 'next_for_gc_round')), 'accepts %s' % show(e.args[1])[:120])
        for i, e in calls(o, 'next_for_gc_round'):
            r.ok('the collected round', iscall(strip(e.args[1]), 'gc_round'), 'collects up to %s' % show(e.args[1])[:80])
        up = calls(o, 'update_pending')
        if up and o.exit == 'ret' and strip(o.ret).op == 'agg' and strip(o.ret).a[1] == 'Ok':
            r.ok('what a collected parent held', calls(o, 'accept_verified_certificates'), 'released certificates are lost')
    r.ok('collection releases', n, 'certificates whose parents are collected wait for ever')


def who(r):
    """nothing is passed on to consensus around the manager"""
    own = 'state_sync::cert_manager::'
    cl = r.callers(r'ConsensusBus::new_certificates')
    r.ok('accepted certificates go through the manager', any(own in b.path for b, _ in cl), 'accepted certificates are never passed on')
    for b, x in cl:
        sends = any(bb['x']['k'] == 'call' and 'c' in bb['x']['f'] and leaf(bb['x']['f']['c'].get('decl') or bb['x']['f']['c'].get('fn') or '') in ('send', 'try_send') for bb in b.d['bbs'] if not bb.get('c'))
        r.ok('accepted certificates go through the manager', own in b.path or not sends, '%s passes certificates on to consensus' % b.path)
