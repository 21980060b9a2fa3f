"""Epoch records: the certified chain of committees (C47)."""
from .network import *

REC = r'tn_types::primary::epoch::EpochRecord::'
DB = r'tn_storage::epoch_records::EpochRecordDb::'
OPQ = ('committee_compatible', 'verify_with_cert', 'super_quorum', 'digest', 'verify_secure', 'verify_raw')


def same(conds, a, b):
    """do the conditions say that two terms are equal"""
    return a is b or a == b or any(c[0] == 'cmp' and c[1] == 'eq' and {c[2].id, c[3].id} == {a.id, b.id} for c in conds)


def named(t, *path):
    """is a term the field path of an argument (by name)"""
    t = strip(t)
    ns = []
    while t.op == 'fld':
        ns.append(t.a[1])
        t = t.a[0]
    if t.op == 'param':
        ns.append(t.a[1])
    return tuple(reversed(ns))[-len(path):] == path


def iscall(t, *names):
    return t.op == 'call' and leaf(t.a[0]) in names


def bare(t):
    """a slice or copy of a list is that list"""
    t = strip(t)
    while t.op == 'call' and t.a[1] and (leaf(t.a[0]) in ('as_slice', 'deref', 'as_ref', 'clone', 'to_vec', 'as_mut_slice', 'borrow') or
                                         leaf(t.a[0]) == 'index' and is_full(t.a[1][1])):
        t = strip(t.a[1][0])
    return t


def envarg(t):
    """name of the argument a term is (not of a part of it)"""
    t = strip(t)
    return t.a[1] if t.op == 'fld' and t.a[0].op == 'param' or t.op == 'param' else None


def numeval(t, env):
    t = strip(t)
    if is_const(t):
        return t.a[0]
    for k, v in env:
        if k(t):
            return v
    if t.op == 'cast':
        return numeval(nocast(t), env)
    if t.op == 'bin':
        a, b = numeval(t.a[1], env), numeval(t.a[2], env)
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        f = {'Add': lambda: a + b, 'Sub': lambda: max(a - b, 0), 'Mul': lambda: a * b, 'Div': lambda: a // b, 'Rem': lambda: a % b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
             'Gt': lambda: a > b, 'Ge': lambda: a >= b, 'Eq': lambda: a == b, 'Ne': lambda: a != b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b}.get(o)
        if f is None:
            raise NotComp('operator %s' % o)
        return f()
    if t.op == 'un' and t.a[0] == 'Not':
        return not numeval(t.a[1], env)
    if iscall(t, 'div_ceil'):
        a, b = (numeval(x, env) for x in t.a[1])
        return -(-a // b)
    if iscall(t, 'saturating_mul', 'wrapping_mul', 'saturating_add', 'wrapping_add', 'saturating_sub', 'max', 'min'):
        a, b = (numeval(x, env) for x in t.a[1])
        n = leaf(t.a[0])
        return a * b if n.endswith('mul') else a + b if n.endswith('add') else max(a, b) if n == 'max' else min(a, b) if n == 'min' else max(a - b, 0)
    raise NotComp(show(t)[:120])


def holds(c, env):
    if c[0] == 'const':
        return c[1]
    if c[0] == 'cmp':
        try:
            a, b = numeval(c[2], env), numeval(c[3], env)
        except NotComp:
            # equality of two sets
            for k, v in env:
                if k(mk('setcmp', c[2], c[3])):
                    return v if c[1] == 'eq' else not v
            raise
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b}[c[1]]
    if c[0] == 'true':
        return bool(numeval(c[1], env)) == c[2]
    if c[0] == 'is' and iscall(strip(c[1]), 'cmp') and c[2] in ('Less', 'Equal', 'Greater'):
        a, b = (numeval(x, env) for x in strip(c[1]).a[1])
        return ({'Less': a < b, 'Equal': a == b, 'Greater': a > b}[c[2]]) == c[3]
    if c[0] == 'isin' and iscall(strip(c[1]), 'cmp'):
        a, b = (numeval(x, env) for x in strip(c[1]).a[1])
        k = 'Less' if a < b else 'Equal' if a == b else 'Greater'
        return k not in c[2]
    raise NotComp(showc(c)[:120])


@check('C47', ['tn_types', 'tn_storage', 'state_sync'])
def c47(r):
    SELF = lambda t, f: field_path(strip(t)) is not None and strip(t).op == 'fld' and strip(t).a[1] == f and param_of(strip(t).a[0]) == 1
    COMM = lambda t: SELF(t, 'committee')
    with r.section('quorum'):
        for o in r.outs(bodyre(r, REC + 'super_quorum$'), sides=False):
            if o.exit != 'ret':
                continue
            for n in range(0, 60):
                env = [(lambda z: iscall(z, 'len') and COMM(bare(z.a[1][0])), n)]
                try:
                    if not all(holds(c, env) for c in o.conds):
                        continue
                    v = numeval(o.ret, env)
                except NotComp as x:
                    r.undec.append('super_quorum: %s' % x)
                    break
                r.ok('two thirds plus one', v >= n * 2 // 3 + 1, 'a committee of %d needs %s signatures' % (n, v))
                r.ok('a quorum can be reached', v <= max(n, 1), 'a committee of %d needs %s signatures' % (n, v))
    with r.section('certificate'):
        cert(r, COMM)
    with r.section('committee'):
        outs = r.outs(bodyre(r, REC + 'committee_compatible$'), sides=False)
        EXP = lambda t: param_of(bare(t)) == 2
        SET = lambda t: bare(t).op == 'call' and leaf(bare(t).a[0]) in ('collect', 'from_iter') and COMM(over(bare(t)))
        bad = set()
        for n in range(0, 14):
            for e in range(0, 20):
                for d in ((n, n - 1) if n > 1 else (n,)):
                    for sub, sup, dis in ((True, True, n == 0), (True, False, n == 0), (False, True, e == 0), (False, False, False), (False, False, True)):
                        if sub and d > e or sup and d < e or (sub and sup) != (sub and d == e) or sub and d == e and not sup or sup and d == e and not sub:
                            continue
                        env = [(lambda z: iscall(z, 'len', 'count') and COMM(over(bare(z.a[1][0]))) and not SET(z.a[1][0]), n),
                               (lambda z: iscall(z, 'len') and SET(z.a[1][0]), d),
                               (lambda z: iscall(z, 'len', 'count') and EXP(over(bare(z.a[1][0]))), e),
                               (lambda z: iscall(z, 'is_empty') and COMM(bare(z.a[1][0])), n == 0),
                               (lambda z: iscall(z, 'is_empty') and EXP(z.a[1][0]), e == 0),
                               (lambda z: iscall(z, 'is_subset') and SET(z.a[1][0]) and EXP(z.a[1][1]) or iscall(z, 'is_superset') and EXP(z.a[1][0]) and SET(z.a[1][1]), sub),
                               (lambda z: iscall(z, 'is_superset') and SET(z.a[1][0]) and EXP(z.a[1][1]) or iscall(z, 'is_subset') and EXP(z.a[1][0]) and SET(z.a[1][1]), sup),
                               (lambda z: iscall(z, 'is_disjoint') and both(z.a[1], SET, EXP), dis),
                               (lambda z: iscall(z, 'all') and inside(r, z, COMM, EXP), sub),
                               (lambda z: (z.op == 'setcmp' or iscall(z, 'eq')) and both(z.a if z.op == 'setcmp' else z.a[1], SET, EXP), sub and sup),
                               (lambda z: iscall(z, 'ne') and both(z.a[1], SET, EXP), not (sub and sup))]
                        want = d == n and (sub and sup if n == e else n < e and n >= 4 and 3 * n >= 2 * e and sub)
                        got = None
                        try:
                            for o in outs:
                                if o.exit == 'ret' and all(holds(c, env) for c in o.conds):
                                    v = bool(numeval(o.ret, env))
                                    got = v if got is None or got == v else 'both'
                        except NotComp as x:
                            if not bad:
                                r.undec.append('committee_compatible: %s' % x)
                            bad.add('undec')
                        if bad:
                            break
                        w = '%d of the committee%s, %d expected, all of them expected: %s' % (n, '' if d == n else ' (one twice)', e, sub)
                        if got is None:
                            continue
                        if want:
                            r.ok('a compatible committee is one', got is True, w + ': refused')
                        else:
                            r.ok('an incompatible committee is refused', got is False, w + ': accepted')
                        if got != want:
                            bad.add('viol')
                            break
    with r.section('record'):
        record(r)
    with r.section('anchor'):
        anchor(r)
    with r.section('stored'):
        stored(r)


def both(xs, p, q):
    a, b = xs
    return p(a) and q(b) or p(b) and q(a)


def over(t):
    """what an element-wise collection is taken over"""
    while t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('collect', 'from_iter', 'iter', 'into_iter', 'copied', 'cloned', 'by_ref'):
        t = bare(t.a[1][0])
    return t


def inside(r, z, comm, exp):
    if len(z.a[1]) != 2 or not comm(over(bare(z.a[1][0]))) or z.a[1][1].op != 'closure':
        return False
    el = mk('elem', z.a[1][0])
    for cs, v in cp.apply(r.ctx(), z.a[1][1], [el]):
        if cs or not (iscall(strip(v), 'contains') and exp(strip(v).a[1][0]) and contains(strip(v).a[1][1], lambda q: q is el or q == el)):
            return False
    return True


def scoped(t, hashes):
    """a signed statement: the epoch-boundary intent over one of the given digests"""
    ims = [z for z in subterms(t) if z.op == 'agg' and z.a[0].endswith('IntentMessage')]
    if len(ims) != 1:
        return None
    im = ims[0]
    sc = [z for z in subterms(im) if z.op == 'agg' and z.a[0].endswith('IntentScope')]
    app = [z for z in subterms(im) if z.op == 'agg' and z.a[0].endswith('AppId')]
    f = dict(im.a[2])
    return len(sc) == 1 and sc[0].a[1] == 'EpochBoundary' and all(a.a[1] == 'Consensus' for a in app) and any(strip(f.get('value', im)).id == h.id for h in map(strip, hashes))


def cert(r, COMM):
    b = bodyre(r, REC + 'verify_with_cert$')
    for o in r.outs(b, sides=False, opaque=OPQ, loops=1):
        if o.exit != 'ret':
            r.ok('judging does not stop the node', infeasible(o), 'verify_with_cert can end by %s: %s' % (o.exit, txt(o, 160))) if o.exit == 'panic' else None
            continue
        if strip(o.ret).op == 'c' and not strip(o.ret).a[0]:
            continue
        cs = o.conds
        t = txt(o, 200)
        digs = [z for c in cs for x in c[1:] if isinstance(x, T) for z in subterms(x) if iscall(z, 'digest') and param_of(z.a[1][0]) == 1]
        ch = [z for c in cs for x in c[1:] if isinstance(x, T) for z in subterms(x) if z.op == 'fld' and z.a[1] == 'epoch_hash' and param_of(z.a[0]) == 2]
        r.ok('the certificate names this record', digs and ch and same(cs, digs[0], ch[0]), 'a certificate is accepted without comparing its digest with the record [%s]' % t)
        vs = [z for x in [o.ret] + [x for c in cs if c[0] == 'true' and c[2] for x in (c[1],)] for z in [strip(x)] if iscall(z, 'verify_secure')]
        r.ok('the signature is verified', vs, 'a certificate is accepted without verifying its signature [%s]' % t)
        if not vs:
            continue
        v = vs[0]
        sig, msg, keys = v.a[1][0], v.a[1][1], bare(v.a[1][2])
        r.ok("the certificate's own signature", contains(sig, lambda z: z.op == 'fld' and z.a[1] == 'signature' and param_of(z.a[0]) == 2), 'verifies %s' % show(sig)[:160])
        s = scoped(msg, digs + ch)
        if s is None:
            r.undec.append('verify_with_cert: message %s' % show(msg)[:120])
        else:
            r.ok('over the digest of the record', s, 'the signature is over %s' % show(msg)[:200])
        ctr = signers(r, keys, COMM)
        Q = lambda z: iscall(z, 'super_quorum') and param_of(z.a[1][0]) == 1
        qs = []
        for c in cs:
            if c[0] == 'cmp' and c[1] in ('le', 'lt', 'eq') and (Q(nocast(c[2])) or Q(nocast(c[3]))):
                qs.append(c)
        if not qs and any(c[0] == 'cmp' and contains(c[2], COMM) | contains(c[3], COMM) and any(iscall(z, 'len') for z in subterms(c[2])) for c in cs):
            r.undec.append('verify_with_cert: quorum written out')
            continue
        r.ok('signed by a quorum', qs, 'a certificate is accepted without a quorum of signers [%s]' % t)
        for c in qs[:1]:
            lo, hi = nocast(c[2]), nocast(c[3])
            r.ok('signed by a quorum', Q(lo), 'accepted when %s' % showc(c)[:160])
            if not Q(lo):
                continue
            n = strip(hi)
            if n.op == 'upd!' and is_const(n.a[0]) and leaf(n.a[1]) not in ('filter', 'map'):
                r.undec.append('verify_with_cert: counted in %s' % show(n)[:120])
            elif n.op == 'upd!' and is_const(n.a[0]):
                r.ok('every signer is counted once', n.a[0].a[0] == 0 and leaf(n.a[1]) == 'filter' and ctr is True, 'the quorum is compared with %s' % show(n)[:160])
            elif iscall(n, 'len', 'count') and (bare(n.a[1][0]).id == keys.id or over(bare(n.a[1][0])).id == over(keys).id):
                r.ok('every signer is counted once', True, '')
            elif iscall(n, 'len') and contains(n, lambda z: z.op == 'fld' and z.a[1] == 'signed_authorities'):
                r.ok('every signer is counted once', False, 'the quorum is compared with the length of the bitmap, which may name nobody')
            elif iscall(n, 'len') and COMM(bare(n.a[1][0])) or n.op == 'bin' and n.a[0].startswith(('Add', 'Mul')):
                r.ok('every signer is counted once', False, 'the quorum is compared with %s' % show(n)[:160])
            else:
                r.undec.append('verify_with_cert: count %s' % show(n)[:120])


def signers(r, keys, COMM):
    """the keys the signature is verified with are the committee members the bitmap names; returns whether a counter in the filter counts them"""
    t = keys
    BM = lambda z: contains(z, lambda q: q.op == 'fld' and q.a[1] == 'signed_authorities')
    chain = []
    while t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('collect', 'map', 'filter', 'filter_map', 'enumerate', 'iter', 'into_iter', 'copied', 'cloned', 'zip'):
        chain.append((leaf(t.a[0]), t.a[1][1:]))
        t = bare(t.a[1][0])
    if t.op == 'upd!' or iscall(t, 'new', 'with_capacity') and 'Vec' in t.a[0]:
        r.undec.append('verify_with_cert: keys gathered by a loop: %s' % show(t)[:100])
        return None
    r.ok('keys of the committee', COMM(t) or BM(keys), 'verified with the keys %s' % show(keys)[:160])
    if not COMM(t):
        if not BM(t):
            return None
        r.undec.append('verify_with_cert: keys %s' % show(keys)[:120])
        return None
    fl = [a[0] for n, a in chain if n in ('filter', 'filter_map')]
    r.ok('keys of the signers only', fl, 'verified with the keys of the whole committee')
    if len(fl) != 1 or fl[0].op != 'closure':
        return None
    ctr = True
    caps = {n: v for n, v in fl[0].a[1]}
    lists = {n for n, v in caps.items() if BM(v)}
    BM = lambda z: contains(z, lambda q: q.op == 'fld' and (q.a[1] == 'signed_authorities' or q.a[1] in lists and param_of(q.a[0]) == 1))
    b = r.F.bodies.get(fl[0].a[0])
    if b is None:
        return None
    for q in sa.outcomes(sa.build(r.F, b, sides=False)):
        if q.exit != 'ret':
            continue
        rt = strip(q.ret)
        yes = rt.a[0] if rt.op == 'c' else None
        ws = [e for e in q.events if e.k in ('write', 'lwrite') and strip(e.args[1]).op == 'bin' and strip(e.args[1]).a[0].startswith('Add')]
        if rt.op == 'call' and leaf(rt.a[0]) == 'contains' and BM(rt) or yes is not None and any(c[0] == 'true' and iscall(c[1], 'contains') and BM(c[1]) for c in q.conds):
            ctr = False
            for c in q.conds:
                if c[0] == 'true' and iscall(c[1], 'contains'):
                    r.ok('exactly those the bitmap names', c[2] == yes, 'member taken=%s under %s' % (yes, showc(c)[:100]))
            continue
        eqs = [c for c in q.conds if c[0] == 'cmp' and c[1] in ('eq', 'ne') and any(z.op == 'as' or iscall(z, 'get', 'index', 'next', 'peek') for z in list(subterms(c[2])) + list(subterms(c[3])))]
        if yes is None:
            r.undec.append('verify_with_cert: filter %s' % show(rt)[:100])
            ctr = None
            continue
        if yes:
            r.ok('exactly those the bitmap names', any(c[1] == 'eq' and both(c[2:4], positional, BM) for c in eqs), 'a member is taken under %s' % ' & '.join(showc(c)[:80] for c in q.conds))
            one = [e for e in ws if amount(strip(e.args[1]).a[2]) == 1]
            ctr = ctr and len(ws) == 1 and len(one) == 1
        else:
            r.ok('exactly those the bitmap names', not any(c[1] == 'eq' for c in eqs), 'a member the bitmap names is left out')
            ctr = ctr and not ws
    return ctr


def positional(t):
    """the position of the committee member (its index in the enumeration)"""
    t = nocast(strip(t))
    return t.op == 'fld' and str(t.a[1]) in ('0',)


def record(r):
    b = bodyre(r, r'tn_storage::epoch_records::validate_record_against_anchor$')
    P = {n: i for i, n in enumerate(('epoch', 'record', 'cert', 'parent_hash', 'committee'), 1)}
    FR = lambda t, f: strip(t).op == 'fld' and strip(t).a[1] == f and param_of(strip(t).a[0]) == 2
    n = 0
    for o in r.outs(b, sides=False, opaque=OPQ):
        if o.exit != 'ret':
            continue
        rt = strip(o.ret)
        if not (rt.op == 'agg' and rt.a[1] in ('Valid', 'Invalid', 'NoAnchor')):
            r.undec.append('validate_record_against_anchor returns %s' % show(rt)[:100])
            continue
        cs = o.conds
        eq = lambda f, i: any(c[0] == 'cmp' and c[1] == 'eq' and both(c[2:4], lambda t: FR(t, f), lambda t: param_of(strip(t)) == i) for c in cs)
        tr = lambda nm, i: any(c[0] == 'true' and c[2] and iscall(strip(c[1]), nm) and param_of(strip(strip(c[1]).a[1][0])) == 2 and param_of(strip(strip(c[1]).a[1][1])) == i for c in cs)
        if any(isinstance(q, T) and any(z.op == 'agg' and z.a[0] == 'array' for z in subterms(q)) for c in cs for q in c[1:]):
            n += 1
            r.undec.append('validate_record_against_anchor: decided from an array of answers')
            continue
        if rt.a[1] == 'Valid':
            n += 1
            t = txt(o, 250)
            r.ok('the epoch asked for', eq('epoch', 1), 'a record of another epoch is valid [%s]' % t)
            r.ok('follows the record before', eq('parent_hash', 4), 'a record with another parent is valid [%s]' % t)
            r.ok('the committee handed over to', tr('committee_compatible', 5), 'a record with another committee is valid [%s]' % t)
            r.ok('certified', tr('verify_with_cert', 3), 'a record without a valid certificate is valid [%s]' % t)
        else:
            r.ok('a correct record is accepted', not (eq('epoch', 1) and eq('parent_hash', 4) and tr('committee_compatible', 5) and tr('verify_with_cert', 3)), 'a correct record is refused')
    r.ok('records can be accepted', n, 'no record is ever valid')


def anchor(r):
    b = bodyre(r, DB + r'validate_downloaded_record::\{closure#0\}$')
    E = lambda t: envarg(t) == 'epoch'
    for o in r.outs(b, sides=False, opaque=OPQ + ('validate_record_against_anchor', 'get_committee_keys', 'record_by_epoch')):
        if o.exit != 'ret':
            continue
        rt = strip(o.ret)
        if rt.op == 'agg' and rt.a[1] in ('NoAnchor', 'Invalid'):
            continue
        t = txt(o, 200)
        if not iscall(rt, 'validate_record_against_anchor'):
            if rt.op == 'agg' and rt.a[1] == 'Valid':
                hit = any(c[0] == 'is' and c[2] == 'Valid' and c[3] and iscall(strip(c[1]), 'validate_record_against_anchor') for c in o.conds)
                r.ok('judged against the anchor', hit, 'valid without being judged [%s]' % t)
            else:
                r.undec.append('validate_downloaded_record returns %s' % show(rt)[:100])
            continue
        a = [strip(x) for x in rt.a[1]]
        r.ok('what was asked for and received', envarg(a[0]) == 'epoch' and envarg(a[1]) == 'record' and envarg(a[2]) == 'cert', 'judges %s' % show(rt)[:200])
        zero = next((c[1] == 'eq' for c in o.conds if c[0] == 'cmp' and c[1] in ('eq', 'ne') and both(c[2:4], E, lambda z: is_const(z) and z.a[0] == 0)), None)
        prev = [z for z in subterms(rt) if iscall(z, 'record_by_epoch')]
        gen = [z for z in subterms(rt) if iscall(z, 'get_committee_keys')]
        less = lambda z: z.op == 'bin' and z.a[0].startswith('Sub') and E(z.a[1]) and amount(z.a[2]) == 1 or z.op == 'fld' and contains(z, lambda q: iscall(q, 'checked_sub') and E(q.a[1][0]) and amount(q.a[1][1]) == 1) or iscall(z, 'saturating_sub', 'wrapping_sub') and E(z.a[1][0]) and amount(z.a[1][1]) == 1
        chk = next((c[3] for c in o.conds if c[0] == 'is' and iscall(strip(c[1]), 'checked_sub')), None)
        if zero is None and chk is not None:
            zero = not chk
        if prev:
            r.ok('the record before', all(less(strip(z.a[1][1])) for z in prev) and zero is False, 'the anchor of an epoch is %s [%s]' % (show(prev[0])[:120], t))
            par, com = a[3], bare(a[4])
            r.ok('its digest is the parent', iscall(par, 'digest') and contains(par, lambda q: iscall(q, 'record_by_epoch')), 'expected parent %s' % show(par)[:120])
            r.ok('its next committee', strip(over(com)).op == 'fld' and strip(over(com)).a[1] == 'next_committee' and contains(com, lambda q: iscall(q, 'record_by_epoch')), 'expected committee %s' % show(com)[:160])
        elif gen:
            r.ok('epoch 0 starts the chain', zero is True and all(amount(z.a[1][1]) == 0 or E(z.a[1][1]) for z in gen), 'the genesis committee is trusted for %s [%s]' % (show(gen[0])[:100], t))
            r.ok('epoch 0 has no parent', iscall(a[3], 'default') or a[3].op == 'agg', 'expected parent of epoch 0: %s' % show(a[3])[:100])
        else:
            r.ok('judged against what is stored', False, 'the anchor is not read from the database: %s' % show(rt)[:200])
        bad = [x for x in a[3:] if contains(x, lambda q: q.op in ('fld', 'param') and envf(q) in ('record', 'cert'))]
        r.ok('judged against what is stored', not bad, 'the anchor comes from the received record: %s' % [show(x)[:100] for x in bad])


def stored(r):
    b = bodyre(r, DB + r'certified_record_by_epoch::\{closure#0\}$')
    for o in r.outs(b, sides=False, opaque=OPQ + ('certified_read_record', 'certified_read_cert', 'record_by_epoch', 'cert_by_digest', 'get_epoch_by_number')):
        rt = strip(o.ret) if o.exit == 'ret' else None
        if rt is None or not (rt.op == 'agg' and rt.a[1] == 'Ok'):
            if rt is not None and not (rt.op == 'agg' and rt.a[1] == 'Err'):
                r.undec.append('certified_record_by_epoch returns %s' % show(rt)[:100])
            continue
        v = [c for c in o.conds if c[0] == 'true' and c[2] and iscall(strip(c[1]), 'verify_with_cert')]
        got = strip(rt.a[2][0][1]) if rt.a[2] else None
        r.ok('certified records are certified', any(strip(strip(c[1]).a[1][0]) == got for c in v), 'a record counts as certified without its certificate being checked [%s]' % txt(o, 200))
        r.ok('of the epoch asked for', all(envarg(z.a[1][1]) == 'epoch' for z in subterms(got) if iscall(z, 'certified_read_record', 'record_by_epoch')), 'reads %s' % show(got)[:120])
    n = 0
    for pat, hs in ((r'tn_types::primary::epoch::EpochVote::check_signature$', 1), (r'tn_types::primary::epoch::EpochCertificate::check_signatures$', 1)):
        for o in r.outs(bodyre(r, pat), sides=False, opaque=('verify_raw', 'verify_secure')):
            if o.exit != 'ret' or strip(o.ret).op == 'c' and not strip(o.ret).a[0]:
                continue
            rt = strip(o.ret)
            cands = [rt] + [strip(c[1]) for c in o.conds if c[0] == 'true' and c[2]]
            v = [z for z in cands if iscall(z, 'verify_raw', 'verify_secure')]
            r.ok('votes are verified', v, '%s accepts without a signature check' % pat.split('::')[-2])
            for z in v[:1]:
                h = [q for q in subterms(z) if q.op == 'fld' and q.a[1] == 'epoch_hash' and param_of(q.a[0]) == 1]
                s = scoped(z.a[1][1], h)
                if s is None:
                    r.undec.append('vote: message %s' % show(z.a[1][1])[:100])
                else:
                    r.ok('votes are over the digest they name', s, 'signed %s' % show(z.a[1][1])[:160])
                r.ok("the voter's own signature", contains(z.a[1][0], lambda q: q.op == 'fld' and q.a[1] == 'signature'), 'verifies %s' % show(z.a[1][0])[:100])
                if leaf(z.a[0]) == 'verify_raw':
                    r.ok("the voter's own key", SELFF(z.a[1][2], 'public_key'), 'verifies with %s' % show(z.a[1][2])[:100])
                else:
                    r.ok('the given keys', param_of(bare(z.a[1][2])) == 2, 'verifies with %s' % show(z.a[1][2])[:100])
    # records from peers enter the database only once judged valid
    SAVES = r'tn_storage::epoch_records::EpochRecordDb::(save|save_record|save_certificate)$'
    for b in {b.path: b for b, _ in r.callers('EpochRecordDb::save|EpochRecordDb::save_record|EpochRecordDb::save_certificate', 'state_sync')}.values():
        if 'test' in b.path:
            continue
        for o in r.outs(b, sides=False, opaque=OPQ + ('validate_downloaded_record', 'get_epoch_by_number', 'save', 'save_record', 'save_certificate', 'request_epoch_cert', 'publish_consensus_num_hash_if_newer', 'persist')):
            for i, e in enumerate(o.events):
                if e.k != 'call' or not re.search(SAVES, e.name):
                    continue
                n += 1
                what = [strip(x) for x in e.args[1:]]
                ok = [c for c in o.before(i) if c[0] == 'is' and iscall(strip(c[1]), 'validate_downloaded_record', 'validate_record_against_anchor') and c[2] == 'Valid' and c[3]]
                r.ok('kept only when valid', ok, 'a record from a peer is kept without being judged valid [%s]' % ' & '.join(showc(c)[:120] for c in o.before(i)[-4:]))
                for c in ok[:1]:
                    j = strip(c[1]).a[1]
                    src = lambda x: contains(x, lambda q: iscall(q, 'request_epoch_cert'))
                    r.ok('judged for the epoch asked for', not (src(j[1]) and src(j[2])), 'judged for the epoch the received record names: %s' % show(j[1])[:120])
                    r.ok('what was judged is what is kept', all(any(strip(x) == w or contains(w, lambda q, x=strip(x): q == x) for x in j) for w in what), 'judged %s, kept %s' % ([show(x)[:60] for x in j[1:]], [show(w)[:60] for w in what]))
    r.ok('records are collected', n, 'no function of state sync keeps epoch records')


def SELFF(t, f):
    t = strip(t)
    return t.op == 'fld' and t.a[1] == f and param_of(t.a[0]) == 1
