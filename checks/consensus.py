"""The commit rule (C46)."""
from .epochs import *

CO = r'tn_primary::consensus::'
OPC = ('round', 'digest', 'origin', 'parents', 'order_dag', 'order_leaders', 'update', 'resolve_reputation_score', 'update_leader_schedule', 'leader_certificate', 'linked',
       'validity_threshold', 'quorum_threshold', 'voting_power_by_id', 'commit_leader', 'try_insert', 'nonce', 'seed_chain', 'set_seed_chain', 'seed_chain_value', 'check_parents',
       'reached_validity', 'reached_quorum')


def rnd(t, who):
    t = nocast(strip(t))
    return iscall(t, 'round') and who(strip(t.a[1][0]))


def off(t, base, k):
    """is a number the base plus k (k below zero: minus)"""
    t = nocast(strip(t))
    if k == 0:
        return base(t)
    if t.op == 'bin' and t.a[0].startswith('Add' if k > 0 else 'Sub') and amount(t.a[2]) == abs(k):
        return base(nocast(strip(t.a[1])))
    if t.op == 'bin' and k > 0 and t.a[0].startswith('Add') and amount(t.a[1]) == k:
        return base(nocast(strip(t.a[2])))
    return iscall(t, 'saturating_sub' if k < 0 else 'saturating_add', 'wrapping_sub' if k < 0 else 'wrapping_add') and amount(t.a[1][1]) == abs(k) and base(nocast(strip(t.a[1][0])))


def over_(r, t):
    return bare(t)


def par_(i):
    return lambda t: param_of(strip(t)) == i


def dagof(t):
    t = strip(t)
    return t.op == 'fld' and t.a[1] == 'dag' or t.op == 'param' and t.a[1] == 'dag'


def parents_of(t):
    t = strip(t)
    return iscall(t, 'parents') or t.op == 'fld' and t.a[1] == 'parents'


def linkcond(conds, member):
    """the digest test `header().parents().contains(D)` (true) of a certificate accepted by `member`: the D's"""
    out = []
    for c in conds:
        if c[0] == 'true' and c[2]:
            z = strip(c[1])
            if iscall(z, 'contains') and parents_of(z.a[1][0]) and contains(z.a[1][0], member):
                out.append(strip(z.a[1][1]))
    return out


@check('C46', ['tn_primary', 'tn_types'])
def c46(r):
    with r.section('when a leader is tried'):
        tried(r)
    with r.section('support'):
        support(r)
    with r.section('earlier leaders'):
        earlier(r)
    with r.section('reachable'):
        reachable(r)
    with r.section('sequence'):
        sequence(r)
    with r.section('what was committed'):
        marks(r)
    with r.section('the graph'):
        graph(r)


def tried(r):
    n = 0
    CR = lambda t: rnd(t, par_(3))
    for o in r.outs(bodyre(r, CO + 'bullshark::Bullshark::process_certificate$'), sides=False, opaque=OPC):
        for i, e in enumerate(o.events):
            if not (e.k == 'call' and leaf(e.name) == 'commit_leader'):
                continue
            n += 1
            cs = o.before(i)
            t = ' & '.join(showc(c)[:100] for c in cs[-4:])
            L = nocast(strip(e.args[1]))
            isL = lambda x: nocast(strip(x)).id == L.id
            r.ok('the leader of the round before', off(L, CR, -1), 'tries the leader of round %s' % show(L)[:100])
            r.ok('new certificates only', any(c[0] == 'true' and c[2] and contains(c[1], lambda z: iscall(z, 'try_insert')) for c in cs), 'a leader is tried for a certificate that was not inserted [%s]' % t)
            even = any(c[0] == 'cmp' and c[1] == 'eq' and both(c[2:4], lambda z: strip(z).op == 'bin' and strip(z).a[0] == 'Rem' and isL(strip(z).a[1]) and amount(strip(z).a[2]) == 2, lambda z: amount(z) == 0) or
                       c[0] == 'true' and c[2] and iscall(strip(c[1]), 'is_multiple_of') and isL(strip(c[1]).a[1][0]) and amount(strip(c[1]).a[1][1]) == 2 for c in cs)
            r.ok('leaders are of even rounds', even, 'a leader of an odd round is tried [%s]' % t)
            CMT = lambda z: strip(z).op == 'fld' and strip(z).a[1] == 'committed_round'
            r.ok('no leader of a committed round', any(c[0] == 'cmp' and c[1] == 'lt' and CMT(c[2]) and isL(c[3]) for c in cs), 'the leader of a round already committed is tried [%s]' % t)
    r.ok('leaders are tried', n, 'no certificate makes a leader commit')


def base(t):
    """the certificate an author or a header is read from"""
    while iscall(t, 'origin', 'author', 'header') or t.op == 'fld' and t.a[1] in ('author', 'inner', 'header'):
        t = strip(t.a[1][0] if t.op == 'call' else t.a[0])
    return t


def tally(r, t, leaderd, rounds):
    """voting power of the certificates of the round after the leader that link to it; True, or what is wrong, or None"""
    t = nocast(strip(t))
    if not iscall(t, 'sum', 'fold'):
        return None
    try:
        es = r.emits(t.a[1][0])
    except NotComp:
        return None
    whos = []
    for e in es:
        v = strip(e.val)
        look = [strip(c[1]) for c in e.conds if c[0] == 'is' and c[3] and iscall(strip(c[1]), 'get') and contains(c[1], lambda z: z.op == 'fld' and z.a[1] == 'authorities_by_id')]
        if iscall(v, 'voting_power_by_id'):
            a = strip(v.a[1][1])
        elif amount(v) == 0:
            continue
        elif look and (amount(v) == 1 or v.op == 'fld' and v.a[1] == 'voting_power'):
            a = strip(look[0].a[1][1])
        else:
            return 'adds %s for each' % show(v)[:100]
        if not (iscall(a, 'origin', 'author') or a.op == 'fld' and a.a[1] == 'author'):
            return 'adds the power of %s' % show(a)[:100]
        who = base(a)
        got = linkcond(e.conds, lambda z: z == who)
        if not got:
            return 'counts certificates that need not link to the leader'
        if not all(leaderd(d) for d in got):
            return 'counts links to %s' % show(got[0])[:100]
        whos.append(who)
    if not whos:
        return 'counts nothing'
    who = whos[0]
    gets = [z for z in subterms(who) if iscall(z, 'get') and dagof(z.a[1][0])]
    if len(gets) != 1:
        return None
    if not rounds(gets[0].a[1][1]):
        return 'counts certificates of round %s' % show(gets[0].a[1][1])[:100]
    return True


def support(r):
    b = bodyre(r, CO + 'bullshark::Bullshark::commit_leader$')
    seen = 0
    for o in r.outs(b, sides=False, opaque=OPC, loops=1):
        for i, e in enumerate(o.events):
            if e.k != 'call':
                continue
            nm = leaf(e.name)
            cs = o.before(i)
            t = ' & '.join(showc(c)[:160] for c in cs[-4:])
            if nm in ('order_leaders', 'update', 'push_sub_dag') and nm == 'order_leaders':
                seen += 1
                ldr = strip(e.args[1])
                src = [z for z in subterms(ldr) if iscall(z, 'leader_certificate')]
                r.ok('the leader of that round', len(src) == 1 and param_of(strip(src[0].a[1][1])) == 2 and dagof(src[0].a[1][2]), 'commits %s' % show(ldr)[:120])
                sup = [c for c in cs if c[0] == 'cmp' and c[1] in ('le', 'lt', 'eq') and any(contains(x, lambda z: iscall(z, 'validity_threshold')) for x in c[2:4])]
                thr = lambda z: iscall(nocast(strip(z)), 'validity_threshold', 'quorum_threshold')
                other = [c for c in cs if c[0] == 'cmp' and (thr(c[2]) or thr(c[3]))]
                r.ok('support of the validity threshold', sup or other, 'a leader commits without enough support [%s]' % t)
                for c in (sup or other)[:1]:
                    if any(is_const(strip(q)) for q in c[2:4]) and any(cp.isnext(q) for q in cs):
                        continue        # no child looked at: the tally starts from nothing
                    ok = c[1] in ('le', 'lt') and thr(c[2])
                    v = nocast(strip(c[3]))
                    if ok and v.op == 'bin' and v.a[0].startswith('Add') and any(is_const(strip(q)) and strip(q).a[0] for q in v.a[1:3]):
                        ok = False
                    r.ok('support of the validity threshold', ok, 'a leader commits when %s' % showc(c)[:200])
                    if not ok:
                        continue
                    w = tally(r, c[3], lambda d: iscall(d, 'digest') and strip(d.a[1][0]) == ldr, lambda z: off(z, par_(2), 1))
                    if w is None:
                        r.undec.append('commit_leader: support %s' % show(c[3])[:160])
                    else:
                        r.ok('what counts as support', w is True, str(w))
            if nm == 'update' and 'ConsensusState' in e.name:
                od = [j for j, x in enumerate(o.events[:i]) if x.k == 'call' and leaf(x.name) == 'order_dag']
                r.ok('only ordered leaders commit', od and any(x.k == 'call' and leaf(x.name) == 'order_leaders' for x in o.events[:i]), 'certificates are marked committed without an ordered leader')
                if od:
                    sq = o.events[od[-1]].res
                    r.ok('the whole sequence is marked committed', elemof(e.args[1], sq), 'marks %s' % show(e.args[1])[:120])
            if nm == 'order_dag':
                l = strip(e.args[0])
                pf = [z for z in subterms(l) if iscall(z, 'pop_front', 'next', 'pop_back')]
                r.ok('leaders in order', l.op == 'fld' and pf and leaf(pf[0].a[0]) != 'pop_back' or l.op == 'elem' and not contains(l, lambda z: iscall(z, 'rev', 'skip', 'step_by')), 'the next leader is %s' % show(l)[:120])
            if nm == 'new' and 'CommittedSubDag' in e.name:
                od = [x for x in o.events[:i] if x.k == 'call' and leaf(x.name) == 'order_dag']
                r.ok('a sub-dag is the sequence of its leader', od and strip(e.args[0]) == strip(od[-1].res) and strip(e.args[1]) == strip(od[-1].args[0]), 'sub-dag of %s led by %s' % (show(e.args[0])[:80], show(e.args[1])[:80]))
        if o.exit == 'ret':
            # every ordered sequence is both marked and reported
            for j, x in enumerate(o.events):
                if x.k == 'call' and leaf(x.name) == 'order_dag':
                    it = [c for c in o.conds if cp.isnext(c) and c[3] and contains(c[1], lambda z: z.id == x.res.id or strip(z) == strip(x.res))]
                    later = o.events[j + 1:]
                    if it:
                        r.ok('each certificate once', any(y.k == 'call' and leaf(y.name) == 'update' and 'ConsensusState' in y.name for y in later), 'the sequence is not marked as committed')
                    err = strip(o.ret)
                    if err.op == 'agg' and err.a[1] == 'Ok':
                        r.ok('each sequence is reported', any(y.k == 'call' and leaf(y.name) in ('push', 'push_back') and contains(y.args[1], lambda z: strip(z) == strip(x.res)) for y in later), 'a committed sequence is dropped')
    r.ok('leaders can commit', seen, 'no leader ever commits')


def elemof(t, seq):
    t = strip(t)
    return t.op == 'elem' and strip(over(strip(t.a[0]))) == strip(seq) and not contains(t, lambda z: iscall(z, 'filter', 'skip', 'take', 'step_by', 'skip_while', 'take_while'))


def reversed_(t):
    """the list that is returned was turned around at the end"""
    while True:
        t = strip(t)
        if t.op == 'agg' and t.a[2]:
            t = t.a[2][0][1]
        elif t.op == 'upd!':
            if leaf(t.a[1]) in ('reverse', 'rotate_left', 'sort_by_key', 'sort_by', 'sort', 'make_contiguous'):
                return True
            t = t.a[0]
        elif t.op == 'call' and t.a[1]:
            if leaf(t.a[0]) == 'rev':
                return True
            t = t.a[1][0]
        elif t.op in ('fld', 'as'):
            t = t.a[0]
        else:
            return False
        if not isinstance(t, T):
            return False


def earlier(r):
    b = bodyre(r, CO + 'bullshark::Bullshark::order_leaders$')
    LR = lambda t: rnd(t, par_(2))
    for o in r.outs(b, sides=False, opaque=OPC, loops=2):
        if o.exit != 'ret':
            continue
        pf = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('push_front', 'push_back', 'push', 'insert') and len(e.args) > 1]
        rt = strip(o.ret)
        if rt.op == 'agg' and rt.a[1] == 'Ok':
            r.ok('the leader itself commits', any(param_of(strip(e.args[1])) == 2 for _, e in pf) or contains(rt, lambda z: z.op == 'agg' and contains(z, par_(2))), 'the elected leader is not in the list')
        cur = None
        kinds = {leaf(e.name) for _, e in pf}
        if kinds - {'push_front'}:
            if kinds == {'push_back'} or kinds == {'push'}:
                rev = reversed_(rt)
                if len(pf) > 1:
                    r.ok('in round order', rev, 'earlier leaders commit after later ones')
            elif len(pf) > 1 and leaf(pf[0][1].name) == 'push_front' and all(leaf(e.name) == 'push_back' for _, e in pf[1:]):
                rev = reversed_(rt)
                r.ok('in round order', rev, 'earlier leaders commit after later ones')
            else:
                r.undec.append('order_leaders: list built by %s' % kinds)
                continue
        for i, e in pf:
            x = strip(e.args[1])
            if param_of(x) == 2:
                cur = x
                continue
            cs = o.before(i)
            lk = [strip(c[1]) for c in cs if c[0] == 'true' and c[2] and iscall(strip(c[1]), 'linked')]
            mine = [z for z in lk if strip(z.a[1][2]) == x or strip(z.a[1][1]) == x]
            r.ok('linked leaders only', any(strip(z.a[1][2]) == x for z in mine), 'an earlier leader commits without being linked from the later one [%s]' % ' & '.join(showc(c)[:100] for c in cs[-3:]))
            if mine and cur is not None:
                r.ok('linked from the leader that follows it', any(strip(z.a[1][1]) == cur for z in mine), 'linked from %s' % [show(z.a[1][1])[:80] for z in mine])
            src = [z for z in subterms(x) if iscall(z, 'leader_certificate')]
            r.ok('leaders of their rounds', len(src) == 1, 'commits %s' % show(x)[:120])
            for z in src[:1]:
                rounds(r, z.a[1][1], LR)
            cur = x


def rounds(r, t, LR):
    """the rounds of earlier leaders: from two above the committed round to two below the leader, downwards, every other"""
    t = strip(t)
    if t.op != 'elem':
        r.undec.append('order_leaders: round %s' % show(t)[:100])
        return
    s = strip(t.a[0])
    ops = []
    while iscall(s, 'rev', 'step_by', 'filter', 'into_iter', 'iter'):
        ops.append((leaf(s.a[0]), s.a[1][1:]))
        s = strip(s.a[1][0])
    names = [n for n, _ in ops]
    if s.op == 'agg' and s.a[0].endswith('Range') or iscall(s, 'new') and 'RangeInclusive' in s.a[0]:
        lo, hi = (dict(s.a[2])['start'], dict(s.a[2])['end']) if s.op == 'agg' else s.a[1][:2]
        inc = 0 if s.op == 'agg' else 1
        CM = lambda z: strip(z).op == 'fld' and strip(z).a[1] == 'committed_round'
        lows = [k for k in range(0, 6) if off(lo, CM, k)]
        highs = [k for k in range(-6, 3) if off(hi, LR, k)]
        if len(lows) != 1 or len(highs) != 1:
            r.undec.append('order_leaders: rounds from %s to %s' % (show(lo)[:60], show(hi)[:60]))
            return
        top = highs[0] - (1 - inc)
        if 'filter' in names:
            r.undec.append('order_leaders: rounds filtered')
            return
        r.ok('down from the leader', names.count('rev') % 2 == 1, 'the rounds are walked upwards')
        st = [amount(a[0]) for n, a in ops if n == 'step_by']
        r.ok('every other round', st == [2] and (names.index('step_by') < names.index('rev') if 'rev' in names else True), 'steps %s' % st)
        r.ok('from the one before the leader', top == -2, 'starts at the leader round %+d' % top)
        r.ok('down to the committed round', lows[0] in (1, 2), 'ends at the committed round %+d' % lows[0])
    else:
        r.undec.append('order_leaders: rounds %s' % show(s)[:100])


def param3(t):
    """the earlier leader itself is looked at, not only its round"""
    t = strip(t)
    if iscall(t, 'round'):
        return False
    if param_of(t) == 3:
        return True
    return any(isinstance(q, T) and param3(q) for q in flatten(t.a))


def flatten(xs):
    for x in xs:
        if isinstance(x, (tuple, list)):
            yield from flatten(x)
        else:
            yield x


def reachable(r):
    b = bodyre(r, CO + 'bullshark::Bullshark::linked$')
    n = 0
    for o in r.outs(b, sides=False, opaque=OPC, loops=1):
        if o.exit != 'ret':
            continue
        rt = strip(o.ret)
        if rt.op == 'c':
            if rt.a[0]:
                r.ok('linked by a path of parents', any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'contains') for c in o.conds) or any(c[0] == 'cmp' and c[1] == 'eq' for c in o.conds), 'linked whatever the graph holds [%s]' % txt(o, 160))
            continue
        if not param3(rt) and not any(param3(q) for c in o.conds for q in c[1:] if isinstance(q, T)):
            r.ok('the earlier leader is reached', False, 'linked when %s' % show(rt)[:100])
            continue
        if not iscall(rt, 'contains', 'any'):
            r.undec.append('linked: %s' % show(rt)[:120])
            continue
        if iscall(rt, 'contains'):
            r.ok('the earlier leader is reached', param_of(strip(rt.a[1][1])) == 3, 'looks for %s' % show(rt.a[1][1])[:80])
        it = [c for c in o.conds if cp.isnext(c) and c[3]]
        if not it:
            continue
        rng = [z for c in it for z in subterms(c[1]) if z.op == 'agg' and z.a[0].endswith('Range') or iscall(z, 'new') and 'RangeInclusive' in z.a[0]]
        for z in rng[:1]:
            n += 1
            lo, hi = (dict(z.a[2])['start'], dict(z.a[2])['end']) if z.op == 'agg' else z.a[1][:2]
            k = [q for q in range(-4, 4) if off(hi, lambda t: rnd(t, par_(2)), q)]
            top = k[0] - (0 if iscall(z, 'new') else 1) if k else None
            r.ok('down to the round of the earlier leader', rnd(lo, par_(3)), 'stops at %s' % show(lo)[:80])
            r.ok('from the round below the later leader', top == -1, 'starts at %s' % show(hi)[:80])
            r.ok('round by round', any(iscall(q, 'rev') for q in subterms(it[0][1])) and not any(iscall(q, 'step_by', 'skip') for q in subterms(it[0][1])), 'walks %s' % show(it[0][1])[:120])
        src = rt.a[1][0]
        if not contains(src, lambda z: iscall(z, 'get') and dagof(z.a[1][0])):
            continue
        try:
            es = r.emits(bare(src))
        except NotComp as x:
            r.undec.append('linked: %s' % x)
            continue
        if len(es) != 1:
            r.undec.append('linked: reached set %s' % show(src)[:100])
            continue
        e = es[0]
        lk = False
        for c in e.conds:
            if c[0] == 'true' and c[2] and iscall(strip(c[1]), 'any') and strip(c[1]).a[1][1].op == 'closure':
                el = mk('elem', strip(c[1]).a[1][0])
                for cs, v in cp.apply(r.ctx(), strip(c[1]).a[1][1], [el]):
                    v = strip(v)
                    if not cs and iscall(v, 'contains') and parents_of(v.a[1][0]) and contains(v.a[1][0], lambda q: q is strip(el) or q == el):
                        lk = True
            elif c[0] == 'true' and iscall(strip(c[1]), 'any', 'all'):
                lk = lk or False
        hd = bool(e.conds)
        r.ok('linked by a path of parents', lk or None if hd and not lk and not any(c[0] == 'true' for c in e.conds) else lk, 'reached without being a parent of what was reached before: %s' % ' & '.join(showc(c)[:120] for c in e.conds))
    if not n:
        r.undec.append('linked: walk not readable')


def plain(t):
    """a boolean without what adds nothing to it"""
    t = strip(t)
    while t.op == 'bin' and t.a[0] in ('BitOr', 'BitAnd') and any(is_const(strip(q)) for q in t.a[1:3]):
        k, v = (t.a[1], t.a[2]) if is_const(strip(t.a[1])) else (t.a[2], t.a[1])
        if bool(strip(k).a[0]) == (t.a[0] == 'BitOr'):
            return strip(k)
        t = strip(v)
    return t


def sequence(r):
    b = bodyre(r, CO + 'utils::order_dag$')
    npush = 0
    for o in r.outs(b, sides=False, opaque=('round', 'digest', 'origin', 'parents'), loops=2):
        if o.exit != 'ret':
            continue
        pops = [e.res for e in o.events if e.k == 'call' and leaf(e.name) in ('pop', 'pop_front', 'pop_back')]
        ordn = strip(o.ret)
        # ordered by round at the end
        srt = [e for e in o.events if e.k == 'call' and leaf(e.name).startswith('sort')]
        r.ok('in round order', srt, 'the sequence is not sorted by round') if ordn.op == 'upd!' or not srt else None
        for e in srt[-1:]:
            nm = leaf(e.name)
            if len(e.args) > 1 and e.args[1].op == 'closure' and nm in ('sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key'):
                el = mk('elem', strip(e.args[0]))
                for cs, v in cp.apply(r.ctx(opaque=('round', 'digest', 'origin')) if False else r.ctx(), e.args[1], [el]):
                    v = strip(v)
                    rd = lambda z: iscall(strip(z), 'round') or strip(z).op == 'fld' and strip(z).a[1] == 'round'
                    first = dict(v.a[2]).get('0', dict(v.a[2]).get(0)) if v.op == 'agg' and v.a[2] else v
                    r.ok('in round order', rd(first), 'sorted by %s' % show(v)[:100])
                    r.ok('the order is the same on every node', nm != 'sort_unstable_by_key' or v.op == 'agg', 'certificates of one round come in no fixed order')
        for i, e in enumerate(o.events):
            if e.k != 'call' or leaf(e.name) not in ('push', 'push_back', 'push_front') or len(e.args) < 2:
                continue
            x = strip(e.args[1])
            cs = o.before(i)
            if any(root(x) == strip(p) for p in pops):
                continue            # a popped certificate joins the sequence
            dag = [z for z in subterms(x) if iscall(z, 'get') and dagof(z.a[1][0])]
            if not dag:
                if param_of(x) == 1:
                    continue
                r.undec.append('order_dag: pushes %s' % show(x)[:100])
                continue
            npush += 1
            t = ' & '.join(showc(c)[:140] for c in cs[-4:])
            r.ok('parents of the round before', off(dag[0].a[1][1], lambda z: iscall(z, 'round'), -1), 'looks for parents in round %s' % show(dag[0].a[1][1])[:80])
            flat = [d for c in cs for d in disj(c)]
            dup = any(c[0] == 'true' and not c[2] and iscall(strip(c[1]), 'contains') for c in flat) or any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'insert') for c in flat)
            r.ok('each certificate once', dup, 'a certificate reached twice is ordered twice [%s]' % t)
            LCg = [z for c in cs for q in c[1:] if isinstance(q, T) for z in subterms(q) if iscall(z, 'get', 'get_key_value', 'contains_key') and strip(z.a[1][0]).op == 'fld' and strip(z.a[1][0]).a[1] == 'last_committed']
            absent = any(c[0] == 'is' and not c[3] and iscall(strip(c[1]), 'get') and 'last_committed' in show(c[1]) for c in flat)
            newer = any(later(c) for c in flat)
            r.ok('nothing committed before', LCg and (absent or newer), 'a certificate already committed is ordered again [%s]' % t)
            for z in LCg[:1]:
                r.ok('committed rounds are per author', iscall(strip(z.a[1][1]), 'origin') and contains(x, lambda q: q == strip(strip(z.a[1][1]).a[1][0])), 'looks up %s' % show(z.a[1][1])[:100])
            mark = any(y.k == 'call' and leaf(y.name) == 'insert' for y in o.events[:i + 4] + o.events[i:])
            r.ok('each certificate once', mark, 'what was ordered is not remembered')
    for o in r.outs(b, sides=False, opaque=('round', 'digest', 'origin', 'parents'), loops=1):
        if o.exit != 'ret':
            continue
        fresh = [c for c in o.conds if c[0] == 'is' and not c[3] and iscall(strip(c[1]), 'get') and 'last_committed' in show(strip(c[1]).a[1][0])]
        cs = [('true', plain(c[1]), c[2]) if c[0] == 'true' else c for c in o.conds]
        if any(c[0] == 'true' and is_const(c[1]) and bool(c[1].a[0]) != c[2] for c in cs):
            continue
        seen = [c for c in cs if c[0] == 'true' and iscall(c[1], 'contains', 'insert') and c[2] == iscall(c[1], 'contains')]
        odd = [c for c in cs if c[0] != 'true' and 'HashSet::contains' in showc(c) or c[0] == 'true' and not iscall(c[1], 'contains', 'insert') and 'HashSet' in showc(c)]
        pushed = any(e.k == 'call' and leaf(e.name) in ('push', 'push_back', 'push_front') and len(e.args) > 1 and any(iscall(z, 'get') and dagof(z.a[1][0]) for z in subterms(e.args[1])) for e in o.events)
        if fresh and not odd:
            r.ok('the whole history', pushed or seen, 'a certificate of an author without commits is left out [%s]' % txt(o, 200))
    if not npush and not any(y.k == 'call' and leaf(y.name) == 'insert' for o in r.outs(b, sides=False, opaque=('round', 'digest', 'origin', 'parents'), loops=2) for y in o.events):
        r.ok('each certificate once', False, 'what was ordered is not remembered')
    r.ok('the sequence follows parents', npush, 'parents are never ordered')


def root(t):
    """what a term is a part of"""
    while t.op in ('fld', 'as'):
        t = strip(t.a[0])
    return t


def disj(c):
    """the parts of a false disjunction or true conjunction of two tests"""
    if c[0] == 'true':
        z = strip(c[1])
        if z.op == 'bin' and (z.a[0] == 'BitOr' and not c[2] or z.a[0] == 'BitAnd' and c[2]):
            return [d for q in z.a[1:3] for d in disj(('true', strip(q), c[2]))]
    return [c]


def later(c):
    """round > last committed round of the author"""
    LC = lambda t: contains(t, lambda z: z.op == 'fld' and z.a[1] == 'last_committed') and not iscall(strip(t), 'round')
    RD = lambda t: iscall(nocast(strip(t)), 'round')
    if c[0] == 'cmp':
        return c[1] == 'lt' and LC(c[2]) and RD(c[3])
    if c[0] == 'true':
        z = strip(c[1])
        if z.op == 'call' and len(z.a[1]) == 2:
            a, b = z.a[1]
            n = leaf(z.a[0])
            return n == 'le' and not c[2] and RD(a) and LC(b) or n == 'ge' and not c[2] and LC(a) and RD(b) or n == 'gt' and c[2] and RD(a) and LC(b) or n == 'lt' and c[2] and LC(a) and RD(b)
        if z.op == 'bin':
            a, b = z.a[1], z.a[2]
            n = z.a[0]
            return n == 'Le' and not c[2] and RD(a) and LC(b) or n == 'Ge' and not c[2] and LC(a) and RD(b) or n == 'Gt' and c[2] and RD(a) and LC(b) or n == 'Lt' and c[2] and LC(a) and RD(b)
    return False


def marks(r):
    b = bodyre(r, CO + 'state::ConsensusState::update$')
    CERT = lambda t: rnd(t, par_(2))
    for o in r.outs(b, sides=False, opaque=('round', 'digest', 'origin', 'parents')):
        if o.exit != 'ret':
            continue
        ent = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('entry', 'insert') and e.args and strip(e.args[0]).op == 'fld' and strip(e.args[0]).a[1] == 'last_committed']
        r.ok('the author is marked', ent and all(iscall(strip(e.args[1]), 'origin') and param_of(strip(strip(e.args[1]).a[1][0])) == 2 for e in ent), 'marks %s' % [show(e.args[1])[:60] for e in ent])
        for e in o.events:
            if e.k == 'call' and leaf(e.name) == 'or_insert_with' and e.args[1].op == 'closure':
                for cs, v in cp.apply(r.ctx(), e.args[1], []):
                    r.ok('with its round', roundish(v, CERT), 'marks %s' % show(v)[:80])
            if e.k == 'call' and leaf(e.name) == 'or_insert':
                pass
            if e.k == 'call' and leaf(e.name) == 'and_modify' and e.args[1].op == 'closure':
                bb = r.F.bodies.get(e.args[1].a[0])
                for q in sa.outcomes(sa.build(r.F, bb, sides=False, opaque=('round',))) if bb else ():
                    for w in q.events:
                        if w.k == 'write':
                            v = strip(w.args[1])
                            mx = iscall(v, 'max') and any(strip(z) == strip(w.args[0]) for z in v.a[1]) and any(contains(z, lambda y: iscall(y, 'round')) for z in v.a[1])
                            up = contains(v, lambda y: iscall(y, 'round')) and any(c[0] == 'cmp' and c[1] in ('lt', 'le') and strip(c[2]) == strip(w.args[0]) for c in q.conds)
                            r.ok('the mark never falls', mx or up, 'the mark becomes %s' % show(v)[:100])
        ws = [e for e in o.events if e.k == 'write' and strip(e.args[0]).op == 'fld' and strip(e.args[0]).a[1] in ('last_round', 'committed_round')]
        r.ok('the committed round advances', ws, 'the committed round is not updated')
        for e in ws:
            v = strip(e.args[1])
            f = dict(v.a[2]) if v.op == 'agg' else {}
            cm = strip(f.get('committed_round', v))
            OLD = lambda z: strip(z).op == 'fld' and strip(z).a[1] == 'committed_round' and param_of(strip(strip(z).a[0]).a[0] if strip(strip(z).a[0]).op == 'fld' else strip(z).a[0]) == 1
            if iscall(cm, 'max') and len(cm.a[1]) == 2:
                r.ok('the committed round never falls', both(cm.a[1], OLD, CERT), 'becomes %s' % show(cm)[:100])
            elif CERT(cm):
                r.ok('the committed round never falls', any(c[0] == 'cmp' and c[1] in ('lt', 'le') and OLD(c[2]) and CERT(c[3]) for c in o.conds), 'becomes the round of the certificate')
            elif not OLD(cm):
                r.undec.append('update: committed round %s' % show(cm)[:100])
            if 'gc_round' in f:
                g = strip(f['gc_round'])
                if iscall(g, 'saturating_sub'):
                    r.ok('what is collected', strip(g.a[1][0]) == cm and strip(g.a[1][1]).op == 'fld' and strip(g.a[1][1]).a[1] == 'gc_depth', 'collects up to %s' % show(g)[:100])
                else:
                    r.undec.append('update: collected round %s' % show(g)[:100])
        rets = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('retain', 'split_off', 'clear', 'remove', 'pop_first') and dagof(e.args[0])]
        for e in rets:
            if leaf(e.name) == 'retain' and e.args[1].op == 'closure':
                el = mk('elem', strip(e.args[0]))
                bb = r.F.bodies.get(e.args[1].a[0])
                for q in sa.outcomes(sa.build(r.F, bb, args={1: e.args[1]}, sides=False)) if bb else ():
                    cond_ = strip(q.ret)
                    if q.conds and cond_.op == 'c':
                        c = q.conds[-1]
                        keep = bool(cond_.a[0])
                    else:
                        c, keep = None, None
                    GC = lambda z: contains(z, lambda y: iscall(y, 'saturating_sub', 'gc_round')) or contains(z, lambda y: y.op == 'fld' and y.a[1] == 'gc_round')
                    if cond_.op == 'bin' and cond_.a[0] in ('Gt', 'Lt', 'Ge', 'Le'):
                        a, c2 = cond_.a[1], cond_.a[2]
                        fine = cond_.a[0] == 'Gt' and GC(c2) and not GC(a) or cond_.a[0] == 'Lt' and GC(a) and not GC(c2) or cond_.a[0] == 'Ge' and GC(c2) or cond_.a[0] == 'Le' and GC(a)
                        r.ok('only collected rounds leave', fine, 'keeps rounds %s' % show(cond_)[:100])
            elif leaf(e.name) == 'clear':
                r.ok('only collected rounds leave', False, 'the whole graph is dropped')
    for o in r.outs(bodyre(r, CO + r'utils::gc_round$'), sides=False):
        if o.exit == 'ret':
            t = strip(o.ret)
            if iscall(t, 'saturating_sub') or t.op == 'bin':
                a, c = (t.a[1] if t.op == 'call' else t.a[1:3])
                r.ok('collected rounds trail the committed one', param_of(strip(a)) == 1 and param_of(strip(c)) == 2 and (t.op == 'call' or t.a[0].startswith('Sub')), 'gc_round is %s' % show(t)[:80])


def roundish(v, CERT):
    return CERT(v) or contains(v, lambda z: iscall(z, 'round') or z.op == 'fld' and z.a[1] == 'round')


def graph(r):
    b = bodyre(r, CO + r'state::ConsensusState::try_insert_in_dag$')
    OP_ = ('round', 'digest', 'origin', 'parents', 'check_parents')
    CERT = lambda t: rnd(t, par_(4))
    GC = par_(3)
    n = 0
    for o in r.outs(b, sides=False, opaque=OP_):
        ins = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) == 'insert' and contains(e.args[0], dagof)]
        for i, e in ins:
            n += 1
            cs = o.before(i)
            t = ' & '.join(showc(c)[:100] for c in cs[-4:])
            r.ok('nothing collected enters', any(c[0] == 'cmp' and c[1] == 'lt' and GC(c[2]) and CERT(c[3]) for c in cs), 'a certificate at or below the collected round enters [%s]' % t)
            flag = [c for c in cs if c[0] == 'true' and param_of(strip(c[1])) == 5]
            chk = [c for c in cs if c[0] == 'is' and c[2] == 'Ok' and c[3] and iscall(strip(c[1]), 'check_parents')]
            if not (flag and not flag[0][2]):
                r.ok('parents are there', chk, 'a certificate enters without its parents being checked [%s]' % t)
            r.ok('by round and author', contains(e.args[0], lambda z: iscall(z, 'entry') and CERT(z.a[1][1])) and iscall(strip(e.args[1]), 'origin'), 'entered at %s' % show(e.args[0])[:120])
        rt = strip(o.ret) if o.exit == 'ret' else None
        if rt is None:
            continue
        old = [c for c in o.conds if c[0] == 'is' and c[3] and iscall(strip(c[1]), 'insert')]
        if rt.op == 'agg' and rt.a[1] == 'Ok' and old:
            same_ = any(c[0] == 'cmp' and c[1] == 'eq' and both(c[2:4], lambda z: iscall(strip(z), 'digest'), lambda z: iscall(strip(z), 'digest')) for c in o.conds)
            r.ok('one certificate per author and round', same_, 'a second certificate of the same author and round is accepted [%s]' % txt(o, 160))
        if rt.op == 'agg' and rt.a[1] == 'Ok' and ins:
            v = strip(dict(rt.a[2]).get('0', dict(rt.a[2]).get(0, rt)))
            if v.op == 'bin' and v.a[0] in ('Gt', 'Lt', 'Ge', 'Le'):
                a, c = (v.a[1], v.a[2]) if v.a[0] in ('Gt', 'Ge') else (v.a[2], v.a[1])
                r.ok('new means above the committed round', v.a[0] in ('Gt', 'Lt') and CERT(a), 'a certificate counts as new when %s' % show(v)[:120])
            elif v.op == 'c' and v.a[0]:
                r.ok('new means above the committed round', any(c[0] == 'cmp' and c[1] == 'lt' and CERT(c[3]) for c in o.conds if 'last_committed' in showc(c)) or any(c[0] == 'is' and not c[3] and 'last_committed' in showc(c) for c in o.conds), 'a committed certificate counts as new [%s]' % txt(o, 160))
    r.ok('certificates enter', n, 'no certificate ever enters the graph')
    for o in r.outs(bodyre(r, CO + r'state::ConsensusState::try_insert$'), sides=False, opaque=('try_insert_in_dag',)):
        for i, e in ecalls(o, 'try_insert_in_dag'):
            r.ok('parents are checked', amount(e.args[4]) == 1 or is_const(e.args[4]) and bool(e.args[4].a[0]), 'received certificates enter without a check of their parents')
            r.ok('the collected round', strip(e.args[2]).op == 'fld' and strip(e.args[2]).a[1] == 'gc_round', 'compared with %s' % show(e.args[2])[:80])
    for o in r.outs(bodyre(r, CO + r'state::ConsensusState::check_parents$'), sides=False, opaque=('round', 'digest', 'origin', 'parents'), loops=1):
        if o.exit != 'ret' or not (strip(o.ret).op == 'agg' and strip(o.ret).a[1] == 'Ok'):
            continue
        CE = lambda t: rnd(t, par_(1))
        first = any(c[0] == 'cmp' and (c[1] == 'le' and CE(c[2]) and (off(c[3], par_(3), 1) or par_(3)(c[3])) or c[1] == 'lt' and CE(c[2]) and off(c[3], par_(3), 2) or c[1] == 'eq' and both(c[2:4], CE, lambda z: off(z, par_(3), 1))) for c in o.conds)
        if first:
            continue
        t = txt(o, 200)
        got = [c for c in o.conds if c[0] == 'is' and c[3] and iscall(strip(c[1]), 'get') and dagof(strip(c[1]).a[1][0])]
        if not got:
            r.ok('parents are there', any(iscall(z, 'all') for c in o.conds for q in c[1:] if isinstance(q, T) for z in subterms(q)), 'a certificate of a later round passes without a parent round [%s]' % t)
            continue
        r.ok('in the round before', all(off(strip(c[1]).a[1][1], CE, -1) for c in got), 'looks in round %s' % show(strip(got[0][1]).a[1][1])[:80])
        it = [c for c in o.conds if cp.isnext(c) and c[3] and contains(c[1], lambda z: iscall(z, 'parents'))]
        if it:
            has_ = any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'contains', 'contains_key', 'any') and contains(c[1], lambda z: z.op == 'elem') for c in o.conds)
            r.ok('every parent', has_, 'a parent may be missing [%s]' % t)
        end = any(cp.isnext(c) and not c[3] and contains(c[1], lambda z: iscall(z, 'parents')) for c in o.conds)
        alls = any(c[0] == 'true' and c[2] and iscall(strip(c[1]), 'all', 'is_subset', 'is_superset') for c in o.conds) or any(c[0] == 'is' and not c[3] and iscall(strip(c[1]), 'find') for c in o.conds) or any(c[0] == 'true' and not c[2] and iscall(strip(c[1]), 'any') for c in o.conds)
        r.ok('every parent', end or alls, 'not every parent is looked at [%s]' % t)
