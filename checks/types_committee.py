"""C01, C02, C14: committee thresholds, membership views, advertised endpoints."""
from engine.rules import *
from engine import comp as cp, arith
from engine.comp import NotComp
from engine.lib import cat, view

CM = 'committee::Committee'
QUORUM = lambda n: 2 * n // 3 + 1
VALIDITY = lambda n: -(-n // 3)


def constructors(r):
    """(label, returned committee term, conditions) of every way a committee comes into being"""
    out = []
    for b in r.roots(r.construct('tn_types::committee::Committee', crate='tn_types')):
        if b.d.get('trait', '') in ('core::clone::Clone', 'core::default::Default'):
            continue
        for o in r.outs(b, sides=False):
            if o.exit != 'ret' or o.ret is None:
                continue
            t = o.ret
            if t.op == 'agg' and t.a[1] in ('Ok', 'Some'):
                t = fld(t, '0')
            if t.op == 'agg' and path_match(t.a[0], 'committee::Committee'):
                out.append((b.path, t, o.conds))
            elif not is_err(t):
                r.undec.append('%s: returns %s' % (b.path, show(t)[:200]))
    return out


def hashed(t):
    """byte terms fed to one blake3 hash whose digest is t"""
    t = strip(t)
    while t.op == 'call' and leaf(t.a[0]) in ('as_bytes', 'into', 'from', 'finalize') and t.a[1]:
        t = t.a[1][0]
    if t.op == 'call' and t.a[0].endswith('blake3::hash'):
        return [t.a[1][0]]
    bs = []
    while t.op == 'upd!':
        if leaf(t.a[1]) != 'update' or len(t.a) != 5:
            return None
        bs.insert(0, t.a[4])
        t = t.a[0]
    return bs if t.op == 'call' and leaf(t.a[0]) in ('new', 'default') else None


def is_id_of(t, key):
    """t is the authority identifier of the key term satisfying `key`"""
    if t.op != 'agg' or not path_match(t.a[0], 'committee::AuthorityIdentifier'):
        return False
    bs = hashed(fld(t, '0'))
    return bs is not None and len(bs) == 1 and bs[0].op == 'call' and leaf(bs[0].a[0]) in ('to_bytes', 'compress') and key(bs[0].a[1][0])


@check('C01', ['tn_types'], note='Thresholds are compared with the specified functions of the committee size for every size, '
       'by splitting the size by residue and comparing the resulting linear forms.')
def c01(r):
    with r.section('constructors'):
        cs = constructors(r)
        r.ok('census', len({l for l, _, _ in cs}) >= 3, 'fewer than three ways to obtain a committee were found: %s' % {l for l, _, _ in cs})
    for label, v, conds in cs:
        with r.section('thresholds of ' + label):
            size = r.observe('committee::Committee::size', {1: v})
            N = strip(size)
            isN = lambda t: strip(t) is N
            N2 = [z for z in subterms(N) if z.op == 'call' and leaf(z.a[0]) == 'len']
            scale = True
            ev = [('cmp', c[1], sums(r, c[2]), sums(r, c[3])) for c in conds if c[0] == 'cmp']
            for obs, want, nm in (('reached_quorum', QUORUM, 'quorum'), ('reached_validity', VALIDITY, 'validity')):
                th = threshold_of(r, obs, nm, v)
                if th is None:
                    continue
                th = sums(r, th)
                try:
                    by = guard_vars(v, r)
                    same, n = arith.same_function(strip(th), want, lambda z: strip(z) is N or strip(z) in by,
                                                  [cp_strip(x) for x in ev], 2)
                    r.ok(nm, same, '%s threshold %s differs from the specified one for committee size %s' % (nm, show(th)[:160], n))
                except arith.Unknown as e:
                    if not contains(strip(th), lambda z: z is N):
                        r.ok(nm, False, '%s threshold of %s does not follow the committee size: %s' % (nm, label, show(th)[:160]))
                    else:
                        r.undec.append('%s: threshold form %s' % (nm, e))
            # never fewer than two members
            lens = {N} | guard_vars(v, r)
            lo = [c for c in map(cp_strip, ev) if c[1] in ('le', 'lt') and is_const(c[2]) and c[3] in lens
                  and c[2].a[0] + (c[1] == 'lt') >= 2]
            r.ok('two members', lo, 'a committee of fewer than two members can be produced [%s]' % ' & '.join(map(showc, ev))[:400])
    with r.section('one member one vote'):
        for fn in ('voting_power', 'voting_power_by_id'):
            for o in r.rets('committee::Committee::' + fn):
                look = [c for c in o.conds if (c[0] == 'is' and c[2] == 'Ok' and c[1].op == 'call' and leaf(c[1].a[0]) == 'get')
                        or (c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains_key')]
                if not r.ok(fn + ' lookup', len(look) == 1 and contains(look[0][1], lambda z: z.op == 'param' and z.a[0] == 2),
                            '%s does not depend on looking its argument up: %s' % (fn, r.otext(o))):
                    continue
                present = look[0][3] if look[0][0] == 'is' else look[0][2]
                r.ok('%s %s' % (fn, 'member' if present else 'stranger'), is_const(o.ret) and o.ret.a[0] == (1 if present else 0),
                     '%s: %s' % (fn, r.otext(o)))
        for o in r.rets('committee::Authority::voting_power'):
            r.ok('own record', is_const(o.ret) and o.ret.a[0] == 1, r.otext(o))
        for label, v, conds in cs[:4]:
            t = sums(r, r.observe('committee::Committee::total_voting_power', {1: v}))
            r.ok('total', strip(peel(t)) is strip(peel(r.observe('committee::Committee::size', {1: v}))), 'total voting power is %s' % show(t)[:200])
    with r.section('free function'):
        for o in r.rets('tn_types::committee::quorum_threshold'):
            try:
                same, n = arith.same_function(strip(o.ret), QUORUM, lambda z: z.op == 'param' and z.a[0] == 1, o.conds, 2)
                r.ok('quorum_threshold', same, 'differs for size %s: %s' % (n, show(o.ret)))
            except arith.Unknown as e:
                r.undec.append('quorum_threshold: %s' % e)


def threshold_of(r, obs, nm, v):
    """the least number of votes for which obs answers true on the committee v"""
    b = r.F.one('committee::Committee::' + obs)
    g = sa.build(r.F, b, args={1: v}, sides=False)
    r.funcs |= g.inlined
    ths = {}
    isv = lambda t: t.op == 'param' and t.a[0] == 2
    for o in sa.outcomes(g):
        if o.exit != 'ret':
            continue
        cs = list(o.conds)
        yes = not (is_const(o.ret) and not o.ret.a[0])
        if not is_const(o.ret):
            cs.append(cond(o.ret))
        found = []
        for c in cs:
            if c[0] != 'cmp':
                continue
            if c[1] == 'ne' and is_const(c[3]) and c[3].a[0] == 0 and isv(c[2]):
                c = ('cmp', 'le', const(1, 'u64'), c[2])
            if c[1] == 'eq' and is_const(c[3]) and c[3].a[0] == 0 and isv(c[2]):
                c = ('cmp', 'lt', c[2], const(1, 'u64'))
            if yes and isv(c[3]) and c[1] in ('le', 'lt'):
                found.append(c[2] if c[1] == 'le' else binop('Add', c[2], const(1, 'u64')))
            if not yes and isv(c[2]) and c[1] in ('le', 'lt'):
                found.append(c[3] if c[1] == 'lt' else binop('Add', c[3], const(1, 'u64')))
        r.ok(nm + ' form', found, '%s answers %s without comparing the given votes with a threshold: [%s] %s' % (
            obs, yes, ' & '.join(map(showc, o.conds))[:200], show(o.ret)[:200]))
        for t in found:
            ths[strip(t).id] = t
    if len(ths) > 1:
        r.undec.append('%s: several thresholds' % obs)
        return None
    return list(ths.values())[0] if ths else None


def sums(r, t):
    """t with every sum of one vote per element rewritten as the number of elements"""
    def one(z):
        if z.op == 'call' and leaf(z.a[0]) in ('sum', 'count') and z.a[1]:
            try:
                es = r.emits(z.a[1][0])
            except NotComp:
                return None
            if len(es) == 1 and not es[0].conds and not es[0].marks and (leaf(z.a[0]) == 'count' or is_const(es[0].val)):
                y = z.a[1][0]
                while y.op == 'call' and y.a[1] and leaf(y.a[0]) in ('map', 'iter', 'values', 'keys', 'cloned', 'copied', 'into_iter', 'into_values', 'into_keys'):
                    y = y.a[1][0]
                n = mk('cast', 'u64', call('len', (y,)))
                k = 1 if leaf(z.a[0]) == 'count' else es[0].val.a[0]
                return n if k == 1 else binop('Mul', const(k, 'u64'), n)
        return None
    return sa.rebuild(t, one, {})


def guard_vars(v, r):
    """lengths known to equal the member count: of any collection built one entry per member"""
    N = strip(peel(r.observe('committee::Committee::size', {1: v})))
    if N.op != 'call' or leaf(N.a[0]) != 'len':
        return {N}
    src = N.a[1][0]
    out = {N}
    # the id index (its contents are decided by C02)
    try:
        y = r.observe_one('committee::Committee::authority', {1: v})
        if y.op == 'call' and leaf(y.a[0]) == 'get':
            out.add(strip(call('len', (y.a[1][0],))))
    except NotSingle:
        pass
    # the id index: injective image of the members (ids are collision free hashes)
    for z in subterms(v):
        if z.op == 'call' and leaf(z.a[0]) == 'collect':
            try:
                es = r.emits(z)
            except NotComp:
                continue
            if len(es) == 1 and not es[0].conds and not es[0].marks and contains(strip(es[0].val), lambda q: q.op == 'elem' and q.a[0].op == 'call'
                                                                                 and q.a[0].a[1] and strip(q.a[0].a[1][0]) is src):
                out.add(strip(call('len', (z,))))
    return out


def cp_strip(c):
    return tuple(strip(z) if isinstance(z, T) else z for z in c)


@check('C02', ['tn_types'])
def c02(r):
    with r.section('constructors'):
        cs = constructors(r)
    for label, v, conds in cs:
        with r.section('index of ' + label):
            keyed = r.observe_one('committee::Committee::authority_by_key', {1: v})
            byid = r.observe_one('committee::Committee::authority', {1: v})
            good = all(t.op == 'call' and leaf(t.a[0]) == 'get' for t in (keyed, byid))
            if not r.ok('lookups', good, 'lookup by key is %s, by identifier %s' % (show(keyed)[:200], show(byid)[:200])):
                continue
            X = strip(keyed.a[1][0])
            try:
                es = r.emits(byid.a[1][0])
            except NotComp as e0:
                es = index_loop(r, label, X)
                if es is None:
                    es = []
                if not es:
                    z = byid.a[1][0]
                    if (z.op == 'call' and leaf(z.a[0]) in ('new', 'default')) or (z.op == 'upd!' and leaf(z.a[1]) == 'clear'):
                        continue  # the loop that ran no iteration
                    r.undec.append('%s: index form %s' % (label, e0))
                    continue
            ok1 = len(es) == 1 and not es[0].conds and not es[0].marks
            r.ok('one entry per member', ok1, 'the identifier index is not one entry for every member: %s' % es)
            for e in es:
                val = strip(e.val)
                k, a = fld(val, '0'), fld(val, '1')
                elem = strip(fld(mk('elem', call('iter', (X,))), '1'))
                r.ok('entry value', a is elem, 'index entry value is %s, not the member %s' % (show(a)[:200], show(elem)))
                r.ok('entry key', is_id_of(k, lambda z: belongs(z, elem)), 'index key is not the hash of the full key of the member: %s' % show(k)[:300])
            r.ok('is_authority', member_test(r, v, byid), 'is_authority does not test the identifier index')
    with r.section('identifiers'):
        for fn, kp in (('committee::Authority::id', lambda z: z.op == 'fld' and root_param(z) == 1),
                       ('committee::AuthorityIdentifier::from', lambda z: z.op == 'param' and z.a[0] == 1)):
            for b in r.F.find(fn):
                for o in r.rets(b):
                    r.ok(b.path, is_id_of(o.ret, kp), 'identifier is not the hash of the full public key: %s' % r.otext(o))
        a = {key_field(r, 'committee::Authority::id'), key_field(r, 'committee::Authority::protocol_key')}
        r.ok('same key', len(a) == 1 and None not in a, 'Authority::id hashes another field than protocol_key reports: %s' % a)
    with r.section('listings'):
        X = r.observe_one('committee::Committee::authority_by_key', {}).a[1][0]
        Y = r.observe_one('committee::Committee::authority', {}).a[1][0]
        ex, ey = [strip(fld(mk('elem', call('iter', (z,))), '1')) for z in (X, Y)]
        lst(r, 'authorities', r.comp('committee::Committee::authorities'), lambda e: strip(e.val) is ey, None)
        key = strip(r.observe('committee::Authority::protocol_key', {1: ex}))
        keyalt = {key, strip(r.observe('committee::Authority::protocol_key', {1: ey})),
                  strip(fld(mk('elem', call('iter', (X,))), '0'))}
        lst(r, 'bls_keys', r.comp('committee::Committee::bls_keys'), lambda e: strip(e.val) in keyalt, None)
        selfk = lambda c: c_cmp('ne', lambda t: strip(t) in keyalt, lambda t: t.op == 'param' and t.a[0] == 2)(c)
        lst(r, 'others_keys_except', r.comp('committee::Committee::others_keys_except'), lambda e: strip(e.val) in keyalt, selfk)
        isid = lambda t: is_id_of(t, lambda z: strip(z) in keyalt)
        es = r.comp('committee::Committee::others_primaries_by_id')
        me = lambda t: contains(t, lambda z: z.op == 'param' and z.a[0] == 2)
        r.ok('others_primaries_by_id: members', es and all(isid(fld(e.val, '0')) and strip(fld(e.val, '1')) in keyalt for e in es),
             'entries are not (identifier, key) of each member: %s' % es[:2])
        for e in es:
            some_ = [c for c in e.conds if c[0] == 'is' and me(c[1])]
            ne = [c for c in e.conds if c_cmp('ne', isid, me)(c)]
            other = [c for c in e.conds if c not in some_ and c not in ne]
            pres = [c for c in some_ if c[3]]
            r.ok('others_primaries_by_id: exclusion', not other and not e.marks and (len(ne) == 1 if pres else not ne and some_) or
                 (len(ne) == 1 and not some_ and not other), 'a member is listed under [%s]' % ' & '.join(map(showc, e.conds))[:400])
        for o in r.rets('committee::Committee::number_of_workers'):
            r.ok('workers', is_const(o.ret) and o.ret.a[0] == 1, r.otext(o))
    with r.section('builder'):
        for fn in ('add_authority', 'add_authority_and_bootstrap'):
            g = r.graph('committee::CommitteeBuilder::' + fn)
            ins = [e for _, _, e in g.calls('BTreeMap::insert') if len(e.args) == 3 and e.args[2].op == 'agg' and path_match(e.args[2].a[0], 'committee::Authority')]
            r.ok(fn, len(ins) == 1, '%s records %d authorities' % (fn, len(ins)))
            for o in r.rets('committee::CommitteeBuilder::' + fn):
                r.ok(fn + ' always', any(e.k == 'call' and leaf(e.name) in ('insert', 'or_insert', 'extend') and 'BTreeMap' in e.name and any(contains(
                    a, lambda z: z.op == 'agg' and path_match(z.a[0], 'committee::Authority')) for a in e.args) for e in o.events),
                    'a member is not recorded when [%s]' % ' & '.join(map(showc, o.conds))[:300])
            for e in ins:
                k = r.observe('committee::Authority::protocol_key', {1: e.args[2]})
                r.ok(fn + ' key', e.args[1] is k and k.op == 'param', 'member stored under a key other than its own: %s' % e)
                ad = r.observe('committee::Authority::execution_address', {1: e.args[2]})
                r.ok(fn + ' address', ad.op == 'param' and ad is not k, 'execution address of the member is %s' % show(ad))
    with r.section('identifier forms'):
        ID = 'tn_types::committee::AuthorityIdentifier'
        for o in r.rets(r.fn('AuthorityIdentifier::serialize')):
            hr = [c for c in o.conds if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_human_readable']
            if not r.ok('serialize decides by format', len(hr) == 1, r.otext(o)):
                continue
            if hr[0][2]:
                r.ok('text form', o.ret.op == 'call' and leaf(o.ret.a[0]) == 'serialize_str' and contains(o.ret, lambda z: z.op == 'param' and z.a[0] == 1), r.otext(o))
            else:
                r.ok('binary form', contains(o.ret, f(par(1), '0')) and o.ret.op == 'call' and leaf(o.ret.a[0]) == 'serialize', r.otext(o))
        g = r.graph(r.fn('AuthorityIdentifier::fmt') if len(r.F.find('AuthorityIdentifier::fmt')) == 1 else disp(r, 'AuthorityIdentifier'))
        r.ok('display is base58 of all bytes', any(True for _, _, e in g.calls('bs58::encode') if strip(peel(e.args[0])) is strip(fld(mk('param', 1, 'self'), '0'))),
             'Display does not base58-encode the whole identifier')
        for _, _, e in g.calls('write_str'):
            x = strip(view(e.args[1]))
            r.ok('display writes all of it', x.op == 'call' and leaf(x.a[0]) in ('into_string', 'encode') and contains(x, lambda z: z.op == 'call' and leaf(z.a[0]) == 'encode'),
                 'Display writes %s' % show(x)[:200])
        for b in r.F.find('committee::Authority::deserialize'):
            for o in r.rets(b):
                if not is_err(o.ret):
                    x = strip(view(fld(fld(o.ret, '0'), 'inner')))
                    r.ok('a member is decoded as it is', not contains(x, lambda z: z.op in ('upd', 'upd!')) and contains(x, lambda z: z.op == 'call' and leaf(z.a[0]) == 'deserialize'),
                         'a decoded member is altered: %s' % r.otext(o))
        for o in r.outs(r.fn('AuthorityIdentifier::from_str')):
            if o.exit == 'ret' and not is_err(o.ret):
                v = o.ret
                okc = [c for c in o.conds if c[0] == 'is' and c[3]]
                dec = any(contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'decode') for c in okc)
                x = cat(fld(fld(v, '0'), '0'))
                while len(x) == 1 and x[0].op in ('fld', 'as') or len(x) == 1 and x[0].op == 'call' and leaf(x[0].a[0]) in ('try_into', 'try_from'):
                    x = cat(x[0].a[0] if x[0].op != 'call' else x[0].a[1][0])
                r.ok('text parse whole', len(x) == 1 and not contains(x[0], lambda z: z.op in ('upd!', 'upd')),
                     'the identifier is not the decoded bytes: %s' % r.otext(o))
                tri = any(c[1].op == 'call' and leaf(c[1].a[0]) in ('try_into', 'try_from') for c in okc) or \
                    any(c_cmp('eq', has(callp('len')), con(32))(c) for c in o.conds)
                r.ok('text parse exact', dec and tri and not contains(v, lambda z: z.op == 'call' and leaf(z.a[0]) in ('resize', 'onto', 'get')),
                     'an identifier can be parsed without exact base58 and length checks: %s' % r.otext(o))
        for b in r.F.find('AuthorityIdentifier::deserialize'):
            for o in r.rets(b):
                if is_err(o.ret):
                    continue
                r.ok('decode from either form', contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) in ('deserialize', 'parse', 'from_str', 'try_into', 'decode')), r.otext(o))


def disp(r, ty):
    for b in r.F.find(ty + '::fmt'):
        if 'Display' in b.path:
            return b
    raise MissingAnchor(ty + ' Display')


def member_test(r, v, byid):
    t = r.observe('committee::Committee::is_authority', {1: v})
    c = cond(t)
    if c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains_key':
        return strip(c[1].a[1][0]) is strip(byid.a[1][0]) and c[1].a[1][1].op == 'param' and c[1].a[1][1].a[0] == 2
    return c[0] == 'is' and c[3] and c[1].op == 'call' and leaf(c[1].a[0]) == 'get' and strip(c[1].a[1][0]) is strip(byid.a[1][0]) \
        and c[1].a[1][1].op == 'param' and c[1].a[1][1].a[0] == 2


def index_loop(r, label, X):
    b = r.F.bodies[label]
    out = []
    for o in r.rets(b, sides=False):
        for i, e in enumerate(o.events):
            if e.k == 'call' and leaf(e.name) == 'insert' and len(e.args) == 3 and 'BTreeMap' in e.name:
                out.append(cp.Emit([c for c in map(cp.ccanon, o.before(i)) if not cp.isnext(c) and any(
                    isinstance(z, T) and contains(z, lambda q: q.op == 'elem') for z in c[1:])],
                    cp.canon(agg('tuple', '', (('0', e.args[1]), ('1', e.args[2]))))))
    seen = {}
    for e in out:
        seen[(frozenset(e.conds), e.val.id)] = e
    return list(seen.values()) or None


def root_param(t):
    while t.op in ('fld', 'as', 'idx', 'call', 'cast', 'elem'):
        t = t.a[0] if t.op not in ('call', 'cast') else (t.a[1][0] if t.op == 'call' and t.a[1] else t.a[1] if t.op == 'cast' else UNIT)
    return t.a[0] if t.op == 'param' else None


def belongs(z, elem):
    return contains(strip(z), lambda q: q is elem)


def key_field(r, fn):
    for o in r.rets(fn):
        for z in subterms(strip(o.ret)):
            if z.op == 'fld' and z.a[0].op == 'fld' and z.a[0].a[0].op == 'param':
                return z.a[1]
    return None


def lst(r, nm, es, val, exclude):
    r.ok(nm + ': members', es and all(val(e) for e in es), 'listing does not hold the members: %s' % es[:2])
    for e in es:
        rest = [c for c in e.conds if exclude is None or not exclude(c)]
        ex = [c for c in e.conds if exclude is not None and exclude(c)]
        r.ok(nm + ': exactly', not e.marks and not rest and (exclude is None or len(ex) == 1),
             'a member is listed under [%s] %s' % (' & '.join(map(showc, e.conds))[:300], e.marks))


@check('C14', ['tn_types'])
def c14(r):
    MAX = 2048
    with r.section('validate'):
        outs = r.outs('RpcInfo::validate')

        def urlf(t):
            """'http'/'ws' when the term reads that url"""
            for z in subterms(t):
                if z.op == 'fld' and z.a[1] in ('http', 'ws') and root_param(z) == 1:
                    return z.a[1]
            return None

        def whole(t):
            """the term is (the text of) a url itself"""
            t = strip(t)
            while t.op == 'call' and leaf(t.a[0]) in ('as_str', 'as_ref', 'to_string', 'as_bytes', 'deref', 'into', 'to_owned', 'clone', 'borrow', 'into_string') and len(t.a[1]) == 1:
                t = strip(t.a[1][0])
            return t.op in ('fld', 'as', 'elem')

        PART = 'path|host|host_str|port|query|fragment|domain|has_host|username|password|authority|origin|cannot_be_a_base|starts_with|ends_with|is_empty|has_authority|port_or_known_default|path_segments'.split('|')

        def plain(c):
            """the condition is one whose meaning for length and scheme is clear"""
            if c[0] == 'cmp':
                return any(is_const(x) or x.op == 'str' for x in c[2:])
            if c[0] == 'is':
                return True
            if c[0] == 'true':
                return c[1].op == 'call' and leaf(c[1].a[0]) in PART
            return c[0] in ('const', 'isin')

        seen, unclear = set(), False
        for o in outs:
            if o.exit != 'ret' or is_err(o.ret):
                continue
            lens, sch = {}, {}
            ws = None
            for c in o.conds:
                if c[0] == 'cmp' and c[1] in ('le', 'lt') and c[2].op == 'call' and leaf(c[2].a[0]) == 'len' and is_const(c[3]) and whole(c[2].a[1][0]):
                    lens[urlf(c[2])] = c[3].a[0] - (c[1] == 'lt')
                if c[0] == 'cmp' and c[1] == 'eq':
                    for a, s in ((c[2], c[3]), (c[3], c[2])):
                        if s.op == 'str' and contains(a, lambda z: z.op == 'call' and leaf(z.a[0]) == 'scheme'):
                            sch[urlf(a)] = {s.a[0]}
                if c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains' and len(c[1].a[1]) == 2:
                    l, a = map(strip, c[1].a[1])
                    ss = [z.a[0] for z in subterms(l) if z.op == 'str']
                    if ss and l.op in ('agg', 'array') and contains(a, lambda z: z.op == 'call' and leaf(z.a[0]) == 'scheme'):
                        sch[urlf(a)] = set(ss)
                if c[0] == 'is' and c[2] in ('Ok', 'Some') and urlf(c[1]) == 'ws' and c[1].op == 'fld':
                    ws = c[3]
            t = r.otext(o)
            odd = [c for c in o.conds if not plain(c)] + [c for c in o.conds if cp.isnext(c)]
            odd = [c for c in odd if not (c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'contains')]

            def need(inst, good, msg):
                nonlocal unclear
                if good or not odd:
                    r.ok(inst, good, msg + ': ' + t)
                else:
                    unclear = True
                    r.undec.append('validate: %s' % showc(odd[0])[:200])
            need('http length', lens.get('http') is not None and lens['http'] <= MAX, 'accepted without the length bound on the http url')
            need('http scheme', sch.get('http') and sch['http'] <= {'http', 'https'}, 'accepted with an http url of another scheme')
            need('ws considered', ws is not None, 'accepted without looking at the optional url')
            if ws:
                need('ws length', lens.get('ws') is not None and lens['ws'] <= MAX, 'accepted without the length bound on the ws url')
                need('ws scheme', sch.get('ws') and sch['ws'] <= {'ws', 'wss'}, 'accepted with a ws url of another scheme')
            for h in sch.get('http', ()):
                for w in (sch.get('ws', ()) if ws else (None,)):
                    seen.add((h, ws, w, lens.get('http'), lens.get('ws')))
        for h in ('http', 'https'):
            for w, s in ((False, None), (True, 'ws'), (True, 'wss')):
                hit = [x for x in seen if x[0] == h and x[1] == w and x[2] == s]
                if not unclear:
                    r.ok('%s + %s usable' % (h, s), any(x[3] == MAX and (not w or x[4] == MAX) for x in hit),
                         'a valid record (%s, %s) up to the length limit is not accepted' % (h, s))
