"""C03-C07: signatures, proofs of possession, intents, key encodings, key ordering."""
from engine.rules import *
from engine.lib import *
from engine import comp as cp
from engine.comp import NotComp

VERIFY = 'min_sig::Signature::verify'
AGGV = 'min_sig::Signature::aggregate_verify'
LIBCHECKS = 'min_sig::Signature::verify|min_sig::Signature::aggregate_verify|min_sig::Signature::fast_aggregate_verify|' \
            'min_sig::Signature::fast_aggregate_verify_pre_aggregated|min_sig::Signature::verify_multiple_aggregate_signatures'
PUBS = {1: 'first', 2: 'second', 3: 'third'}


def lib_success(c, fn):
    """arguments of the library check whose success condition c states, or None"""
    if c[0] == 'is' and c[2] == 'BLST_SUCCESS' and c[3] and c[1].op == 'call' and path_match(c[1].a[0], fn):
        return [strip(x) for x in c[1].a[1]]
    return None


def dst_of(r):
    for o in r.rets(r.fn('BlsKeypair::sign')):
        for z in subterms(o.ret):
            if z.op == 'call' and path_match(z.a[0], 'SecretKey::sign') and len(z.a[1]) == 4:
                return z.a[1][2], z.a[1][3]
    return None, None


def is_true(t):
    return t.op == 'c' and t.a[1] == 'bool' and bool(t.a[0])


def single_check(r, conds, sig, msg, pk, what):
    """conds contain the success of one library verification of (sig, msg, pk), fully checked"""
    dst, aug = dst_of(r)
    cs = [a for a in (lib_success(c, VERIFY) for c in conds) if a]
    txt = ' & '.join(showc(c) for c in conds)[-500:]
    if not r.ok(what + ': decided by the library', cs, 'accepts without a successful library verification: [%s]' % txt):
        return
    for a in cs:
        if sig(a[0]) and len(a) == 7 and is_true(a[1]) and msg(a[2]) and strip(a[3]) is strip(dst) and cat(a[4]) == cat(aug) and pk(a[5]) and is_true(a[6]):
            r.ok(what, True)
            return
    a = cs[0]
    r.ok(what + ': signature', sig(a[0]), 'the signature verified is %s' % show(a[0])[:120])
    r.ok(what + ': signature group check', len(a) == 7 and is_true(a[1]), 'the signature is not checked to be in the group: %s' % show(a[1])[:80])
    r.ok(what + ': message', msg(a[2]), 'the message verified is %s' % show(a[2])[:200])
    r.ok(what + ': domain tag', strip(a[3]) is strip(dst) and cat(a[4]) == cat(aug), 'domain tag/augmentation are %s, %s; signing uses %s' % (show(a[3])[:80], show(a[4])[:80], show(dst)[:80] if dst else None))
    r.ok(what + ': key', pk(a[5]), 'the key verified against is %s' % show(a[5])[:120])
    r.ok(what + ': key validation', is_true(a[6]), 'the public key is not validated: %s' % show(a[6])[:80])


def p(i):
    return lambda t: param_of(t) == i


def raw(i):
    return lambda t: [x for x in cat(t)] == [mk_param(t, i)] or (len(cat(t)) == 1 and cat(t)[0].op == 'param' and cat(t)[0].a[0] == i)


def mk_param(t, i):
    return None


def enc(i):
    return lambda t: encoded(t) is not None and encoded(t).op == 'param' and encoded(t).a[0] == i


API = [('BlsSignature::verify_raw', 1, raw(2), 3), ('bls_verify_secure', 1, raw(3), 2),
       ('BlsSignature::verify_secure', 1, enc(2), 3), ('BlsSignature::verify_secure_bytes', 1, raw(2), 3)]


@check('C03', ['tn_types'])
def c03(r):
    with r.section('single signatures'):
        known = set()
        for fn, s, m, k in API:
            b = r.fn(fn)
            known.add(b.path)
            pos = [c for c in map(positive, r.outs(b)) if c is not None]
            r.ok(fn + ' can accept', pos, 'no path of %s accepts' % fn)
            for c in pos:
                single_check(r, c, p(s), m, p(k), fn)
    with r.section('every use of the library check'):
        dst, aug = dst_of(r)
        sites = r.callers(LIBCHECKS, 'tn_types')
        r.ok('sites', sites, 'no use of the signature library check found')
        for b in r.roots([b for b, _ in sites]):
            for _, _, e in r.graph(b).calls(LIBCHECKS):
                nm = leaf(e.name)
                what = '%s in %s' % (nm, b.path)
                if nm in ('verify', 'aggregate_verify') and len(e.args) in (6, 7):
                    d = 3
                    r.ok(what + ' checks', is_true(e.args[1]) and is_true(e.args[-1]), 'group or key validation switched off: %s' % repr(e)[:300])
                    r.ok(what + ' tag', strip(e.args[d]) is strip(dst), 'domain tag %s is not the one used for signing' % show(e.args[d])[:100])
                else:
                    r.ok(what, False, 'library check %s does not validate the public keys' % nm)
    with r.section('aggregates'):
        b = r.fn('BlsAggregateSignature::verify_secure')
        outs = [o for o in r.outs(b, sides=False) if o.exit == 'ret']
        acc = []
        for o in outs:
            c = positive(o)
            if c is None:
                continue
            a = [x for x in (lib_success(z, AGGV) for z in c) if x]
            t = ' & '.join(map(showc, c))[-400:]
            if not r.ok('decided by the library', len(a) == 1 and len(a[0]) == 6, 'accepts without a successful aggregate verification [%s]' % t):
                continue
            acc.append((o, a[0]))
            r.ok('non-empty', any(nonempty(z, 3) for z in c), 'an empty signer list can be accepted [%s]' % t)
            a = a[0]
            r.ok('the signature', contains(a[0], par(1)) and not contains(a[0], par(2)), 'verifies signature %s' % show(a[0])[:100])
            r.ok('checks', is_true(a[1]) and is_true(a[5]), 'group or key validation switched off')
            r.ok('domain tag', strip(a[3]) is strip(dst_of(r)[0]), 'domain tag is %s' % show(a[3])[:80])
        r.ok('can accept', acc, 'no path accepts an aggregate')

        def part(i):
            def pick(o):
                for c in positive(o) or ():
                    if lib_success(c, AGGV):
                        return c[1].a[1][i]
                return None
            return pick
        A = [o for o, _ in acc]

        def list_ok(name, i, val):
            try:
                es = cp.comp(r.ctx(), A, pick=part(i))
            except NotComp as e:
                r.undec.append('%s: %s' % (name, e))
                return
            if not es:
                r.undec.append('%s: contents not readable' % name)
                return
            es = [e for e in es if not (e.marks and all(m[0] == 'repeat' and is_keycount(m[1][0]) for m in e.marks)) or not val(e.val)]
            r.ok(name, all(not own_conds(e, A) and not e.marks and val(e.val) for e in es) and len(es) <= 1, '%s: %s' % (name, es))
        is_keycount = lambda t: strip(t).op == 'call' and leaf(strip(t).a[0]) == 'len' and (param_of(strip(t).a[1][0]) == 3 or contains(strip(t), par(3)))
        list_ok('every key once', 4, lambda t: elem_of(t, 3))
        list_ok('one message per key', 2, lambda t: enc(2)(view(strip(t))))
    with r.section('aggregation'):
        for o in r.rets('BlsAggregateSignature::aggregate', sides=False):
            if is_err(o.ret):
                continue
            cs = [z for z in subterms(o.ret) if z.op == 'call' and path_match(z.a[0], 'AggregateSignature::aggregate')]
            if r.ok('library aggregation', cs, 'aggregate is %s' % show(o.ret)[:200]):
                try:
                    es = r.emits(cs[0].a[1][0])
                    r.ok('all signatures', len(es) == 1 and not own_conds(es[0], [o]) and not es[0].marks and elem_of(es[0].val, 1), 'aggregated are %s' % es)
                except NotComp as e:
                    r.undec.append('aggregate: %s' % e)
                r.ok('group check passed on', p(2)(cs[0].a[1][1]) or is_true(cs[0].a[1][1]), 'group check flag is %s' % show(cs[0].a[1][1]))
    with r.section('signing'):
        dst, aug = dst_of(r)
        r.ok('tag is set', dst is not None and dst.op == 'str' and dst.a[0], 'signing uses domain tag %s' % (show(dst) if dst else None))
        n = 0
        for b in r.F.find('sign'):
            if 'crypto::Signer' not in b.d.get('trait', ''):
                continue
            n += 1
            for o in r.rets(b):
                cs = [z for z in subterms(strip(o.ret)) if z.op == 'call' and path_match(z.a[0], 'SecretKey::sign') and len(z.a[1]) == 4]
                good = cs and param_of(cs[0].a[1][0]) == 1 and raw(2)(cs[0].a[1][1]) and strip(cs[0].a[1][2]) is strip(dst) and cat(cs[0].a[1][3]) == cat(aug)
                r.ok(b.path, good, 'signs %s' % r.otext(o))
        r.ok('signers', n >= 2, 'found %d signers' % n)
        for fn, m, s in (('BlsSignature::new_secure', enc(1), 2), ('BlsSignature::new_secure_bytes', raw(2), 3)):
            for o in r.rets(fn):
                t = view(strip(o.ret))
                r.ok(fn, t.op == 'call' and leaf(t.a[0]) == 'sign' and param_of(t.a[1][0]) == s and m(t.a[1][1]), r.otext(o))


def nonempty(c, i):
    """c implies that parameter 2 (the list of keys) is not empty"""
    if c[0] == 'is' and cp.isnext(c):
        return False
    is_len = lambda t: strip(t).op == 'call' and leaf(strip(t).a[0]) == 'len' and param_of(strip(t).a[1][0]) == 3
    if c[0] == 'cmp' and c[1] == 'ne':
        return (is_len(c[2]) and is_const(c[3]) and c[3].a[0] == 0) or (is_len(c[3]) and is_const(c[2]) and c[2].a[0] == 0)
    if c[0] == 'cmp' and c[1] in ('le', 'lt') and is_const(c[2]) and is_len(c[3]):
        return c[2].a[0] + (c[1] == 'lt') >= 1
    if c[0] == 'is' and c[2] in ('Some', 'Ok') and c[3] and c[1].op == 'call' and leaf(c[1].a[0]) in ('first', 'last', 'split_first'):
        return param_of(c[1].a[1][0]) == 3
    return False


def elem_of(t, i):
    """t is an element of the list parameter (through newtype fields and wrappers)"""
    t = view(strip(t))
    while t.op in ('fld', 'as'):
        t = t.a[0]
    return t.op == 'elem' and param_of(t.a[0].a[1][0] if t.a[0].op == 'call' else t.a[0]) == i


POP = ('ProofOfPossession', 'V0', 'Telcoin')


def keybytes(t, k):
    """t is the compressed encoding of the key satisfying k"""
    t = view(strip(t))
    if t.op == 'call' and leaf(t.a[0]) in ('to_bytes', 'compress'):
        return k(t.a[1][0])
    return t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'fld' and t.a[0].a[1] == 'bytes' and k(t.a[0].a[0])


def pop_message(key, addr):
    def m(t):
        xs = cat(t)
        return len(xs) == 3 and encoded(xs[0]) is not None and intent_of(encoded(xs[0])) == POP and keybytes(xs[1], key) and addr(xs[2])
    return m


@check('C04', ['tn_types'])
def c04(r):
    with r.section('message'):
        for o in r.rets('construct_proof_of_possession_message'):
            r.ok('layout', pop_message(p(1), lambda t: view(t).op == 'param' and view(t).a[0] == 2)(o.ret), 'the message is %s' % [show(x)[:150] for x in cat(o.ret)])
    with r.section('verifier'):
        pos = [c for c in map(positive, r.outs('verify_proof_of_possession_bls')) if c is not None]
        r.ok('can accept', pos, 'no path accepts')
        isaddr = lambda t: view(t).op == 'param' and view(t).a[0] == 3
        for c in pos:
            t = ' & '.join(map(showc, c))[-500:]
            val = [z for z in c if (z[0] == 'is' and z[3] and z[1].op == 'call' and leaf(z[1].a[0]) in ('validate', 'key_validate') and param_of(z[1].a[1][0]) == 2)]
            r.ok('key validated', val, 'a proof is accepted without validating the key: [%s]' % t)
            single_check(r, c, p(1), pop_message(p(2), isaddr), p(2), 'proof')
    with r.section('producer'):
        for o in r.rets('generate_proof_of_possession_bls_for_test'):
            if is_err(o.ret):
                continue
            cs = [z for z in subterms(strip(o.ret)) if z.op == 'call' and leaf(z.a[0]) == 'sign' and len(z.a[1]) >= 2]
            good = cs and pop_message(p(1), lambda t: view(t).op == 'param' and view(t).a[0] == 2)(cs[0].a[1][1])
            r.ok('signed message', good, 'the producer signs %s' % r.otext(o))
    with r.section('network proof'):
        def net(t, pub):
            v = encoded(t)
            if v is None or v.op != 'agg' or not path_match(v.a[0], 'intent::IntentMessage') or intent_of(fld(v, 'intent')) != POP:
                return False
            xs = cat(fld(v, 'value'))
            return len(xs) == 2 and xs[0].op == 'call' and leaf(xs[0].a[0]) == 'encode_protobuf' and pub(xs[0].a[1][0]) and \
                encoded(xs[1]) is not None
        for o in r.outs('verify_proof_of_possession_network'):
            c = positive(o)
            if c is None:
                continue
            v = [z[1] for z in c if z[0] == 'true' and z[2] and z[1].op == 'call' and path_match(z[1].a[0], 'PublicKey::verify')]
            t = ' & '.join(map(showc, c))[-500:]
            if r.ok('decided by the library', len(v) == 1, 'accepts without verification: [%s]' % t):
                a = v[0].a[1]
                r.ok('key', param_of(a[0]) == 2, 'verified against key %s' % show(a[0])[:100])
                r.ok('proof', view(strip(a[2])).op == 'param' and param_of(a[2]) == 1, 'the proof verified is %s' % show(a[2])[:100])
                r.ok('message', net(a[1], p(2)) and genesis(a[1]) == 3, 'the message verified is %s' % show(a[1])[:400])
        for o in r.rets('generate_proof_of_possession_network'):
            v = [z for z in subterms(strip(o.ret)) if z.op == 'call' and path_match(z.a[0], 'Keypair::sign')]
            if r.ok('signs', v, r.otext(o)):
                a = v[0].a[1]
                pub = lambda t: t.op == 'call' and leaf(t.a[0]) == 'public' and param_of(t.a[1][0]) == 1
                r.ok('signs with', param_of(a[0]) == 1, 'signs with %s' % show(a[0])[:100])
                r.ok('signed message', net(a[1], pub) and genesis(a[1]) == 2, 'the message signed is %s' % show(a[1])[:400])


def genesis(t):
    xs = cat(fld(encoded(t), 'value'))
    g = view(encoded(xs[1]))
    return g.a[0] if g.op == 'param' else None


@check('C05', ['tn_types'])
def c05(r):
    with r.section('distinct bytes'):
        for ty, least in (('IntentScope', 2), ('AppId', 2), ('IntentVersion', 1)):
            t = r.F.type('intent::' + ty)
            names = {v['n'] for v in t['variants']}
            by = {}
            for o in r.rets(r.fn(ty + '::serialize')):
                vs = [c[2] for c in o.conds if c[0] == 'is' and c[3] and param_of(c[1]) == 1] or (list(names) if len(names) == 1 else [])
                b = one_byte(o.ret)
                if not r.ok('%s: one byte' % ty, len(vs) == 1 and b is not None, 'serialized form: %s' % r.otext(o)):
                    continue
                r.ok('%s byte of %s' % (ty, vs[0]), b not in by or by[b] == vs[0], '%s and %s share byte %s' % (by.get(b), vs[0], b))
                by[b] = vs[0]
            r.ok('%s: all variants' % ty, set(by.values()) == names and len(names) >= least, 'bytes assigned: %s' % by)
            back = {}
            for o in r.rets(r.fn(ty + '::deserialize')):
                if is_err(o.ret):
                    continue
                v = fld(o.ret, '0') if o.ret.op == 'agg' and o.ret.a[1] == 'Ok' else o.ret
                ks = [k for c in o.conds for k in [eqconst(c)] if k is not None]
                if r.ok('%s: parsed' % ty, v.op == 'agg' and len(ks) == 1, 'parsed under %s' % r.otext(o)):
                    back[ks[0]] = v.a[1]
            r.ok('%s: parse inverts write' % ty, back == by, 'written %s, parsed %s' % (by, back))
    with r.section('layout'):
        for ty, want in (('Intent', ['scope', 'version', 'app_id']), ('IntentMessage', ['intent', 'value'])):
            for o in r.rets(r.fn('%s::serialize' % ty)):
                if is_err(o.ret):
                    continue
                fs = [(e.args[-1], leaf(e.name)) for e in o.events if e.k == 'call' and leaf(e.name) in ('serialize_field', 'serialize_element', 'serialize_entry')]
                got = [x.a[1] if x.op == 'fld' and param_of(x) == 1 else show(x) for x, _ in fs]
                r.ok(ty, got == want, '%s is serialized as %s' % (ty, got))
    with r.section('fixed purposes'):
        for fn, app in (('Intent::telcoin', 'Telcoin'), ('Intent::consensus', 'Consensus')):
            for o in r.rets(fn):
                it = intent_of(o.ret)
                r.ok(fn, it is not None and it[1:] == ('V0', app) and isinstance(it[0], T) and param_of(it[0]) == 1, r.otext(o))
        for o in r.rets('crypto::to_intent_message'):
            t = o.ret
            r.ok('to_intent_message', t.op == 'agg' and path_match(t.a[0], 'IntentMessage') and intent_of(fld(t, 'intent')) == ('ConsensusDigest', 'V0', 'Consensus')
                 and fld(t, 'value').op == 'param', r.otext(o))
        for o in r.rets('IntentMessage::new'):
            t = o.ret
            r.ok('IntentMessage::new', t.op == 'agg' and param_of(fld(t, 'intent')) == 1 and param_of(fld(t, 'value')) == 2, r.otext(o))
        for o in r.rets('construct_proof_of_possession_message'):
            xs = cat(o.ret)
            r.ok('possession prefix', xs and encoded(xs[0]) is not None and intent_of(encoded(xs[0])) == POP, 'prefix is %s' % (show(xs[0]) if xs else None))
        for fn in ('generate_proof_of_possession_network', 'verify_proof_of_possession_network'):
            its = set()
            for o in r.rets(fn):
                its |= {intent_of(z) for z in subterms(o.ret) if intent_of(z)}
            r.ok(fn, its == {POP}, '%s uses intents %s' % (fn, its))
    with r.section('parse'):
        for o in r.rets(r.fn('Intent::from_str')):
            if is_err(o.ret):
                continue
            t = fld(o.ret, '0') if o.ret.op == 'agg' and o.ret.a[1] == 'Ok' else o.ret
            ln = [c for c in o.conds if c[0] == 'cmp' and c[1] == 'eq' and any(is_const(x) and x.a[0] == 3 for x in c[2:4]) and any(
                x.op == 'call' and leaf(x.a[0]) == 'len' for x in c[2:4])]
            arr = any(c[0] == 'is' and c[3] and any(z.op == 'call' and leaf(z.a[0]) in ('try_from', 'try_into', 'decode_to_slice') for z in subterms(c[1])) for c in o.conds)
            r.ok('three bytes', ln or arr, 'parsed without a length check: %s' % r.otext(o))
            for n, i in (('scope', 0), ('version', 1), ('app_id', 2)):
                v = fld(t, n)
                ix = {k for z in subterms(strip(v)) for k in [index_of(z)] if k is not None}
                r.ok('field ' + n, ix == {i}, 'field %s is parsed from byte(s) %s' % (n, ix))
                one = [z for z in subterms(strip(v)) if z.op == 'agg' and z.a[0] == 'array' and len(z.a[2]) == 1]
                r.ok('byte ' + n, all(index_of(strip(view(z.a[2][0][1]))) is not None for z in one), 'field %s is parsed from an altered byte: %s' % (n, show(v)[:200]))
            for z in subterms(strip(t)):
                if z.op == 'call' and leaf(z.a[0]) in ('decode', 'decode_to_slice') and 'hex' in z.a[0]:
                    x = view(z.a[1][0])
                    while x.op in ('fld', 'as') or x.op == 'call' and leaf(x.a[0]) in ('strip_prefix', 'unwrap_or', 'trim_start_matches', 'unwrap_or_default'):
                        x = view(x.a[0] if x.op != 'call' else x.a[1][0])
                    r.ok('whole text', x.op == 'param', 'only a part of the text is parsed: %s' % show(z)[:200])
        for ty in ('IntentScope', 'AppId', 'IntentVersion'):
            for b in r.F.find('intent::%s::try_from' % ty):
                for o in r.rets(b):
                    if is_err(o.ret):
                        continue
                    for z in subterms(strip(o.ret)):
                        if z.op == 'agg' and z.a[0] == 'array' and len(z.a[2]) == 1:
                            r.ok('one byte of ' + ty, view(strip(z.a[2][0][1])).op == 'param', '%s is read from an altered byte: %s' % (ty, r.otext(o)))


def index_of(z):
    if z.op == 'call' and leaf(z.a[0]) in ('index', 'get') and len(z.a[1]) == 2 and is_const(z.a[1][1]):
        return z.a[1][1].a[0]
    if z.op == 'idx' and is_const(z.a[1]):
        return z.a[1].a[0]
    return None


def one_byte(t):
    if t.op == 'call' and leaf(t.a[0]) in ('serialize', 'serialize_u8') and t.a[1]:
        if t.a[0].startswith('<u8') or 'u8' in t.a[0] or leaf(t.a[0]) == 'serialize_u8':
            cs = [x for x in t.a[1] if is_const(x)]
            return cs[0].a[0] if len(cs) == 1 else None
    return None


def eqconst(c):
    if c[0] == 'cmp' and c[1] == 'eq':
        for x in c[2:4]:
            if is_const(x):
                return x.a[0]
    return None


DECODERS = {'BlsSignature': 'min_sig::Signature::from_bytes|min_sig::Signature::deserialize',
            'BlsPublicKeyBytes': 'min_sig::PublicKey::from_bytes|min_sig::PublicKey::deserialize|min_sig::PublicKey::key_validate',
            'NetworkPublicKey': 'PublicKey::try_decode_protobuf'}
TYPES = {'BlsSignature': ('to_bytes', 'compress'), 'BlsPublicKeyBytes': (), 'NetworkPublicKey': ('encode_protobuf',), 'Digest': ()}


def visitor(r, ty, m):
    bs = [b for b in r.F.find(m) if ('::%s as ' % ty) in b.path and 'deserialize' in b.path]
    if len(bs) != 1:
        raise MissingAnchor('%s of the %s visitor: %d' % (m, ty, len(bs)))
    return bs[0]


def whole_input(t, i):
    t = view(strip(t))
    return t.op == 'param' and t.a[0] == i


def b58(t, i):
    """t is the exactly decoded base58 text of parameter i: decode(v).into_vec()?"""
    t = view(strip(t))
    while t.op in ('fld', 'as'):
        t = t.a[0]
    return t.op == 'call' and leaf(t.a[0]) == 'into_vec' and t.a[1][0].op == 'call' and leaf(t.a[1][0].a[0]) == 'decode' and param_of(t.a[1][0].a[1][0]) == i


@check('C06', ['tn_types'])
def c06(r):
    for ty in ('BlsSignature', 'BlsPublicKeyBytes', 'NetworkPublicKey', 'Digest'):
        with r.section(ty + ' binary'):
            decode_outs(r, ty, 'visit_bytes', lambda t: whole_input(t, 2))
        with r.section(ty + ' text'):
            decode_outs(r, ty, 'visit_str', lambda t: text_bytes(r, t))
        with r.section(ty + ' forms'):
            ser, de = r.fn('crypto::%s::serialize' % ty if ty == 'Digest' else ty + '::serialize'), None
            human = {}
            for o in r.rets(ser):
                h = [c for c in o.conds if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_human_readable']
                if r.ok('decides by format', len(h) == 1, r.otext(o)):
                    human[h[0][2]] = o
            for hr in (True, False):
                if not r.ok('form %s' % hr, hr in human, 'no %s form is written' % ('text' if hr else 'binary')):
                    continue
                t = strip(human[hr].ret)
                want = 'serialize_str' if hr else 'serialize_bytes'
                if not r.ok('call %s' % want, t.op == 'call' and leaf(t.a[0]) == want, r.otext(human[hr])):
                    continue
                x = t.a[1][1]
                if hr:
                    x = text_of(r, x, ty)
                r.ok('bytes written (%s)' % ('text' if hr else 'binary'), x is not None and own_bytes(x, ty), 'written are %s' % show(t.a[1][1])[:200])
            ds = [b for b in r.F.find('deserialize') if ('::%s as ' % ty) in b.path and b.path.endswith('Deserialize>::deserialize')]
            for b in ds:
                seen = set()
                for o in r.rets(b):
                    h = [c for c in o.conds if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_human_readable']
                    t = strip(o.ret)
                    if r.ok('read by format', len(h) == 1 and t.op == 'call', r.otext(o)):
                        want = ('deserialize_str', 'deserialize_string') if h[0][2] else ('deserialize_bytes', 'deserialize_byte_buf')
                        r.ok('reads what is written', leaf(t.a[0]) in want, r.otext(o))
                        seen.add(h[0][2])
                r.ok('both forms read', seen == {True, False}, 'forms read: %s' % seen)
    with r.section('BlsPublicKey'):
        for o in r.rets(r.fn('BlsPublicKey::deserialize')):
            if is_err(o.ret):
                continue
            t = o.ret
            v = fld(t, '0') if t.op == 'agg' and t.a[1] == 'Ok' else t
            src = [z for z in subterms(strip(v)) if z.op == 'call' and leaf(z.a[0]) in ('deserialize_str', 'deserialize_bytes')]
            r.ok('through the checked bytes', len({z.id for z in src}) == 1 and contains(src[0], lambda z: z.op == 'agg' and 'BlsPublicKeyBytes' in z.a[0]) if src else False, r.otext(o))
        for o in r.rets('BlsPublicKey::from_literal_bytes'):
            c = positive(o)
            if c is None:
                continue
            good = [z for z in c if z[0] == 'is' and z[3] and z[1].op == 'call' and path_match(z[1].a[0], DECODERS['BlsPublicKeyBytes']) and whole_input(z[1].a[1][0], 1)]
            r.ok('from_literal_bytes', good, 'accepts bytes the library did not validate: %s' % r.otext(o))
            if good:
                v = fld(o.ret, '0') if o.ret.op == 'agg' else o.ret
                r.ok('from_literal_bytes value', v.op == 'agg' and contains(fld(v, 'pubkey'), lambda z: z is good[0][1]), r.otext(o))
        for o in r.rets('BlsSignature::from_bytes'):
            c = positive(o)
            if c is None:
                continue
            good = [z for z in c if z[0] == 'is' and z[3] and z[1].op == 'call' and path_match(z[1].a[0], DECODERS['BlsSignature']) and whole_input(z[1].a[1][0], 1)]
            r.ok('signature from_bytes', good and contains(o.ret, lambda z: z is good[0][1]), 'accepts bytes the library did not validate: %s' % r.otext(o))
        for n in (96, 192):
            for o in r.outs('BlsPublicKey::is_plausible_encoding'):
                if o.exit != 'ret':
                    continue
                sub = lambda z: const(n, 'usize') if z.op == 'call' and leaf(z.a[0]) == 'len' and param_of(z.a[1][0]) == 1 else None
                if possible(o.conds, sub):
                    v = value(o.ret, sub)
                    (v is None and r.undec.append('screen: %s' % r.otext(o))) or r.ok('length %d passes the screen' % n, v is not False, 'length %d: %s' % (n, r.otext(o)))
    with r.section('private key'):
        for o in r.rets('BlsKeypair::from_bytes'):
            if not is_err(o.ret):
                ks = [z for z in subterms(strip(o.ret)) if z.op == 'call' and path_match(z.a[0], 'SecretKey::from_bytes|SecretKey::deserialize')]
                r.ok('from all bytes', ks and all(whole_input(z.a[1][0], 1) for z in ks), r.otext(o))
    with r.section('other constructors'):
        for b in r.roots(r.construct('bls_signature::BlsSignature', crate='tn_types')):
            if path_match(b.path, 'BlsSignature::from|BlsSignature::clone|BlsAggregateSignature::to_signature|BlsSignature::from_bytes'):
                continue
            for o in r.rets(b):
                for z in subterms(o.ret):
                    if z.op == 'agg' and path_match(z.a[0], 'bls_signature::BlsSignature'):
                        x = fld(z, '0')
                        while x.op in ('fld', 'as'):
                            x = x.a[0]
                        r.ok('signature from ' + b.path, x.op == 'param' or (x.op == 'call' and path_match(x.a[0], DECODERS['BlsSignature'] + '|SecretKey::sign|AggregateSignature::to_signature')),
                             'a signature is made of %s' % show(x)[:200])


def text_bytes(r, t):
    return b58(t, 2)


def text_of(r, t, ty):
    """the bytes whose base58 text t is"""
    t = view(strip(t))
    if t.op == 'call' and leaf(t.a[0]) == 'into_string' and t.a[1][0].op == 'call' and leaf(t.a[1][0].a[0]) == 'encode':
        return t.a[1][0].a[1][0]
    if t.op == 'call' and leaf(t.a[0]) == 'to_string' and param_of(t.a[1][0]) == 1:
        # through Display
        bs = [b for b in r.F.find(ty + '::fmt') if 'Display' in b.path]
        for b in bs:
            es = {e.args[0] for _, _, e in r.graph(b).calls('bs58::encode')}
            if len(es) == 1:
                return list(es)[0]
    return None


def own_bytes(t, ty):
    t = view(strip(t))
    if t.op == 'call' and leaf(t.a[0]) in TYPES[ty] and t.a[1]:
        x = t.a[1][0]
        return x.op == 'param' and x.a[0] == 1 or (x.op == 'fld' and param_of(x) == 1)
    if not TYPES[ty]:
        return t.op == 'fld' and t.a[0].op == 'param' and t.a[0].a[0] == 1
    return False


def decode_outs(r, ty, m, src):
    """every accepted input of the visitor method is accepted by the library decoder on the whole input (exact length for digests)"""
    outs = r.outs(visitor(r, ty, m))
    pos = [(o, positive(o)) for o in outs]
    pos = [(o, c) for o, c in pos if c is not None]
    r.ok(m + ' can accept', pos, 'no input is accepted')
    for o, c in pos:
        t = r.otext(o)
        if m == 'visit_str':
            r.ok('text decoded', any(z[0] == 'is' and z[3] and z[1].op == 'call' and leaf(z[1].a[0]) == 'into_vec' for z in c) or
                 any(z[0] == 'is' and z[3] and b58ish(z[1]) for z in c), 'text accepted without a successful base58 decoding: %s' % t)
        v = fld(o.ret, '0') if o.ret.op == 'agg' and o.ret.a[1] == 'Ok' else o.ret
        if ty == 'Digest':
            digest_exact(r, m, o, c, v, src, t)
            continue
        good = [z for z in c if z[0] == 'is' and z[3] and z[1].op == 'call' and path_match(z[1].a[0], DECODERS[ty])]
        if r.ok(m + ' validated', good, 'input accepted that the library did not validate: %s' % t):
            r.ok(m + ' whole input', any(src(z[1].a[1][0]) for z in good), 'what is validated is %s' % show(good[0][1].a[1][0])[:200])
            r.ok(m + ' value', any(contains(v, lambda q: q is z[1]) for z in good), 'the value is not what was validated: %s' % show(v)[:200])


def b58ish(t):
    return contains(t, lambda z: z.op == 'call' and leaf(z.a[0]) == 'decode' and 'bs58' in z.a[0])


def digest_exact(r, m, o, c, v, src, t):
    """the digest is the whole input, whose length was found to be exactly the digest length"""
    d = fld(v, 'digest')
    xs = cat(d)
    x = xs[0] if len(xs) == 1 else d
    tf = try_array(x)
    if tf is not None:
        r.ok(m + ' whole input', src(tf) or onto_exact(o, tf) or onto_cut(tf), 'digest is made of %s' % show(tf)[:200])
        return
    if m == 'visit_str' and not src(x):
        r.ok(m + ' whole input', onto_exact(o, x), 'text of the wrong length is padded or cut: the digest is %s' % show(x)[:200])
        return
    r.ok(m + ' whole input', src(x), 'digest is made of %s' % show(x)[:200])
    r.ok(m + ' exact length', any(z[0] == 'cmp' and z[1] == 'eq' and any(q.op == 'call' and leaf(q.a[0]) == 'len' and src(q.a[1][0]) for q in z[2:4]) for z in c),
         'accepted without the exact length check: %s' % t)


def try_array(x):
    """slice x is a fixed array converted from with a length check"""
    y = x
    while y.op in ('fld', 'as'):
        y = y.a[0]
    if y.op == 'call' and leaf(y.a[0]) in ('try_from', 'try_into') and '[' in y.a[0]:
        return y.a[1][0]
    return None


def onto_cut(t):
    """the decoded prefix of the buffer (its length is the returned one)"""
    t = strip(t)
    while t.op == 'call' and leaf(t.a[0]) in ALIAS and t.a[1]:
        t = t.a[1][0]
    return t.op == 'call' and leaf(t.a[0]) == 'index' and t.a[1][1].op == 'agg' and 'RangeTo' in t.a[1][1].a[0] and 'Inclusive' not in t.a[1][1].a[0] and \
        contains(t.a[1][1], lambda q: q.op == 'call' and leaf(q.a[0]) == 'onto')


def onto_exact(o, x):
    """decoding into a fixed buffer is exact only if the returned length was compared (or used to cut the buffer, whose length was then compared)"""
    def n_of(z):
        return contains(z, lambda q: q.op == 'call' and leaf(q.a[0]) == 'onto')
    for c in o.conds:
        if c[0] == 'cmp' and c[1] == 'eq' and any(n_of(z) for z in c[2:4]):
            return True
    return False


@check('C07', ['tn_types'])
def c07(r):
    BYTES = ('bytes', '0')

    def side(t, i):
        """what of parameter i the term is: 'key' (the point or its encoding), or None"""
        t = view(strip(t))
        while t.op == 'call' and leaf(t.a[0]) in ('to_bytes', 'compress', 'serialize', 'iter') and len(t.a[1]) == 1:
            t = view(t.a[1][0])
        names = []
        while t.op == 'fld':
            names.append(t.a[1])
            t = t.a[0]
        if t.op != 'param' or t.a[0] != i:
            return None
        return tuple(reversed(names))

    FULL = {'BlsPublicKey': {(), ('pubkey',), ('bytes',), BYTES}, 'BlsPublicKeyBytes': {(), ('0',)}}
    for ty in ('BlsPublicKey', 'BlsPublicKeyBytes'):
        full = FULL[ty]
        ordf = full if ty == 'BlsPublicKeyBytes' else full - {('pubkey',)}
        with r.section(ty + ' equality'):
            for o in r.rets(r.fn(ty + '::eq')):
                c = positive(o)
                if c is None:
                    n = [z for z in o.conds if z[0] in ('cmp', 'true', 'is')]
                    r.ok('unequal only when different', n and all(differs(z, side, full) or same(z, side, full) for z in n) and any(differs(z, side, full) for z in n), r.otext(o))
                    continue
                r.ok('equal only when the keys are', any(same(z, side, full) for z in c), 'equal under [%s]' % ' & '.join(map(showc, c))[:300])
        with r.section(ty + ' order'):
            for o in r.rets(r.fn(ty + '::cmp')):
                t = strip(o.ret)
                r.ok('compares the encodings', t.op == 'call' and leaf(t.a[0]) == 'cmp' and len(t.a[1]) == 2 and side(t.a[1][0], 1) in ordf and side(t.a[1][1], 2) in ordf and not
                     [c for c in o.conds if c[0] != 'always'], r.otext(o))
            for o in r.rets(r.fn(ty + '::partial_cmp')):
                t = strip(o.ret)
                v = fld(t, '0') if t.op == 'agg' and t.a[1] == 'Some' else t
                r.ok('agrees with the total order', v.op == 'call' and leaf(v.a[0]) in ('cmp', 'partial_cmp') and side(v.a[1][0], 1) in ordf and side(v.a[1][1], 2) in ordf, r.otext(o))
        with r.section(ty + ' hash'):
            for o in r.rets(r.fn(ty + '::hash')):
                hs = [e for e in o.events if e.k == 'call' and (leaf(e.name) in ('hash', 'hash_slice', 'write') or leaf(e.decl or '') in ('hash', 'write'))]
                ins = [e.args[0] if leaf(e.name) != 'write' else e.args[1] for e in hs]
                r.ok('hashes only what equality compares', hs and all(side(cut(x), 1) in (full - {('pubkey',)}) for x in ins), 'hashed: %s' % [show(x)[:80] for x in ins])
    with r.section('byte view'):
        for o in r.rets(r.fn('BlsPublicKey::as_ref')):
            r.ok('as_ref is the whole encoding', f(par(1), 'bytes', '0')(view(o.ret)), r.otext(o))
        for o in r.rets(r.fn('BlsPublicKey::deref')):
            r.ok('deref is the point', f(par(1), 'pubkey')(view(o.ret)), r.otext(o))
    with r.section('cached encoding'):
        bs = [b for b in r.construct('bls_public_key::BlsPublicKey', crate='tn_types')]
        r.ok('constructors', len(bs) >= 3, 'constructors found: %s' % [b.path for b in bs])
        for b in bs:
            if b.d.get('derived'):
                continue
            seen = set()
            for o in r.outs(b):
                terms = [e.res for e in o.events if e.k == 'new' and path_match(e.name, 'bls_public_key::BlsPublicKey')] + ([o.ret] if o.ret is not None else [])
                for z in [z for t in terms if t is not None for z in subterms(t)]:
                    if z.op == 'agg' and path_match(z.a[0], 'bls_public_key::BlsPublicKey') and z.id not in seen:
                        seen.add(z.id)
                        pk, by = strip(fld(z, 'pubkey')), fld(z, 'bytes')
                        by0 = fld(by, '0')
                        xs = cat(by0)
                        ok1 = len(xs) == 1 and xs[0].op == 'call' and leaf(xs[0].a[0]) in ('to_bytes', 'compress') and strip(xs[0].a[1][0]) is pk
                        q = pk
                        while q.op in ('fld', 'as'):
                            q = q.a[0]
                        ok2 = q.op == 'call' and path_match(q.a[0], 'PublicKey::from_bytes|PublicKey::uncompress|PublicKey::deserialize|PublicKey::key_validate') and \
                            view(strip(q.a[1][0])) is view(strip(by0))
                        r.ok('encoding belongs to the key in ' + b.path, ok1 or ok2, 'key %s stored with encoding %s' % (show(pk)[:120], show(by0)[:160]))
        for b in r.construct('bls_public_key::BlsPublicKeyBytes', crate='tn_types'):
            if b.d.get('derived'):
                continue
            for o in r.rets(b):
                for z in subterms(o.ret):
                    if z.op == 'agg' and path_match(z.a[0], 'bls_public_key::BlsPublicKeyBytes'):
                        xs = cat(fld(z, '0'))
                        r.ok('bytes are an encoding in ' + b.path, len(xs) == 1 and xs[0].op == 'call' and leaf(xs[0].a[0]) in ('to_bytes', 'compress'),
                             'bytes are %s' % show(fld(z, '0'))[:200])


def cut(t):
    """a constant slice of a byte view is still a function of those bytes"""
    t = view(t)
    while t.op == 'call' and leaf(t.a[0]) == 'index' and all(is_const(z) or z.op in ('agg', 'c') for z in children(t.a[1][1])):
        t = view(t.a[1][0])
    return t


def same(c, side, full):
    a = args_eq(c)
    return a is not None and a[2] and side(a[0], 1) in full and side(a[1], 2) in full or (
        a is not None and a[2] and side(a[0], 2) in full and side(a[1], 1) in full)


def differs(c, side, full):
    a = args_eq(c)
    return a is not None and not a[2] and (side(a[0], 1) in full and side(a[1], 2) in full or side(a[0], 2) in full and side(a[1], 1) in full)


def args_eq(c):
    """(a, b, equal) of an equality condition"""
    if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
        return c[2], c[3], c[1] == 'eq'
    if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('eq', 'ne') and len(c[1].a[1]) == 2:
        return c[1].a[1][0], c[1].a[1][1], c[2] == (leaf(c[1].a[0]) == 'eq')
    if c[0] == 'is' and c[2] == 'Equal' and c[1].op == 'call' and leaf(c[1].a[0]) == 'cmp':
        return c[1].a[1][0], c[1].a[1][1], c[3]
    return None
