"""Network configuration (C25, C26), configuration files (C27), retries (C28)."""
import ast
from fractions import Fraction
from .storage_index import *
from engine.comp import isnext, runs, emits, apply, NotComp

CFG = 'tn_config::network::'
TOPICS = ('primary_topic', 'consensus_output_topic', 'epoch_vote_topic', 'worker_batch_topic')
PROTOS = ('req_res_protocol', 'kad_protocol', 'sync_protocol', 'peer_exchange_protocol')


class NoText(Exception):
    pass


def template(b):
    """the pieces of a compiled format template: literal text and placeholders"""
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            return out
        if c < 0x80:
            out.append(('lit', b[i + 1:i + 1 + c].decode()))
            i += 1 + c
        elif c == 0x80:
            k = b[i + 1] | b[i + 2] << 8
            out.append(('lit', b[i + 3:i + 3 + k].decode()))
            i += 3 + k
        elif c == 0xc0:
            out.append(('arg', n))
            n += 1
            i += 1
        else:
            raise NoText('format placeholder %#x' % c)
    raise NoText('unterminated format template')


def text_of(t):
    """[('lit', str) | ('arg', display kind, term)] of a string-valued term"""
    t = strip(t)
    while t.op == 'call' and leaf(t.a[0]) in ('must_use', 'to_string', 'into', 'from', 'to_owned', 'as_str', 'deref', 'as_ref', 'clone', 'expect', 'unwrap', 'try_from_owned', 'new') and len(t.a[1]) >= 1 and 'Arguments' not in t.a[0]:
        t = strip(t.a[1][0])
    if t.op == 'str':
        return merge([('lit', t.a[0])])
    if t.op == 'c' and isinstance(t.a[0], str):
        s = t.a[0]
        if s[:1] in '\'"':
            s = ast.literal_eval(s)
        elif s[:2] in ('b"', "b'"):
            s = ast.literal_eval(s).decode()
        return [('lit', s)]
    if t.op == 'cdef' or t.op == 'c':
        raise NoText(show(t)[:80])
    if t.op == 'call':
        n = leaf(t.a[0])
        if n == 'format' and t.a[1]:
            return text_of(t.a[1][0])
        if n in ('from_str', 'new_const') and 'Arguments' in t.a[0]:
            return text_of(t.a[1][0])
        if n == 'new' and 'Arguments' in t.a[0]:
            tm = strip(t.a[1][0])
            ps = template(ast.literal_eval(tm.a[0]))
            ar = strip(t.a[1][1])
            out = []
            for p in ps:
                if p[0] == 'lit':
                    out.append(p)
                    continue
                a = strip(fld(ar, str(p[1])))
                if a.op != 'call' or not leaf(a.a[0]).startswith('new_'):
                    raise NoText(show(a)[:80])
                x = strip(a.a[1][0])
                if x.op == 'str' or x.op == 'c' and isinstance(x.a[0], str):
                    out += text_of(x)
                elif leaf(a.a[0]) == 'new_display' and x.op == 'call' and leaf(x.a[0]) in ('must_use', 'format'):
                    out += text_of(x)
                else:
                    out.append(('arg', leaf(a.a[0])[4:], x))
            return merge(out)
        if n == 'add' and len(t.a[1]) == 2:
            return merge(text_of(t.a[1][0]) + text_of(t.a[1][1]))
        if n in ('concat', 'join') and t.a[1]:
            xs = strip(t.a[1][0])
            sep = text_of(t.a[1][1]) if n == 'join' else []
            if xs.op == 'agg':
                out = []
                for i, (_, x) in enumerate(xs.a[2]):
                    out += (sep if i else []) + text_of(x)
                return merge(out)
        if t.a[1] == () or not t.a[1]:
            raise NoText(show(t)[:80])
    if t.op == 'bin' and t.a[0] == 'Add':
        return merge(text_of(t.a[1]) + text_of(t.a[2]))
    if t.op == 'upd!' and leaf(t.a[1]) in ('push_str', 'push') and len(t.a) >= 5:
        return merge(text_of(t.a[0]) + text_of(t.a[4]))
    if t.op == 'call' and leaf(t.a[0]) == 'to_string':
        return [('arg', 'display', strip(t.a[1][0]))]
    if t.op in ('fld', 'param'):
        return [('arg', 'display', t)]
    raise NoText(show(t)[:80])


def merge(ps):
    out = []
    for p in ps:
        if p[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        elif p != ('lit', ''):
            out.append(p)
    return out


def overlap(p, q):
    """can two name patterns produce the same name?  placeholders stand for non-empty runs of digits"""
    def toks(ps):
        out = []
        for x in ps:
            out += list(x[1]) if x[0] == 'lit' else ['D+']
        return out
    p, q = toks(p), toks(q)
    # states: (i, j, inside a run of p, inside a run of q)
    work, seen = [(0, 0, False, False)], set()
    while work:
        s = work.pop()
        if s in seen:
            continue
        seen.add(s)
        i, j, ri, rj = s
        if ri:
            work.append((i + 1, j, False, rj))
        if rj:
            work.append((i, j + 1, ri, False))
        if i == len(p) and j == len(q):
            return True
        if i < len(p) and j < len(q):
            a, b = p[i], q[j]
            digit = lambda c: c == 'D+' or c.isdigit()
            if a == b and a != 'D+' or a == 'D+' and digit(b) or b == 'D+' and digit(a):
                work.append((i if a == 'D+' else i + 1, j if b == 'D+' else j + 1, a == 'D+', b == 'D+'))
    return False


def separated(ps):
    """no two placeholders can run into each other"""
    for a, b in zip(ps, ps[1:]):
        if a[0] == 'arg' and (b[0] == 'arg' or b[1][0].isdigit()):
            return False
        if b[0] == 'arg' and a[0] == 'lit' and a[1][-1].isdigit():
            return False
    return True


def shown(ps):
    return ''.join(p[1] if p[0] == 'lit' else '{%s}' % show(p[2])[:30] for p in ps)


# ---------------------------------------------------------------- polynomials over configuration fields
def fpoly(t):
    t = strip(t)
    if t.op == 'c':
        m = re.fullmatch(r'(-?[\d.]+(?:e-?\d+)?)_?(?:f32|f64|usize|u32|u64)?', str(t.a[0]))
        if m:
            return {(): Fraction(m.group(1))}
    if t.op == 'cast':
        return fpoly(t.a[1])
    if t.op == 'bin':
        a, b = fpoly(t.a[1]), fpoly(t.a[2])
        if t.a[0] in ('Add', 'Sub'):
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + (v if t.a[0] == 'Add' else -v)
            return {k: v for k, v in out.items() if v}
        if t.a[0] == 'Mul':
            out = {}
            for k, v in a.items():
                for l, w in b.items():
                    m = tuple(sorted(k + l))
                    out[m] = out.get(m, 0) + v * w
            return {k: v for k, v in out.items() if v}
        if t.a[0] == 'Div' and set(b) == {()}:
            return {k: v / b[()] for k, v in a.items()}
    if t.op == 'call' and leaf(t.a[0]) in ('mul_add',) and len(t.a[1]) == 3:
        x, y, z = t.a[1]
        return fpoly(mk('bin', 'Add', mk('bin', 'Mul', x, y), z))
    if t.op == 'call' and leaf(t.a[0]) in ('mul', 'add', 'sub', 'saturating_mul', 'saturating_add') and len(t.a[1]) == 2:
        return fpoly(mk('bin', {'mul': 'Mul', 'add': 'Add', 'sub': 'Sub', 'saturating_mul': 'Mul', 'saturating_add': 'Add'}[leaf(t.a[0])], t.a[1][0], t.a[1][1]))
    if t.op == 'call' and leaf(t.a[0]) in ('from', 'into'):
        return fpoly(t.a[1][0])
    if t.op == 'fld':
        return {(t.a[1],): Fraction(1)}
    raise NoText('amount %s' % show(t)[:80])


def limit_of(t):
    """(rounding, polynomial) of a derived limit"""
    t = strip(t)
    while t.op == 'cast':
        t = strip(t.a[1])
    if t.op == 'call' and leaf(t.a[0]) in ('ceil', 'floor', 'round', 'trunc') and t.a[1]:
        return {'trunc': 'floor'}.get(leaf(t.a[0]), leaf(t.a[0])), fpoly(t.a[1][0])
    p = fpoly(t)
    return ('floor' if any(contains(t, lambda z: z.op == 'cast') for _ in (0,)) else 'exact'), p


def field_path(t):
    """names of the fields a term reads, outermost container first"""
    t = strip(t)
    out = []
    while True:
        if t.op == 'fld':
            out.append(t.a[1])
            t = strip(t.a[0])
        elif t.op == 'as':
            t = strip(t.a[0])
        elif t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('clone', 'deref', 'as_ref', 'into', 'from', 'libp2p_config', 'quic_config', 'peer_config', 'network_config', 'to_owned'):
            if leaf(t.a[0]).endswith('_config'):
                out.append(leaf(t.a[0]))
            t = strip(t.a[1][0])
        elif t.op == 'agg' and t.a[1] == 'Some':
            t = strip(fld(t, '0'))
        else:
            return out[::-1]


@check('C25', ['tn_config', 'tn_network_libp2p', 'tn_network_types', 'tn_primary', 'tn_worker', 'tn_types'])
def c25(r):
    W = {'sides': False}
    names = {}

    def chain_part(what, ps, is_chain):
        hit = [p for p in ps if p[0] == 'arg' and is_chain(p[2])]
        if r.ok('%s: names the chain' % what, hit, '%s is "%s", which does not contain the whole chain identifier' % (what, shown(ps))):
            r.ok('%s: chains are told apart' % what, separated(ps) and all(p[1] in ('display', 'debug', 'lower_hex', 'upper_hex') for p in hit), '%s is "%s": different chains can share a name' % (what, shown(ps)))

    # ---------------------------------------------------------------- names
    with r.section('topics'):
        for f in TOPICS:
            for o in r.outs(bodyre(r, CFG + r'LibP2pConfig::%s$' % f), **W):
                if o.exit != 'ret':
                    continue
                ps = text_of(o.ret)
                names.setdefault(f, ps)
                chain_part(f, ps, lambda x: x.op == 'param' and x.a[0] == 1)
        for a in TOPICS:
            for b in TOPICS:
                if a < b and a in names and b in names:
                    r.ok('purposes differ', not overlap(names[a], names[b]), '%s and %s can name the same topic: "%s" and "%s"' % (a, b, shown(names[a]), shown(names[b])))
    with r.section('protocols'):
        seen = {}
        for f in PROTOS:
            for o in r.outs(bodyre(r, r'tn_network_libp2p::types::NetworkType::%s$' % f), **W):
                if o.exit != 'ret' or okret(o) is False:
                    continue
                made = [e for i, e in ecalls(o, 'try_from_owned')]
                ps = text_of(made[0].args[0] if made else payload(o.ret, 'Ok'))
                who = ' '.join(c[2] for c in o.conds if c[0] == 'is' and c[3] and c[2] in ('Primary', 'Worker'))
                seen[(f, who)] = ps
                chain_part('%s %s' % (who.lower(), f), ps, lambda x: x.op == 'param' and x.a[0] == 2)
                if who == 'Worker':
                    r.ok('%s: names the worker' % f, any(p[0] == 'arg' and contains(p[2], lambda z: z.op == 'as' and z.a[1] == 'Worker') and not contains(p[2], lambda z: z.op == 'bin' and z.a[0] in ('Rem', 'Div', 'Shr', 'BitAnd', 'Mul') or z.op == 'cast' and z.a[0] in ('u8', 'i8') or z.op == 'call' and leaf(z.a[0]) in ('min', 'max')) for p in ps), 'the worker protocol %s is "%s" for every worker' % (f, shown(ps)))
        ks = sorted(seen)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                r.ok('purposes differ', not overlap(seen[a], seen[b]), '%s and %s can name the same protocol: "%s" and "%s"' % (a, b, shown(seen[a]), shown(seen[b])))
        for o in r.outs(bodyre(r, r'tn_network_libp2p::types::gossip_protocol_id_prefix$'), **W):
            if o.exit == 'ret':
                chain_part('gossip protocol', text_of(o.ret), lambda x: x.op == 'param' and x.a[0] == 1)

    # ---------------------------------------------------------------- the chain identifier
    with r.section('chain identifier not persisted'):
        ser = bodyre(r, r'<tn_config::network::LibP2pConfig as .*Serialize>::serialize$')
        written, keys = set(), set()
        for o in r.outs(ser, **W):
            for i, e in ecalls(o, 'serialize_field', 'serialize_entry'):
                keys.add(str(strip(e.args[1]).a[0]).strip("'\""))
                written |= set(field_path(e.args[2])[-1:])
        written or r.undec.append('serialization of the network configuration')
        r.ok('not written', 'chain_id' not in written, 'the chain identifier is serialized with the configuration')
        rd = set()
        for o in r.outs(bodyre(r, r'<<tn_config::network::LibP2pConfig as .*__FieldVisitor as .*::visit_str$'), **W):
            for c in o.conds:
                for x in c[1:]:
                    if hasattr(x, 'op') and strip(x).op == 'str':
                        rd.add(strip(x).a[0].strip("'\""))
        rd or r.undec.append('deserialization of the network configuration')
        r.ok('not read', 'chain_id' not in rd and len(rd) <= len(written), 'the configuration file can set %s' % ', '.join(sorted(rd - keys) or ['the chain identifier']))
        for o in r.outs(bodyre(r, r'<tn_config::network::LibP2pConfig as core::default::Default>::default$'), **W):
            if o.exit == 'ret':
                v = strip(fld(o.ret, 'chain_id'))
                r.ok('unset by default', is_const(v), 'the default chain identifier is %s' % show(v)[:80])
    with r.section('chain identifier accessors'):
        for p in (CFG + r'NetworkConfig::chain_id$', r'tn_config::consensus::ConsensusConfig::chain_id$'):
            for o in r.outs(bodyre(r, p), **W):
                if o.exit == 'ret':
                    r.ok('read back', field_path(o.ret)[-2:] in (['libp2p_config', 'chain_id'], ['network_config', 'chain_id']), 'chain_id answers %s' % show(o.ret)[:80])
        for o in r.outs(bodyre(r, CFG + r'NetworkConfig::set_chain_id$'), **OWN):
            if o.exit == 'ret':
                v = fld(fld(o.state[1], 'libp2p_config'), 'chain_id')
                r.ok('stored', strip(v).op == 'param' and strip(v).a[0] == 2, 'set_chain_id stores %s' % show(v)[:80])

    # ---------------------------------------------------------------- who uses the topics
    OPQ = tuple('LibP2pConfig::' + f for f in TOPICS) + ('codec::encode', 'codec::try_decode', 'NetworkHandle::publish')
    sent, taken = {}, {}
    with r.section('publishing'):
        for p in (r'tn_primary::network::PrimaryNetworkHandle::publish_\w+::\{closure#0\}$', r'tn_worker::network::handle::WorkerNetworkHandle::publish_\w+::\{closure#0\}$'):
            for b in bodies(r, p):
                for o in r.outs(b, sides=False, opaque=OPQ):
                    for i, e in ecalls(o, 'publish'):
                        t, d = strip(e.args[1]), strip(e.args[2])
                        if t.op != 'call' or leaf(t.a[0]) not in TOPICS:
                            r.undec.append('publish on %s' % show(t)[:80])
                            continue
                        r.ok('published on the chain of the node', field_path(t.a[1][0])[-1:] == ['chain_id'] or 'chain_id' in show(t.a[1][0]), 'a topic is built for chain %s' % show(t.a[1][0])[:60])
                        vs = [z for z in subterms(d) if z.op == 'agg' and 'Gossip' in z.a[0]]
                        for z in vs[:1]:
                            sent.setdefault((leaf(z.a[0]).split('::')[0], z.a[1]), set()).add(leaf(t.a[0]))
        sent or r.undec.append('no published message found')
    with r.section('accepting'):
        for p, en in ((r'tn_primary::network::handler::RequestHandler::process_gossip::\{closure#0\}$', 'PrimaryGossip'), (r'tn_worker::network::handler::RequestHandler::process_gossip::\{closure#0\}$', 'WorkerGossip')):
            b = bodyre(r, p)
            vs = r.F.types[[k for k in r.F.types if k.endswith('::' + en)][0]].variants if hasattr(r.F, 'types') and False else None
            n = 0
            for o in r.outs(b, sides=False, maxdepth=1, opaque=OPQ + ('ConsensusConfig::chain_id', 'NetworkConfig::chain_id')):
                if o.exit != 'ret':
                    continue
                dec = [c[2] for c in o.conds if c[0] == 'is' and c[3] and c[2] not in ('Ok', 'Some') and strip(c[1]).op in ('fld', 'as', 'call') and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) in ('try_decode', 'from_bytes', 'decode'))]
                var = dec[0] if dec else next((k[1] for k in sent if k[0] == en), None)
                eqs_ = [c for c in o.conds if c[0] == 'cmp' and c[1] in ('eq', 'ne') and any(contains(x, lambda z: z.op == 'fld' and z.a[1] == 'topic') for x in c[2:4])]
                acts = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('get', 'verify', 'validate_received', 'process_peer_certificate', 'epoch', 'send', 'insert', 'committee', 'borrow')]
                if not acts:
                    continue
                n += 1
                good = [c for c in eqs_ if c[1] == 'eq']
                if not r.ok('%s: topic compared' % en, good, 'a %s message is processed without comparing its topic [%s]' % (var or en, txt(o))):
                    continue
                for c in good:
                    x = next(x for x in c[2:4] if not contains(x, lambda z: z.op == 'fld' and z.a[1] == 'topic'))
                    tf = [z for z in subterms(x) if z.op == 'call' and leaf(z.a[0]) in TOPICS]
                    if not tf:
                        r.undec.append('topic compared with %s' % show(x)[:80])
                        continue
                    taken.setdefault((en, var), set()).add(leaf(tf[0].a[0]))
                    r.ok('compared for the chain of the node', 'chain_id' in show(tf[0].a[1][0]), 'the topic is compared for chain %s' % show(tf[0].a[1][0])[:60])
            n or r.undec.append('%s: no message processed' % en)
        for k, v in sorted(taken.items(), key=str):
            r.ok('one topic per message kind', len(v) == 1, '%s messages are accepted on %s' % (k[1], ', '.join(sorted(v))))
            if k in sent:
                r.ok('accepted where published', v == sent[k], '%s messages are published on %s and accepted on %s' % (k[1], ', '.join(sorted(sent[k])), ', '.join(sorted(v))))

    # ---------------------------------------------------------------- limits
    with r.section('derived limits'):
        lim = {}
        for f in ('max_peers', 'max_priority_peers', 'max_outbound_dialing_peers', 'max_discovery_peers', 'min_outbound_only_peers', 'target_outbound_peers'):
            for o in r.outs(bodyre(r, CFG + r'PeerConfig::%s$' % f), **W):
                if o.exit != 'ret':
                    continue
                if f in lim:
                    raise NoText('%s has several outcomes' % f)
                lim[f] = limit_of(o.ret)
        T = ('exact', {('target_num_peers',): Fraction(1)})

        def le(what, a, b):
            d = dict(b[1])
            for k, v in a[1].items():
                d[k] = d.get(k, 0) - v
            neg = [k for k, v in d.items() if v < 0]
            rnd = {'exact': 1, 'floor': 0, 'round': 1, 'ceil': 2}
            r.ok(what, not neg and (rnd[a[0]] <= rnd[b[0]] or a[0] == 'exact' or b[0] == 'exact' and a[0] == 'floor'), '%s does not hold: the difference is %s' % (what, ' + '.join('%s*%s' % (v, '*'.join(k) or '1') for k, v in sorted(d.items()) if v) or 'rounding (%s, %s)' % (a[0], b[0])))
        le('the target is at most the ordinary limit', T, lim['max_peers'])
        le('the ordinary limit is at most the priority limit', lim['max_peers'], lim['max_priority_peers'])
        le('the ordinary limit is at most the dialing limit', lim['max_peers'], lim['max_outbound_dialing_peers'])
        le('the dialing limit is at most the priority limit', lim['max_outbound_dialing_peers'], lim['max_priority_peers'])
        for f, fs in (('max_peers', {'target_num_peers', 'peer_excess_factor'}), ('max_priority_peers', {'target_num_peers', 'peer_excess_factor', 'priority_peer_excess'}),
                      ('min_outbound_only_peers', {'target_num_peers', 'min_outbound_only_factor'}), ('target_outbound_peers', {'target_num_peers', 'target_outbound_only_factor'})):
            used = {x for k in lim[f][1] for x in k}
            r.ok('configured values are used', used == fs, '%s is computed from %s' % (f, ', '.join(sorted(used))))
    with r.section('limits reach the network'):
        WANT = {'set_kbucket_size': 'k_bucket_size', 'set_record_ttl': 'kad_record_ttl', 'set_publication_interval': 'kad_publication_interval', 'set_provider_record_ttl': 'kad_record_ttl'}
        new = bodyre(r, r'tn_network_libp2p::consensus::ConsensusNetwork::new$')
        n = 0
        for o in r.outs(new, sides=False, maxdepth=1, opaque=('codec::TNCodec::new',) + PROTOS + ('gossip_protocol_id_prefix',)):
            if o.exit != 'ret' or okret(o) is not True:
                continue
            n += 1
            for m, f in WANT.items():
                es = [e for i, e in ecalls(o, m)]
                if r.ok('%s applied' % f, es, 'the configured %s is not applied (%s)' % (f, m)):
                    fp = field_path(es[-1].args[1])
                    r.ok('%s applied' % f, fp[-1:] == [f], '%s is given %s' % (m, show(es[-1].args[1])[:80]))
            cs = [e for i, e in ecalls(o, 'new') if e.name.endswith('TNCodec::new')]
            if cs:
                for e in cs:
                    r.ok('message size applied', field_path(e.args[0])[-1:] == ['max_rpc_message_size'], 'a codec is limited to %s' % show(e.args[0])[:80])
            else:
                r.undec.append('message codec')
            for i, e in ecalls(o, *PROTOS):
                r.ok('protocols for the configured chain', field_path(e.args[1])[-1:] == ['chain_id'], '%s is built for chain %s' % (leaf(e.name), show(e.args[1])[:60]))
            ps = [e for i, e in ecalls(o, 'gossip_protocol_id_prefix')]
            pre = [e for i, e in ecalls(o, 'protocol_id_prefix', 'protocol_id')]
            r.ok('gossip for the configured chain', pre and ps and all(field_path(e.args[0])[-1:] == ['chain_id'] for e in ps), 'the gossip protocol is not named after the configured chain')
        n or r.undec.append('network construction')
        quic, idle = {}, []
        for b in bodies(r, r'tn_network_libp2p::consensus::ConsensusNetwork::new::\{closure#\d+\}$'):
            for o in r.outs(b, **W):
                if o.exit != 'ret' or o.ret is None:
                    continue
                t = o.ret
                while t.op == 'upd' and len(t.a) == 3:
                    fp = field_path(t.a[2])
                    if fp and 'quic_config' in fp:
                        quic[t.a[1]] = fp[-1]
                    elif fp or True:
                        quic.setdefault(t.a[1], show(t.a[2])[:40])
                    t = t.a[0]
                for z in subterms(o.ret):
                    if z.op == 'call' and leaf(z.a[0]) == 'with_idle_connection_timeout':
                        idle.append(field_path(z.a[1][1])[-1:])
        for f in ('handshake_timeout', 'max_idle_timeout', 'keep_alive_interval', 'max_concurrent_stream_limit', 'max_stream_data', 'max_connection_data'):
            r.ok('quic %s applied' % f, quic.get(f) == f, 'the QUIC setting %s is given %s' % (f, quic.get(f, 'nothing')))
        r.ok('idle timeout applied', idle and all(x == ['max_idle_connection_timeout'] for x in idle), 'the idle connection timeout is given %s' % idle)


# ---------------------------------------------------------------- C26: floating-point valuations
import math


FCONST = {'NAN': math.nan, 'INFINITY': math.inf, 'NEG_INFINITY': -math.inf, 'MAX': 1.7976931348623157e308, 'MIN': -1.7976931348623157e308, 'EPSILON': 2.2e-16, 'MIN_POSITIVE': 2.2250738585072014e-308}


def fnum(R, t, env):
    """the number (or truth value) a term has when fields have the given values; None when not known"""
    t = strip(t)
    if t.op == 'c':
        if t.a[1] == 'bool':
            return bool(t.a[0])
        m = re.fullmatch(r'(-?[\d.]+(?:e-?\d+)?)_?(?:f32|f64|[iu]\d+|usize)?', str(t.a[0]))
        if m:
            return float(m.group(1))
        return FCONST.get(str(t.a[0]).split('::')[-1])
    if t.op == 'cdef':
        return FCONST.get(str(t.a[0]).split('::')[-1])
    if t in env:
        return env[t]
    if t.op == 'un':
        v = fnum(R, t.a[1], env)
        return None if v is None else (not v if t.a[0] == 'Not' else -v)
    if t.op == 'bin':
        a, b = fnum(R, t.a[1], env), fnum(R, t.a[2], env)
        if a is None or b is None:
            return None
        try:
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
                    'Gt': lambda: a > b, 'Ge': lambda: a >= b, 'BitAnd': lambda: bool(a and b), 'BitOr': lambda: bool(a or b), 'BitXor': lambda: a != b,
                    'Div': lambda: a / b if b else (math.nan if a != a or not a else math.copysign(math.inf, a) * math.copysign(1, b))}[t.a[0]]()
        except (KeyError, OverflowError):
            return None
    if t.op == 'call' and t.a[1]:
        n = leaf(t.a[0])
        if n in ('all', 'any', 'try_for_each', 'find', 'position') and len(t.a[1]) == 2:
            xs = items_of(t.a[1][0], R, env)
            if xs is None:
                return None
            got = []
            for x in xs:
                vs = []
                for o in runs(R, t.a[1][1], [x]):
                    h = [fcond(R, c, env) for c in o.conds]
                    if o.exit != 'ret' or False in h:
                        continue
                    vs.append(None if None in h else fnum(R, o.ret, env) if n != 'try_for_each' else okret(o))
                got.append(vs[0] if len(vs) == 1 else None)
            if n in ('any', 'find', 'position'):
                return True if True in got else None if None in got else False
            return False if False in got else None if None in got else True
        vs = [fnum(R, x, env) for x in t.a[1]]
        if None in vs:
            return None
        a = vs[0]
        b = vs[1] if len(vs) > 1 else None
        if n in ('clone', 'copied', 'abs', 'neg', 'ln', 'is_finite', 'is_nan', 'is_infinite', 'is_sign_negative', 'is_sign_positive', 'is_normal'):
            return {'clone': lambda: a, 'copied': lambda: a, 'abs': lambda: abs(a), 'neg': lambda: -a, 'ln': lambda: math.log(a) if a > 0 else math.nan, 'is_finite': lambda: math.isfinite(a),
                    'is_nan': lambda: a != a, 'is_infinite': lambda: math.isinf(a), 'is_sign_negative': lambda: math.copysign(1, a) < 0, 'is_sign_positive': lambda: math.copysign(1, a) > 0,
                    'is_normal': lambda: math.isfinite(a) and abs(a) >= 2.2250738585072014e-308}[n]()
        if b is not None and n in ('below', 'at_most', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'min', 'max'):
            return {'below': a < b, 'at_most': a <= b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b,
                    'min': min(a, b), 'max': max(a, b)}[n]
    return None


def fcond(R, c, env):
    if c[0] == 'const':
        return c[1]
    if c[0] == 'true':
        v = fnum(R, c[1], env)
        return None if v is None else bool(v) == c[2]
    if c[0] == 'cmp':
        a, b = fnum(R, c[2], env), fnum(R, c[3], env)
        return None if a is None or b is None else {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b}[c[1]]
    if c[0] == 'is' and c[2] in ('Ok', 'Continue'):
        v = fnum(R, c[1], env)
        return None if v is None else bool(v) == c[3]
    if c[0] == 'is' and c[2] in ('Less', 'Equal', 'Greater', 'Some'):
        t = strip(c[1])
        some = c[2] == 'Some'
        if not some and t.op in ('as', 'fld'):
            while t.op in ('as', 'fld'):
                t = strip(t.a[0])
        if t.op == 'call' and leaf(t.a[0]) in ('partial_cmp', 'total_cmp', 'cmp') and len(t.a[1]) == 2:
            a, b = fnum(R, t.a[1][0], env), fnum(R, t.a[1][1], env)
            if a is not None and b is not None and leaf(t.a[0]) == 'partial_cmp':
                if a != a or b != b:
                    return (not c[3]) if some else None
                return (True if some else {'Less': a < b, 'Equal': a == b, 'Greater': a > b}[c[2]]) == c[3]
    return None


def items_of(t, R=None, env=None):
    """the elements a fixed list yields, in order"""
    t = strip(t)
    while t.op == 'upd!' and leaf(t.a[1]) in ('next', 'by_ref', 'try_for_each', 'all', 'any', 'find'):
        t = strip(t.a[0])
    if t.op == 'agg' and t.a[0] == 'array':
        return [v for _, v in t.a[2]]
    if t.op != 'call' or not t.a[1]:
        return None
    n = leaf(t.a[0])
    xs = items_of(t.a[1][0], R, env)
    if xs is None or n in ('iter', 'into_iter', 'copied', 'cloned', 'by_ref', 'rev', 'to_vec', 'into_vec', 'box_assume_init_into_vec_unsafe', 'as_slice'):
        return xs
    if n in ('take', 'skip') and len(t.a[1]) == 2 and is_const(t.a[1][1]):
        k = t.a[1][1].a[0]
        return xs[:k] if n == 'take' else xs[k:]
    if n == 'chain' and len(t.a[1]) == 2:
        ys = items_of(t.a[1][1], R, env)
        return None if ys is None else xs + ys
    if n in ('map', 'filter') and R is not None and len(t.a[1]) == 2:
        out = []
        for x in xs:
            vs = []
            for o in runs(R, t.a[1][1], [x]):
                h = [fcond(R, c, env) for c in o.conds]
                if o.exit != 'ret' or False in h:
                    continue
                vs.append(None if None in h else o.ret)
            if len(vs) != 1 or vs[0] is None:
                return None
            if n == 'filter':
                k = fnum(R, vs[0], env)
                if k is None:
                    return None
                if k:
                    out.append(x)
            else:
                out.append(vs[0])
        return out
    return None


def elem_src(c):
    """the iterator whose current element the condition speaks about"""
    for x in c[1:]:
        if hasattr(x, 'op'):
            for z in subterms(x):
                if z.op == 'elem' and items_of(z.a[0]) is not None:
                    return z
    return None


def decide(R, outs, env):
    """which results the outcomes allow for these values: set of True (accepted), False (rejected), None (not known)"""
    res, loops = set(), {}
    for o in outs:
        if o.exit != 'ret':
            continue
        hs, els, nexts = [], {}, {}
        for c in o.conds:
            if c[0] == 'is' and isnext(c):
                s = next((z for z in subterms(c[1]) if items_of(z) is not None), None)
                if s is not None:
                    nexts.setdefault(s, []).append(c[3])
                    continue
            z = elem_src(c)
            if z is not None:
                els.setdefault(z.a[0], []).append((z, c))
            else:
                hs.append(fcond(R, c, env))
        if False in hs:
            continue
        sure = None not in hs
        poss = True
        srcs = set(els) | set(nexts)
        for s in srcs:
            xs = items_of(s)
            pols = nexts.get(s, [])
            each = []
            for x in xs:
                ok = True
                for z, c in els.get(s, []):
                    # the element stands for x
                    v = fcond(R, sa.recond(c, lambda t, z=z, x=x: sa.rebuild(t, lambda y: x if y is z else None, {})), env)
                    if v is False:
                        ok = False
                    elif v is None and ok:
                        ok = None
                each.append(ok)
            if pols and pols[-1] is False:
                # the loop ran to its end: every element must take one of the paths
                if not any(pols):
                    poss = poss and not xs
                else:
                    loops.setdefault((s, okret(o), tuple(sorted(map(str, hs)))), []).append((each, okret(o), sure))
                    poss = None
                    break
            else:
                if True in each:
                    pass
                elif None in each:
                    sure = False
                else:
                    poss = False
        if poss:
            res.add(okret(o) if sure else None)
            if not sure:
                res.add(okret(o))
    for k, vs in loops.items():
        n = len(vs[0][0])
        if all(any(v[0][i] is not False for v in vs) for i in range(n)):
            res.add(k[1])
            if not all(any(v[0][i] is True and v[2] for v in vs) for i in range(n)):
                res.add(None)
    return res


@check('C26', ['tn_config', 'tn_network_libp2p', 'tn_types'])
def c26(r):
    with r.section('scoring configuration'):
        outs = r.outs(bodyre(r, CFG + r'ScoreConfig::validate$'), sides=False)
        dflt = [o for o in r.outs(bodyre(r, r'<tn_config::network::ScoreConfig as core::default::Default>::default$'), sides=False) if o.exit == 'ret'][0].ret
        floats = [k for k, v in dflt.a[2] if strip(v).op in ('c', 'un') and 'f64' in show(v)]
        if not floats:
            r.undec.append('the floating-point fields of the scoring configuration')
        self_ = next((z for o in outs for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'param' and z.a[0] == 1), None) or mk('param', 1, 'self')
        good = {'default_score': 0.0, 'max_score': 100.0, 'min_score': -100.0, 'score_halflife': 300.0, 'min_score_before_disconnect': -20.0, 'min_score_before_ban': -50.0}

        def ask(what, want, **vals):
            env = {fld(self_, k): good.get(k, 1.0) for k in floats}
            env.update({fld(self_, k): v for k, v in vals.items()})
            got = decide(r.ctx(), outs, env)
            if None in got or not got:
                r.undec.append('validation of ' + what)
            else:
                r.ok(what, got == {want}, 'a scoring configuration with %s is %s' % (what, 'accepted' if not want else 'rejected'))
        ask('sound values', True)
        for f in floats:
            for n, v in (('not a number', math.nan), ('infinite', math.inf), ('minus infinity', -math.inf)):
                ask('%s %s' % (f, n), False, **{f: v})
        if {'min_score', 'max_score'} <= set(floats):
            ask('min_score above max_score', False, min_score=5.0, max_score=4.0)
            ask('min_score just above max_score', False, min_score=math.nextafter(100.0, 200), max_score=100.0)
            ask('min_score above a negative max_score', False, min_score=-1.0, max_score=-2.0)
            ask('min_score above zero max_score', False, min_score=1.0, max_score=0.0)
            ask('min_score equal to max_score', True, min_score=4.0, max_score=4.0)
        if 'score_halflife' in floats:
            for v in (0.0, -0.0, -1.0, -5e-324):
                ask('half-life %s' % v, False, score_halflife=v)
            ask('half-life 0.5', True, score_halflife=0.5)
    with r.section('who validates'):
        n = 0
        for b in bodies(r, r'tn_config::consensus::ConsensusConfig::new\w*$'):
            for o in r.outs(b, sides=False, opaque=('ScoreConfig::validate',)):
                if o.exit != 'ret' or okret(o) is not True:
                    continue
                n += 1
                vs = [e for i, e in ecalls(o, 'validate') if e.name.endswith('ScoreConfig::validate')]
                if r.ok('validated', vs, '%s accepts a network configuration without validating its scoring parameters' % leaf(b.path)):
                    e = vs[-1]
                    r.ok('validated value', field_path(e.args[0])[-1:] == ['score_config'], '%s validates %s' % (leaf(b.path), show(e.args[0])[:80]))
                    r.ok('failure is an error', ok_of(o, e.res) is True, '%s succeeds although the scoring parameters are invalid' % leaf(b.path))
        n or r.undec.append('consensus configuration construction')
    with r.section('what is compared'):
        # every floating-point field the scores are compared with or computed from is one that was checked
        used = set()
        for b in bodies(r, r'tn_network_libp2p::peers::score::(Score::\w+|reputation_for)$'):
            for o in r.outs(b, **OWN):
                for t in [x for c in o.conds for x in c[1:] if hasattr(x, 'op')] + [x for x in [o.ret] if x is not None] + list(o.state.values()):
                    for z in subterms(t):
                        if z.op == 'fld' and z.a[1] in good:
                            used.add(z.a[1])
        r.ok('used fields are checked', used <= set(floats), 'scores use %s, which is not validated' % ', '.join(sorted(used - set(floats))))
        used or r.undec.append('use of the scoring configuration')


# ---------------------------------------------------------------- C27
CHANGES = {'write_all', 'write', 'write_fmt', 'create_dir_all', 'create_dir', 'set_len', 'rename', 'remove_file', 'copy', 'hard_link', 'create', 'create_new', 'write_to_path', 'set_permissions', 'remove_dir_all'}


def fs_events(o):
    """(index, event, kind) of the operations that touch files"""
    out = []
    for i, e in enumerate(o.events):
        if e.k != 'call' or not e.args:
            continue
        n = leaf(e.name)
        if n == 'open' and 'OpenOptions' in e.name:
            op = openopts(e.args[0])
            yes = {k for k, v in op.items() if amount(v) not in (False, 0)}
            out.append((i, e, 'change' if yes & {'write', 'append', 'create', 'truncate', 'create_new'} else 'read'))
        elif n == 'open' and 'fs::File' in e.name or n in ('read_to_string', 'read_to_end', 'read') and ('std::fs' in e.name or 'Read' in e.name):
            out.append((i, e, 'read'))
        elif n in CHANGES and ('fs::' in e.name or 'Write' in e.name or n == 'write_to_path') and 'OpenOptions' not in e.name and 'fmt::' not in e.name:
            out.append((i, e, 'change'))
    return out


def not_found(o, i, path):
    """before event i the outcome knows that nothing exists at the path: True / False / None"""
    for c in o.before(i) if i is not None else o.conds:
        if c[0] == 'is' and c[2] == 'NotFound' and c[3] or c[0] == 'cmp' and c[1] == 'eq' and any('NotFound' in show(x) for x in c[2:4]):
            t = c[1] if c[0] == 'is' else c[2]
            if any(z.op == 'call' and leaf(z.a[0]) in ('open', 'read_to_string', 'read', 'metadata') and contains(z, lambda y: y is path) for z in subterms(c[1] if c[0] == 'is' else mk('tuple', *c[2:4]) if False else t)):
                return True
            if c[0] == 'cmp':
                return True
        if c[0] in ('true', 'is', 'cmp') and any(hasattr(x, 'op') and any(z.op == 'call' and leaf(z.a[0]) in ('exists', 'try_exists', 'is_file') for z in subterms(x)) for x in c[1:]):
            return None
    return False


def fmt_of(o, fmt):
    """the format the outcome is about: 'JSON', 'YAML' or None"""
    for c in o.conds:
        if c[0] == 'is' and c[2] in ('JSON', 'YAML') and strip(c[1]) is fmt:
            return c[2] if c[3] else {'JSON': 'YAML', 'YAML': 'JSON'}[c[2]]
        if c[0] == 'cmp' and any(strip(x) is fmt for x in c[2:4]):
            k = 'JSON' if 'JSON' in show(c[2]) + show(c[3]) else 'YAML'
            return k if c[1] == 'eq' else {'JSON': 'YAML', 'YAML': 'JSON'}[k]
    return None


def wires(e):
    return 'JSON' if 'serde_json' in e.name else 'YAML' if 'serde_yaml' in e.name else None


@check('C27', ['tn_config', 'tn_types', 'worker_gateway'])
def c27(r):
    PATH, FMT = None, None

    def params(b):
        ps = {}
        for i in range(1, b.d['argc'] + 1):
            ps[b.d['locals'][i].get('n')] = mk('param', i, b.d['locals'][i].get('n'))
        return ps

    def loaded_ok(what, o, path, fmt):
        """the value returned is the parsed content of the file"""
        de = [e for i, e in ecalls(o, 'from_str', 'from_slice', 'from_reader') if wires(e)]
        if not de:
            return None
        e = de[-1]
        k = fmt_of(o, fmt)
        if k is None:
            r.undec.append('%s: format of %s' % (what, leaf(e.name)))
        else:
            r.ok('%s: read in its format' % what, wires(e) == k, '%s parses a %s file as %s' % (what, k, wires(e)))
        src = [z for z in subterms(e.args[0]) if z.op == 'call' and leaf(z.a[0]) in ('open', 'read_to_string', 'read') and ('fs::' in z.a[0]) and z.a[1]]
        src = [z for z in src if not (leaf(z.a[0]) == 'read_to_string' and 'File' in z.a[0])] or src
        if r.ok('%s: the file is parsed' % what, any(contains(z.a[1][0], lambda y: y is path) or any(contains(y, lambda q: q is path) for y in z.a[1]) for z in src), '%s parses %s' % (what, show(e.args[0])[:100])):
            for j, f in ecalls(o, 'read_to_string', 'read_to_end', 'read'):
                if 'std::fs::read' in f.name or 'Read' in f.name or 'File' in f.name:
                    if leaf(f.name) == 'read' and 'fs::read' not in f.name:
                        r.ok('%s: read whole' % what, False, '%s parses a single read of the file' % what)
                    r.ok('%s: read failure reported' % what, ok_of(o, f.res) is True or okret(o) is False or o.ret is not None and contains(o.ret, lambda z: z is f.res), '%s goes on although the file could not be read [%s]' % (what, txt(o)))
        # the answer is the parse result
        if o.ret is not None:
            t = o.ret
            good = contains(t, lambda z: z is e.res)
            if okret(o) is True or not (t.op == 'agg'):
                r.ok('%s: parsed value returned' % what, good, '%s answers %s instead of the parsed file' % (what, show(t)[:100]))
        return e

    for f in ('load_from_path', 'load_from_path_or_default'):
        with r.section(f):
            b = bodyre(r, r'tn_config::traits::ConfigTrait::%s$' % f)
            ps = params(b)
            path, fmt = ps.get('path') or mk('param', 1, 'path'), ps.get('fmt') or mk('param', 2, 'fmt')
            for o in r.outs(b, sides=False):
                if o.exit != 'ret':
                    continue
                for i, e, k in fs_events(o):
                    if k == 'change':
                        nf = not_found(o, i, path) if f.endswith('default') else False
                        if nf is None:
                            r.undec.append('%s: what is known before %s' % (f, leaf(e.name)))
                        else:
                            r.ok('existing files are left alone', nf, '%s changes files (%s) although the file may exist [%s]' % (f, leaf(e.name), txt(o)))
                    else:
                        r.ok('existing files are left alone', True)
                nf = not_found(o, None, path) if f.endswith('default') else False
                opened = [ok_of(o, e.res) for i, e in ecalls(o, 'open') if 'fs::File' in e.name] + [ok_of(o, e.res) for i, e in ecalls(o, 'read_to_string', 'read') if 'std::fs::read' in e.name]
                if False in opened and not nf:
                    r.ok('unreadable is an error', okret(o) is False, '%s succeeds although the file cannot be opened [%s]' % (f, txt(o)))
                    continue
                if nf:
                    if okret(o) is not True:
                        continue
                    v = strip(payload(o.ret, 'Ok'))
                    r.ok('default returned', v.op == 'call' and leaf(v.a[0]) == 'default', '%s answers %s for a missing file' % (f, show(v)[:80]))
                    ser = [e for i, e in ecalls(o, 'to_string', 'to_string_pretty', 'to_vec', 'to_writer') if wires(e)]
                    if r.ok('default written', ser, '%s does not write the default it returns [%s]' % (f, txt(o))):
                        r.ok('default written', any(contains(a, lambda z: z is v or strip(z) is v or show(z) == show(payload(o.ret, 'Ok'))) for a in ser[-1].args), 'the default written is not the one returned')
                        k = fmt_of(o, fmt)
                        k is None and r.undec.append('%s: written format' % f)
                        k and r.ok('written in the format it is read in', wires(ser[-1]) == k, '%s writes the default of a %s file as %s' % (f, k, wires(ser[-1])))
                    continue
                if okret(o) is False:
                    continue
                e = loaded_ok(f, o, path, fmt)
                if e is None:
                    # an answer without parsing
                    r.ok('parsed', False, '%s answers %s without parsing the file [%s]' % (f, show(o.ret)[:80], txt(o)))
                elif okret(o) is True:
                    r.ok('malformed is an error', ok_of(o, e.res) is not False, '%s succeeds although the file does not parse [%s]' % (f, txt(o)))
                else:
                    # answer is a mapped parse result: it must not turn failures into values
                    bad = [leaf(z.a[0]) for z in subterms(o.ret) if z.op == 'call' and leaf(z.a[0]) in ('or', 'or_else', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else')]
                    r.ok('malformed is an error', not bad, '%s replaces a parse failure (%s)' % (f, ', '.join(bad)))

    with r.section('write_to_path'):
        b = bodyre(r, r'tn_config::traits::ConfigTrait::write_to_path$')
        ps = params(b)
        path, cfg, fmt = ps.get('path') or mk('param', 1, 'path'), ps.get('cfg') or mk('param', 2, 'cfg'), ps.get('fmt') or mk('param', 3, 'fmt')
        n = 0
        for o in r.outs(b, sides=False):
            if o.exit != 'ret' or okret(o) is False:
                continue
            n += 1
            ser = [e for i, e in ecalls(o, 'to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty', 'to_writer') if wires(e)]
            if not r.ok('serialized', ser, 'write_to_path succeeds without serializing [%s]' % txt(o)):
                continue
            s = ser[-1]
            k = fmt_of(o, fmt)
            k is None and r.undec.append('write_to_path: format')
            k and r.ok('written in its format', wires(s) == k, 'write_to_path writes a %s file as %s' % (k, wires(s)))
            r.ok('the value is written', any(contains(a, lambda z: z is cfg) for a in s.args), 'write_to_path serializes %s' % show(s.args[0])[:80])
            if leaf(s.name) == 'to_writer':
                r.undec.append('write_to_path: writer')
                continue
            ws = [(i, e) for i, e, kk in fs_events(o) if kk == 'change' and leaf(e.name) in ('write_all', 'write', 'write_fmt', 'set_len')]
            if not r.ok('written', ws, 'write_to_path succeeds without writing [%s]' % txt(o)):
                continue
            for i, e in ws:
                n_ = leaf(e.name)
                if n_ in ('write_fmt', 'set_len'):
                    r.undec.append('write_to_path: %s' % n_)
                    continue
                if n_ == 'write' and 'std::fs::write' not in e.name:
                    r.ok('written whole', False, 'write_to_path relies on a single partial write')
                    continue
                data = strip(e.args[1])
                r.ok('exactly the serialized value', strip(payload_ok_src(data)) is strip(s.res), 'write_to_path writes %s' % show(data)[:100])
                r.ok('write failure reported', ok_of(o, e.res) is True or okret(o) is None and contains(o.ret, lambda z: z is e.res), 'write_to_path succeeds although the write failed [%s]' % txt(o))
                tgt = e.args[0]
                if 'std::fs::write' in e.name:
                    continue
                op = openopts(tgt)
                if sum(e2.k == 'call' and leaf(e2.name) == 'open' and 'OpenOptions' in e2.name for e2 in o.events) == 1:
                    # one open: every option set on the way is one of its options
                    op = {leaf(e2.name): e2.args[1] for e2 in o.events if e2.k == 'call' and 'OpenOptions' in e2.name and len(e2.args) == 2 and leaf(e2.name) in OPTS} or op
                created = any(z.op == 'call' and 'fs::File::create' in z.a[0] for z in subterms(tgt))
                if created:
                    continue
                if not op:
                    r.undec.append('write_to_path: target %s' % show(tgt)[:60])
                    continue
                yes = lambda k: k in op and amount(op[k]) not in (False, 0)
                for k in ('truncate', 'write', 'create', 'append'):
                    if yes(k) and amount(op[k]) not in (True, 1):
                        q = strip(op[k])
                        if any(c[0] == 'true' and strip(c[1]) is q for c in o.conds):
                            continue
                        if q.op in ('call', 'un', 'bin', 'param', 'fld'):
                            r.ok('previous content replaced' if k in ('truncate', 'append') else 'missing file created', False, 'the file is opened with %s(%s)' % (k, show(q)[:60]))
                r.ok('previous content replaced', yes('truncate') and yes('write') and not yes('append'), 'the file is opened with %s: previous content can remain' % ', '.join(sorted(k for k in op if yes(k))))
                r.ok('missing file created', yes('create'), 'the file is opened with %s: a missing file is not created' % ', '.join(sorted(k for k in op if yes(k))))
            final = [e for i, e in ecalls(o, 'open', 'create', 'write', 'rename') if 'fs::' in e.name]
            r.ok('the given path', any(any(strip(a) is path for a in e.args) for e in final), 'write_to_path does not write to the given path')
            one = [e for i, e in ws]
            r.ok('written once', len(one) == 1, 'write_to_path writes %d pieces' % len(one))
        n or r.undec.append('write_to_path outcomes')

    with r.section('same path and format'):
        io = {}
        for f in ('read_config', 'write_config'):
            for o in r.outs(bodyre(r, CFG + r'NetworkConfig::%s$' % f), sides=False, opaque=('load_from_path', 'load_from_path_or_default', 'write_to_path')):
                if o.exit != 'ret':
                    continue
                for i, e in ecalls(o, 'load_from_path', 'load_from_path_or_default', 'write_to_path'):
                    io.setdefault(f, set()).add((show(e.args[0]).split('(')[0].split('::')[-1], show(e.args[-1])))
        if len(io) == 2:
            r.ok('network configuration is read where it is written', io['read_config'] == io['write_config'], 'the network configuration is read from %s and written to %s' % (sorted(io['read_config']), sorted(io['write_config'])))
        else:
            r.undec.append('network configuration file')
    with r.section('configuration of a node'):
        want = {'node_info': 'node_info_path', 'parameters': 'node_config_parameters_path', 'genesis': 'genesis_file_path'}
        for f in ('load', 'load_or_default'):
            for o in r.outs(bodyre(r, r'tn_config::node::Config::%s$' % f), sides=False, opaque=('load_from_path', 'load_from_path_or_default', 'write_to_path')):
                if o.exit != 'ret' or okret(o) is not True:
                    continue
                v = payload(o.ret, 'Ok')
                for k, p in want.items():
                    src = [z for z in subterms(fld(v, k)) if z.op == 'call' and leaf(z.a[0]).startswith('load_from_path')]
                    if not src:
                        r.undec.append('Config::%s: %s' % (f, k))
                        continue
                    r.ok('%s from its file' % k, show(src[0].a[1][0]).split('(')[0].split('::')[-1] == p, 'Config::%s reads %s from %s' % (f, k, show(src[0].a[1][0])[:60]))
                    if f == 'load':
                        r.ok('missing files are errors', leaf(src[0].a[0]) == 'load_from_path', 'Config::load falls back to a default %s' % k)


def payload_ok_src(t):
    """the call whose successful result t is (context wrappers and byte views removed)"""
    t = strip(t)
    while True:
        if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'as':
            t = strip(t.a[0].a[0])
        elif t.op == 'agg' and t.a[1] in ('Ok', 'Some'):
            t = strip(payload(t, t.a[1]))
        elif t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('with_context', 'context', 'wrap_err', 'wrap_err_with', 'map_err', 'as_bytes', 'as_str', 'into_bytes', 'as_ref', 'deref', 'branch', 'into'):
            t = strip(t.a[1][0])
        else:
            return t


# ---------------------------------------------------------------- C28
@check('C28', ['tn_config'])
def c28(r):
    WANT = {'initial_interval': 'initial_retry_interval', 'randomization_factor': 'retry_delay_rand_factor', 'multiplier': 'retry_delay_multiplier',
            'max_interval': 'max_retry_interval', 'max_elapsed_time': 'retrying_max_elapsed_time'}
    with r.section('retry'):
        n = 0
        for o in [o for b in bodies(r, r'tn_config::retry::RetryConfig::retry(::\{closure#\d+\})*$') for o in r.outs(b, sides=False)]:
            for i, e in enumerate(o.events):
                if e.k == 'call' and 'backoff' in e.name and leaf(e.name) in ('transient', 'permanent', 'retry_after') or e.k == 'new' and 'backoff' in e.name and e.info in ('Permanent', 'Transient'):
                    r.ok('errors keep their kind', False, 'retry turns errors into %s ones' % (leaf(e.name) if e.k == 'call' else e.info.lower()))
            cs = [e for i, e in ecalls(o, 'retry', 'retry_notify') if 'backoff::future' in e.name]
            if o.exit != 'ret' or not cs:
                continue
            n += 1
            e = cs[-1]
            bo, op = strip(e.args[0]), strip(e.args[1])
            if op.op == 'closure':
                r.undec.append('retry wraps the operation')
            else:
                r.ok('the operation is retried as given', op.op == 'param' and op.a[0] == 2 or op.op == 'fld' and op.a[1] == 'op', 'retry runs %s' % show(op)[:80])
            t = strip(o.ret)
            if t is not strip(e.res) and not (t.op == 'call' and 'backoff::future' in t.a[0]) and show(t) != show(e.res) and not (t.op == 'agg' and contains(t, lambda y: y is e.res)):
                r.undec.append('retry maps the outcome')
            for f, w in WANT.items():
                v = strip(fld(bo, f))
                if v.op == 'fld' and v.a[1] == f and strip(v.a[0]) is bo or v.op == 'fld' and strip(v.a[0]).op != 'param':
                    # not set: built some other way, or left at the library's default
                    base = strip(v.a[0])
                    if base.op == 'call' and leaf(base.a[0]) == 'default':
                        r.ok('%s carried' % f, False, 'the configured %s is not carried into the back-off' % w)
                        continue
                    sets = [y for y in subterms(bo) if y.op == 'call' and leaf(y.a[0]) == 'with_' + f or y.op == 'upd!' and leaf(y.a[1]) == 'with_' + f]
                    if not sets:
                        if any(y.op == 'call' and 'ExponentialBackoffBuilder' in y.a[0] for y in subterms(bo)):
                            r.ok('%s carried' % f, False, 'the configured %s is not carried into the back-off' % w)
                        else:
                            r.undec.append('back-off field %s' % f)
                        continue
                    v = strip(sets[0].a[1][1] if sets[0].op == 'call' else sets[0].a[4])
                fp = field_path(v)
                inner = strip(payload(v, 'Some')) if v.op == 'agg' and v.a[1] == 'Some' else None
                if inner is not None and inner.op == 'fld' and inner.a[1] == '0' and inner.a[0].op == 'as':
                    # the configured limit taken apart and put back together
                    src = strip(inner.a[0].a[0])
                    r.ok('%s carried' % f, src.op == 'fld' and field_path(src) == [w], 'the back-off limits %s to %s, configured is %s' % (f, show(v)[:80], w))
                    continue
                if v.op == 'agg' and v.a[1] == 'None' and any(c[0] == 'is' and c[2] in ('None', 'Some', 'Ok') and c[3] == (c[2] == 'None') and field_path(strip(c[1]))[-1:] == [w] for c in o.conds):
                    r.ok('%s carried' % f, True, '')
                    continue
                if v.op == 'agg' and v.a[1] == 'Some':
                    # always limited
                    r.ok('%s carried' % f, fp[-1:] == [w] and o.conds, 'the back-off limits %s to %s' % (f, show(v)[:80]))
                    continue
                if v.op in ('fld', 'c', 'cdef', 'param', 'agg', 'as'):
                    r.ok('%s carried' % f, v.op == 'fld' and fp == [w], 'the back-off uses %s as %s, configured is %s' % (show(v)[:60], f, w))
                else:
                    r.ok('%s carried' % f, not any(y.op == 'call' and leaf(y.a[0]) in ('min', 'max', 'clamp', 'mul', 'div', 'add', 'sub', 'saturating_mul', 'mul_f64', 'or', 'or_else', 'unwrap_or', 'filter', 'and', 'xor', 'div_f64', 'saturating_sub', 'saturating_add') or y.op == 'bin' for y in subterms(v)) and any(y.op == 'fld' and y.a[1] == w for y in subterms(v)),
                         'the back-off uses %s as %s' % (show(v)[:80], f))
        n or r.undec.append('retry outcomes')
    with r.section('defaults'):
        D = {'initial_retry_interval': 'DEFAULT_INITIAL_RETRY_INTERVAL', 'max_retry_interval': 'DEFAULT_MAX_RETRY_INTERVAL', 'retry_delay_multiplier': 'DEFAULT_RETRY_INTERVAL_MULTIPLIER',
             'retry_delay_rand_factor': 'DEFAULT_RETRY_DELAY_RAND_FACTOR', 'retrying_max_elapsed_time': 'DEFAULT_RETRYING_MAX_ELAPSED_TIME'}
        for o in r.outs(bodyre(r, r'<tn_config::retry::RetryConfig as core::default::Default>::default$'), sides=False):
            if o.exit != 'ret':
                continue
            m = strip(fld(o.ret, 'retrying_max_elapsed_time'))
            r.ok('retries end by default', not (m.op == 'agg' and m.a[1] == 'None'), 'the default retry policy never ends')
            ks = {f: show(strip(fld(o.ret, f))) for f in D}
            r.ok('defaults are distinct settings', all(ks[a] != ks[b] for a in ks for b in ks if a < b and 'DEFAULT' in ks[a]), 'two default settings share one constant: %s' % ks)
