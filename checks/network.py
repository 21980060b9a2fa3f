"""Size limits of peer messages (C50)."""
from .config import *

CODEC = r'tn_network_libp2p::codec::'
GROW = ('reserve', 'reserve_exact', 'try_reserve', 'try_reserve_exact', 'with_capacity', 'resize', 'resize_with', 'from_elem', 'repeat', 'set_len', 'zeroed')
FILL = ('extend_from_slice', 'extend', 'append', 'read_to_end', 'read_vectored', 'copy', 'push', 'write_all') + GROW


def nocast(t):
    """the number under conversions that keep it"""
    while True:
        if t.op == 'cast':
            t = next(x for x in t.a if hasattr(x, 'op'))
        elif t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[0].op == 'call' and leaf(t.a[0].a[0].a[0]) in ('try_from', 'try_into'):
            t = t.a[0].a[0].a[1][0]
        elif t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('from', 'into') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def has(t, *ids):
    return any(z.id in ids for z in subterms(t))


def limited(conds, L, by):
    """do the conditions keep the number L at or below a term accepted by `by`?  True, False (bounded by another amount) or None"""
    got = None
    for c in conds:
        if c[0] != 'cmp' or c[1] not in ('lt', 'le', 'eq'):
            continue
        a, b = nocast(c[2]), nocast(c[3])
        if a is L or a.id == L.id:
            got = True if by(b) else got or False
        elif c[1] == 'eq' and (b is L or b.id == L.id):
            got = True if by(a) else got or False
    return got


def envf(t):
    """name of the argument a buffer is"""
    t = strip(t)
    while t.op == 'upd!' or t.op == 'call' and leaf(t.a[0]) in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'index', 'index_mut', 'by_ref'):
        t = strip(t.a[0] if t.op == 'upd!' else t.a[1][0])
    p = field_path(t)
    return p[-1] if p and t.op == 'fld' else t.a[1] if t.op == 'param' else None


@check('C50', ['tn_network_libp2p', 'tn_worker'])
def c50(r):
    MAX = lambda t: nocast(strip(t)).op == 'fld' and envf(nocast(strip(t))) in ('max_message_size',) or param_of(nocast(strip(t))) == 4
    with r.section('decode'):
        n = 0
        b = bodyre(r, CODEC + r'decode_message::\{closure#0\}$')
        for o in r.outs(b, sides=False, loops=2):
            if o.exit != 'ret':
                r.ok('decoding does not stop the node', False, 'decode_message can panic: %s' % txt(o, 160)) if o.exit == 'panic' and not infeasible(o) else None
                continue
            ev = o.events
            le = [(i, e) for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes')]
            good = okret(o)
            failed = [e for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('read_exact', 'read', 'read_to_end', 'from_bytes', 'decompress', 'decompress_vec') and ok_of(o, e.res) is False]
            r.ok('an undecodable message is an error', not failed or good is False, 'decode_message answers a message although %s failed' % (leaf(failed[0].name) if failed else ''))
            if not le:
                if good is not False:
                    r.undec.append('decode: %s' % txt(o, 80))
                continue
            n += 1
            L1 = le[0][1].res
            L2 = le[1][1].res if len(le) > 1 else None
            UN = lambda t: nocast(t).id == L1.id
            CB = lambda t: t.op == 'call' and leaf(t.a[0]) == 'max_compress_len' and (UN(t.a[1][0]) or MAX(t.a[1][0]))
            for i, e in enumerate(ev):
                if e.k != 'call' or i < le[0][0]:
                    continue
                nm, conds = leaf(e.name), o.before(i)
                if nm in GROW or nm in ('read', 'read_to_end', 'read_vectored', 'decompress_vec', 'decompress') or nm == 'read_exact' and len(le) > 1 and i > le[1][0]:
                    g = limited(conds, L1, lambda t: MAX(t))
                    if g is None and any(c[0] == 'cmp' and c[1] in ('lt', 'le') and MAX(c[2]) and nocast(c[3]).id == L1.id for c in conds):
                        g = False
                    if g is None and any(has(y, L1.id) for c in conds for y in c[1:] if hasattr(y, 'op')) and any('max_message_size' in showc(c) for c in conds):
                        r.undec.append('decode: bound of the announced length (%s)' % ' & '.join(showc(c)[:60] for c in conds)[:200])
                        continue
                    r.ok('the announced length is within the limit', g is True, 'decode_message reaches %s before the announced length is checked against the limit' % nm)
                    if L2 is not None and i > le[1][0]:
                        own = any(has(a, L2.id) for a in e.args)
                        g = limited(conds, L2, lambda t: CB(t) or MAX(t))
                        capped = any(z.op == 'call' and leaf(z.a[0]) == 'min' and has(z, L2.id) for a in e.args for z in subterms(a))
                        if g is None and not capped and any(has(y, L2.id) for c in conds for y in c[1:] if hasattr(y, 'op') if c[0] == 'cmp' and c[1] in ('lt', 'le') and y is c[2]):
                            r.undec.append('decode: bound of the announced compressed length')
                            continue
                        r.ok('the announced compressed length is within what the limit allows', g is True, 'decode_message reaches %s before the announced compressed length is checked' % nm)
                        if nm == 'read' or nm == 'read_exact':
                            bound = e.args[1] if len(e.args) > 1 else None
                            if bound is not None and not has(bound, L2.id):
                                r.ok('only the body is read', False, 'decode_message reads %s, which may be more than the announced body' % show(bound)[:80])
            # decompression
            dec = [(i, e) for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('read_to_end', 'read', 'read_exact', 'copy') and any(z.op == 'call' and 'FrameDecoder' in z.a[0] for z in subterms(e.args[0]))]
            for i, e in dec:
                tk = [z for z in subterms(e.args[0]) if z.op == 'call' and leaf(z.a[0]) == 'take']
                if leaf(e.name) in ('read_to_end', 'copy'):
                    if not r.ok('decompression is bounded', bool(tk), 'decode_message decompresses without a bound on the output'):
                        continue
                    lim = nocast(tk[0].a[1][1])
                    one = lim.a[1] if lim.op == 'bin' and lim.a[0] == 'Add' and amount(lim.a[2]) == 1 else lim.a[1][0] if lim.op == 'call' and leaf(lim.a[0]) == 'saturating_add' and amount(lim.a[1][1]) == 1 else lim
                    one = nocast(one)
                    if one.id == L1.id or MAX(one):
                        r.ok('decompression is bounded', True)
                    elif is_const(lim) or lim.op in ('bin', 'cdef') or lim.op == 'call' and leaf(lim.a[0]) in ('max_compress_len', 'max', 'saturating_mul', 'from_le_bytes'):
                        r.ok('decompression is bounded', False, 'decode_message lets the output grow to %s' % show(lim)[:80])
                    else:
                        r.undec.append('decode: output bound %s' % show(lim)[:80])
            if good is False:
                continue
            if not dec:
                r.undec.append('decode: decompression')
            for i, e in enumerate(ev):
                if e.k == 'call' and leaf(e.name) in ('read_exact', 'read', 'read_to_end') and ok_of(o, e.res) is None and not any(hasattr(y, 'op') and has(y, e.res.id) for c in o.conds for y in c[1:]) and not has(o.ret, e.res.id):
                    r.ok('an undecodable message is an error', False, 'decode_message ignores the result of %s' % leaf(e.name))
            v = strip(o.ret)
            parse = [e for e in ev if e.k == 'call' and 'bcs' in e.name and leaf(e.name) in ('from_bytes', 'from_reader', 'from_bytes_with_limit') or e.k == 'call' and leaf(e.name) in ('try_decode', 'decode') and 'tn_types::codec' in e.name]
            if not r.ok('the message is what was decoded', len(parse) == 1 and contains(v, lambda z: z is strip(parse[0].res)), 'decode_message answers %s' % show(v)[:80]) if parse or v.op == 'agg' else False:
                parse or r.undec.append('decode: message %s' % show(v)[:80])
                continue
            src = parse[0].args[0]
            eqs_ = [c for c in o.before(ev.index(parse[0])) if c[0] == 'cmp' and c[1] == 'eq']
            def lenof(t):
                t = nocast(t)
                return t.op == 'call' and leaf(t.a[0]) in ('len', 'read_to_end') or t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[0].op == 'call' and leaf(t.a[0].a[0].a[0]) in ('read_to_end', 'copy')
            r.ok('the output is as long as announced', any(lenof(x) and nocast(y).id == L1.id for c in eqs_ for x, y in ((c[2], c[3]), (c[3], c[2]))) or any(leaf(e.name) == 'read_exact' for i, e in dec), 'decode_message accepts output of another length than announced')
            # buffers start empty
            for want in ('decode_buffer', 'compressed_buffer'):
                uses = [i for i, e in enumerate(ev) if e.k == 'call' and e.args and leaf(e.name) in FILL and any(envf(a) == want and strip(a).op in ('fld', 'upd!', 'param') for a in (e.args[:1] if leaf(e.name) != 'read_to_end' else e.args[1:2]))]
                if not uses:
                    continue
                cl = [i for i, e in enumerate(ev) if e.k == 'call' and e.args and (leaf(e.name) == 'clear' or leaf(e.name) == 'truncate' and amount(e.args[1]) == 0 or leaf(e.name) == 'take' and 'mem' in e.name) and envf(e.args[0]) == want]
                r.ok('buffers start empty', cl and min(cl) < min(uses), 'decode_message adds to what an earlier message left in %s' % want)
            rd = [e for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) == 'read' and e.args and envf(e.args[0]) == 'io']
            for e in rd:
                z = [c for c in o.conds if c[0] in ('cmp', 'isin', 'is') and any(hasattr(y, 'op') and has(y, e.res.id) for y in c[1:])]
                if not any(c[0] == 'cmp' and c[1] in ('ne', 'lt', 'le') and any(amount(y) in (0, 1) for y in c[2:4]) or c[0] == 'isin' for c in z):
                    r.ok('a truncated message is an error', False, 'decode_message goes on after reading nothing')
        n or r.undec.append('decode')
    with r.section('encode'):
        n = 0
        for o in r.outs(bodyre(r, CODEC + r'encode_message::\{closure#0\}$'), sides=False):
            if o.exit != 'ret':
                continue
            ev = o.events
            enc = [(i, e) for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('encode_into_buffer', 'serialize_into', 'to_bytes', 'encode', 'try_encode')]
            ws = [(i, e) for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('write_all', 'write', 'poll_write', 'write_vectored') and e.args and envf(e.args[0]) == 'io']
            if not enc:
                r.ok('the message is encoded', not ws, 'encode_message sends something that is not the message')
                continue
            n += 1
            for i, e in ws:
                conds = o.before(i)
                lens = [c for c in conds if c[0] == 'cmp' and c[1] in ('lt', 'le') and (lambda t: t.op == 'call' and leaf(t.a[0]) == 'len')(nocast(c[2])) and MAX(c[3])]
                raw = [c for c in lens if envf(nocast(c[2]).a[1][0]) in ('encode_buffer',) or contains(c[2], lambda z: z is strip(enc[0][1].res))]
                other = [c for c in conds if c[0] == 'cmp' and 'max_message_size' in showc(c) and c not in raw]
                if not raw and other and not lens:
                    r.ok('an oversized message is not sent', False, 'encode_message sends when %s' % showc(other[0])[:120]) if all(nocast(x).op in ('bin',) or MAX(x) or nocast(x).op == 'call' and leaf(nocast(x).a[0]) in ('len', 'max_compress_len', 'saturating_add', 'saturating_mul', 'saturating_sub', 'min', 'max') for x in other[0][2:4]) else r.undec.append('encode: bound %s' % showc(other[0])[:100])
                else:
                    r.ok('an oversized message is not sent', bool(raw), 'encode_message sends a message without comparing its length with the limit')
                r.ok('only encoded messages are sent', ok_of(o, enc[0][1].res) is not False, 'encode_message sends a message that could not be encoded')
                if leaf(e.name) == 'write':
                    r.ok('messages are sent whole', False, 'encode_message relies on a single partial write')
            if okret(o) is False:
                continue
            for i, e in ws:
                r.ok('a failed write is an error', ok_of(o, e.res) is True or contains(strip(o.ret), lambda z: z is strip(e.res)), 'encode_message succeeds although a write failed')
            r.ok('a message that cannot be encoded is an error', ok_of(o, enc[0][1].res) is True, 'encode_message succeeds although the message was not encoded')
            pieces = [e.args[1] for i, e in ws]
            if len(pieces) == 3:
                p1, p2, p3 = map(strip, pieces)
                def prefix(p, want):
                    return p.op == 'call' and leaf(p.a[0]) == 'to_le_bytes' and (lambda t: t.op == 'call' and leaf(t.a[0]) == 'len' and envf(t.a[1][0]) == want)(nocast(p.a[1][0]))
                known = all(p.op == 'call' and leaf(p.a[0]) in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes') for p in (p1, p2))
                if known:
                    r.ok('prefixes are the two lengths', prefix(p1, 'encode_buffer') and prefix(p2, 'compressed_buffer'), 'encode_message announces %s and %s' % (show(p1)[:60], show(p2)[:60]))
                else:
                    r.undec.append('encode: prefixes')
                r.ok('the body is the compressed message', envf(p3) == 'compressed_buffer', 'encode_message sends %s' % show(p3)[:60])
                comp = [i for i, e in enumerate(ev) if e.k == 'call' and ('FrameEncoder' in e.name or e.args and any(z.op == 'call' and 'FrameEncoder' in z.a[0] for z in subterms(e.args[0])))]
                lenc = [i for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) == 'len' and envf(e.args[0]) == 'compressed_buffer']
                body = [e for e in ev if e.k == 'call' and leaf(e.name) in ('write_all', 'write', 'copy') and any(z.op == 'call' and 'FrameEncoder' in z.a[0] for z in subterms(e.args[0]))]
                if body:
                    r.ok('the whole message is compressed', len(body) == 1 and strip(body[0].args[1]).op in ('fld', 'upd!') and envf(body[0].args[1]) == 'encode_buffer', 'encode_message compresses %s' % show(body[0].args[1])[:80]) if leaf(body[0].name) != 'copy' else None
                    ends = [i for i, e in enumerate(ev) if e.k == 'call' and leaf(e.name) in ('flush', 'into_inner', 'finish') and any(z.op == 'call' and 'FrameEncoder' in z.a[0] for z in subterms(e.args[0])) or e.k == 'drop' and e.args and any(z.op == 'call' and 'FrameEncoder' in z.a[0] for z in subterms(e.args[0]))]
                    r.ok('the length is of the finished compression', ends and lenc and min(ends) < min(lenc), 'encode_message takes the compressed length before the compression ends')
                else:
                    r.undec.append('encode: compression')
            else:
                r.undec.append('encode: %d writes' % len(pieces))
            for want, first in (('encode_buffer', enc[0][0]), ('compressed_buffer', min([i for i, e in enumerate(ev) if e.k == 'call' and 'FrameEncoder' in e.name] or [10 ** 6]))):
                cl = [i for i, e in enumerate(ev) if e.k == 'call' and e.args and (leaf(e.name) == 'clear' or leaf(e.name) == 'truncate' and amount(e.args[1]) == 0 or leaf(e.name) == 'take' and 'mem' in e.name) and envf(e.args[0]) == want]
                if leaf(enc[0][1].name) == 'encode_into_buffer' or want == 'compressed_buffer':
                    r.ok('buffers start empty', cl and min(cl) < first, 'encode_message adds to what an earlier message left in %s' % want)
        n or r.undec.append('encode')
    with r.section('codec'):
        for m, f in (('read_request', 'decode_message'), ('read_response', 'decode_message'), ('write_request', 'encode_message'), ('write_response', 'encode_message')):
            for o in r.outs(bodyre(r, r'<' + CODEC + r'TNCodec as .*Codec>::%s::\{closure#0\}$' % m), sides=False, opaque=('decode_message', 'encode_message')):
                if o.exit != 'ret':
                    continue
                cs = [e for i, e in ecalls(o, 'decode_message', 'encode_message')]
                if not cs:
                    r.undec.append('%s: %s' % (m, txt(o, 80))) if okret(o) is not False else None
                    continue
                e = cs[-1]
                r.ok('the right direction', leaf(e.name) == f, '%s calls %s' % (m, leaf(e.name)))
                r.ok('the configured limit', envf(e.args[-1]) == 'max_chunk_size' and strip(e.args[-1]).op == 'fld', '%s is limited to %s' % (m, show(e.args[-1])[:80]))
                r.ok('the result is passed on', contains(strip(o.ret), lambda z: z is strip(e.res)) or okret(o) is False or ok_of(o, e.res) is True, '%s answers %s' % (m, show(o.ret)[:80]))
        for o in r.outs(bodyre(r, CODEC + r'TNCodec::new$'), sides=False):
            if o.exit == 'ret':
                v = strip(fld(o.ret, 'max_chunk_size'))
                r.ok('the limit of the codec is the one given', param_of(v) == 1, 'a codec is limited to %s' % show(v)[:80])
    with r.section('users'):
        seen = 0
        for b, x in r.callers('TNCodec::new'):
            seen += 1
        seen or r.undec.append('codecs are made nowhere')
        for fn, b in ((f, b) for f in ('read_frame', 'write_frame') for b in bodies(r, r'tn_network_libp2p::sync::frame::%s::\{closure#0\}$' % f)):
            for o in r.outs(b, sides=False, opaque=('decode_message', 'encode_message')):
                cs = [e for i, e in ecalls(o, 'decode_message', 'encode_message')]
                for e in cs:
                    r.ok('frames keep the limit', envf(e.args[-1]) == 'max_frame_size' and strip(e.args[-1]).op == 'fld', '%s limits a frame to %s' % (fn, show(e.args[-1])[:60]))
