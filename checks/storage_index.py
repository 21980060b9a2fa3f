"""Digest index (C22), execution-state snapshots (C23), embedded database (C24)."""
from .storage_archive import *
from . import storage_archive as SA

OWN = {'own': (1,), 'sides': False}
DX = r'archive::digest_index::index::HdxIndex'
BI = r'archive::digest_index::bucket_iter::BucketIter'


class Lay(Slots):
    """positions in a bucket: named constants are evaluated from their definitions, E is the element count of the bucket at hand"""

    def __init__(self, r, count=None):
        super().__init__()
        self.r, self.count, self.consts = r, count, {}

    def P(self, t):
        s = self.unwrap(t)
        if s.op == 'c' and not isinstance(s.a[0], int):
            nm = str(s.a[0]).split('::')[-1]
            if nm not in self.consts:
                self.consts[nm] = self.at(nm)
                bs = bodies(self.r, r'digest_index::.*::%s$' % re.escape(nm))
                for o in (self.r.outs(bs[0], sides=False) if bs else ()):
                    if o.exit == 'ret' and o.ret is not None:
                        self.consts[nm] = self.P(o.ret)
            return self.consts[nm]
        if s.op == 'cast' and s.a[0] in ('u32',):
            return self.P(s.a[1])
        if self.count is not None and self.count(s):
            return self.at('E')
        if s.op == 'fld' and s.a[1] in ('bucket_elements', 'bucket_size', 'buckets', 'modulus', 'bucket_pos', 'elements', 'overflow_pos'):
            return self.at(s.a[1] + '@' + ('self' if root(s).op == 'param' and not contains(s, lambda z: z.op in ('upd', 'upd!')) else str(s.a[0].id)))
        if s.op == 'bin' and s.a[0] == 'Div' and is_const(s.a[2]):
            return self.at(('half', s.a[2].a[0], tuple(sorted(self.P(s.a[1]).items(), key=str))))
        if s.op == 'bin' and s.a[0] == 'Shr' and is_const(s.a[2]):
            return self.at(('half', 1 << s.a[2].a[0], tuple(sorted(self.P(s.a[1]).items(), key=str))))
        if s.op == 'call' and leaf(s.a[0]) in ('from', 'into') and len(s.a[1]) == 1:
            return self.P(s.a[1][0])
        if s.op == 'bin' and s.a[0] == 'BitAnd':
            m = padd(self.P(s.a[2]), {(): 1})
            if m == self.at('modulus@self'):
                return self.at(('rem', tuple(sorted(self.P(s.a[1]).items(), key=str)), tuple(sorted(m.items(), key=str))))
        if s.op == 'bin' and s.a[0] == 'Rem':
            return self.at(('rem', tuple(sorted(self.P(s.a[1]).items(), key=str)), tuple(sorted(self.P(s.a[2]).items(), key=str))))
        if s.op == 'call' and leaf(s.a[0]) == 'next_power_of_two':
            return self.at(('pow2', tuple(sorted(self.P(s.a[1][0]).items(), key=str))))
        return super().P(s)


def sliced(S, t):
    """(base, lo, hi or None) of a slice"""
    t = strip(t)
    lo, hi = {}, None
    while True:
        if t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut') and len(t.a[1]) == 2:
            q = t.a[1][1]
            s, e = fld(q, 'start'), fld(q, 'end')
            s = None if s.op == 'fld' and s.a[0] is q else S.P(s)
            e = None if e.op == 'fld' and e.a[0] is q else S.P(e)
            hi = padd(hi, s or {}) if hi is not None else e
            lo = padd(lo, s or {})
            t = strip(t.a[1][0])
        elif t.op == 'call' and leaf(t.a[0]) in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut') and t.a[1]:
            t = strip(t.a[1][0])
        elif t.op == 'upd!':
            t = t.a[0]
        elif t.op == 'fld' and t.a[1] in ('0', '1', 0, 1) and strip(t.a[0]).op == 'call' and leaf(strip(t.a[0]).a[0]) in ('split_at', 'split_at_mut') and len(strip(t.a[0]).a[1]) == 2:
            h = strip(t.a[0])
            k = S.P(h.a[1][1])
            b, lo2, hi2 = sliced(S, h.a[1][0])
            if str(t.a[1]) == '0':
                return b, padd(lo2, lo or {}), padd(lo2, hi if hi is not None else k)
            return b, padd(padd(lo2, k), lo or {}), padd(padd(lo2, k), hi) if hi is not None else hi2
        else:
            return t, lo, hi


def shp(p):
    return ' + '.join(str(v) if not k else ('' if v == 1 else '%d*' % v) + '*'.join(str(x) if not isinstance(x, tuple) else x[0] for x in k) for k, v in sorted(p.items(), key=str)) or '0'


def unknown(p):
    return any(isinstance(x, tuple) and x[0] == 't' for k in p for x in k)


def ecall_at(o, i):
    return o.events[i]


def le_val(t):
    """the value of a little-endian encoding, or None"""
    t = strip(t)
    if t.op == 'call' and re.fullmatch(r'to_(le|be|ne)_bytes', leaf(t.a[0])):
        return leaf(t.a[0])[3:5], t.a[1][0]
    return None


def bool_of(o, t):
    if is_const(t):
        return bool(t.a[0])
    if cond_of(o, t, True):
        return True
    if cond_of(o, t, False):
        return False
    return None


NONE = object()


def someret(o):
    """the payload of a returned Some, NONE for a returned None, or None when unknown"""
    if o.exit != 'ret':
        return None
    t = strip(o.ret)
    if t.op == 'agg' and t.a[1] == 'Some':
        return payload(t, 'Some')
    if t.op == 'agg' and t.a[1] in ('None', 'Err'):
        return NONE
    return None


@check('C22', ['tn_storage'])
def c22(r):
    HB = 'hash_to_bucket'

    # ------------------------------------------------------------ which bucket
    with r.section('bucket of a digest'):
        S = Lay(r)
        n = 0
        for o in r.outs(bodyre(r, DX + r'::hash_to_bucket$'), sides=False):
            if o.exit != 'ret':
                continue
            n += 1
            M, NB = S.at('modulus@self'), S.at('buckets@self')
            hs = [z for z in subterms(o.ret) if z.op == 'call' and leaf(z.a[0]) == 'hash_one']
            if not hs:
                r.undec.append('bucket: %s' % show(o.ret)[:120])
                continue
            r.ok('the whole digest is hashed', all(param_of(strip(h.a[1][1])) == 2 for h in hs), 'the bucket depends on %s' % show(hs[0])[:100])
            rem = S.at(('rem', tuple(sorted(S.P(hs[0]).items(), key=str)), tuple(sorted(M.items(), key=str))))
            low = padd(rem, S.at(('half', 2, tuple(sorted(M.items(), key=str)))), -1)
            p = S.P(o.ret)
            ge, eq = ge0(S, o.conds)
            below = padd(padd(NB, rem, -1), {(): -1})
            above = padd(rem, NB, -1)
            if p == rem:
                b = [f for f in ge if any(const_diff(below, f) or const_diff(f, below) for _ in (0,))]
                r.ok('an existing bucket', any(const_diff(below, f) for f in ge), 'bucket hash %% modulus is chosen without being below the number of buckets [%s]' % txt(o))
            elif p == low:
                r.ok('folded only when missing', any(const_diff(above, f) for f in ge), 'the bucket is folded although hash %% modulus exists [%s]' % txt(o))
            elif unknown(p):
                r.undec.append('bucket: %s' % show(o.ret)[:160])
            else:
                r.ok('hash modulo the table', False, 'the bucket is %s' % show(o.ret)[:200])
        n or r.undec.append('bucket of a digest')

    def pow2of(S, p):
        return S.at(('pow2', tuple(sorted(padd(p, {(): 1}).items(), key=str))))

    with r.section('table size'):
        S = Lay(r)
        for o in r.outs(bodyre(r, DX + r'::open_hdx_file$'), sides=False, opaque=('load_header', 'write_header', 'open_odx_file', 'fsync_directory', 'add_crc32', 'hash_one', 'set_len', 'repeat', 'try_into')):
            if okret(o) is not True:
                continue
            ix = payload(o.ret, 'Ok')
            if ix.op != 'agg':
                r.undec.append('open: %s' % show(ix)[:80])
                continue
            nb = S.P(fld(fld(ix, 'header'), 'buckets'))
            m = S.P(fld(ix, 'modulus'))
            (r.undec.append('modulus on open: %s' % show(fld(ix, 'modulus'))[:100]) if unknown(m) else r.ok('modulus on open', m == pow2of(S, nb), 'an opened index uses %s for %s buckets' % (shp(m), shp(nb))))

    # ------------------------------------------------------------ splitting
    with r.section('split'):
        S = Lay(r)
        n = 0
        b0, m0 = S.at('buckets@self'), S.at('modulus@self')
        for o in r.outs(bodyre(r, DX + r'::split_one_bucket$'), opaque=('remove_bucket', 'split_elements', 'hash_to_bucket', 'next_bucket_element', 'save_to_bucket_buffer'), **OWN):
            if o.exit != 'ret':
                continue
            st = o.state.get(1, SELF)
            nb, m = fld(fld(st, 'header'), 'buckets'), fld(st, 'modulus')
            base = lambda t: S.at('buckets@self') if strip(t) is strip(fld(fld(SELF, 'header'), 'buckets')) else S.P(t)
            rm = ecalls(o, 'remove_bucket')
            ins = inserted(o)
            taken = [(e.args[1], payload(e.res, 'Ok')) for i, e in rm if ok_of(o, e.res) is not False]

            def norm(t, o=o):
                return same_state(S, t)
            if okret(o) is True:
                n += 1
                PB, PM = norm(nb), norm(m)
                r.ok('one more bucket', PB == padd(b0, {(): 1}), 'a split leaves %s buckets' % show(nb)[:120])
                if unknown(PM):
                    r.undec.append('split modulus: %s' % show(m)[:120])
                else:
                    r.ok('modulus follows the bucket count', PM == pow2of(S, PB), 'after a split the modulus is %s for %s buckets' % (shp(PM), shp(PB)))
                if taken:
                    want = padd(b0, S.at(('half', 2, tuple(sorted(m0.items(), key=str)))), -1)
                    r.ok('the bucket the new one folds onto', norm(taken[0][0]) == want, 'bucket %s is split' % show(taken[0][0])[:120])
                    keys = [norm(e.args[1]) for i, e in ins]
                    r.ok('both halves kept', want in keys and b0 in keys, 'after a split the dirty cache receives only %s' % [show(e.args[1])[:60] for i, e in ins])
                    sp = ecalls(o, 'split_elements')
                    if sp:
                        parts = payload(sp[-1][1].res, 'Ok')
                        pa = [norm(x) for x in sp[-1][1].args[2:4]]
                        for i, e in ins:
                            v, k = strip(e.args[2]), norm(e.args[1])
                            if v.op == 'fld' and v.a[0] is strip(parts) and v.a[1] in '01' and len(pa) == 2:
                                r.ok('each half under its own number', pa[int(v.a[1])] == k, 'half %s is stored under bucket %s' % (v.a[1], show(e.args[1])[:60]))
            elif taken:
                n += 0
                back = [e for i, e in ins if any(norm(e.args[1]) == norm(k) and SA.buf(e.args[2]) is SA.buf(v) or strip(e.args[2]) is strip(v) for k, v in taken)]
                r.ok('bucket put back when the split fails', back, 'a failed split loses the bucket it took [%s]' % txt(o))
                r.ok('counts unchanged when the split fails', norm(nb) == b0 and norm(m) == m0, 'a failed split leaves %s buckets, modulus %s' % (show(nb)[:60], show(m)[:60]))
            else:
                r.ok('counts unchanged when the split fails', norm(nb) == b0 and norm(m) == m0, 'a failed split leaves %s buckets, modulus %s' % (show(nb)[:60], show(m)[:60]))
        n or r.undec.append('split never succeeds')

    # the function that walks the source bucket: where the elements go
    with r.section('divide'):
        ws = [b for b in bodies(r, DX + r'::(?!fetch_position|save|load|contains)\w+$') if 'split' in b.path]
        n = 0
        for b in ws:
            try:
                outs = r.outs(b, opaque=('hash_to_bucket', 'next_bucket_element', 'save_to_bucket_buffer', 'remove_bucket') + (() if b.path.endswith('elements') else ('split_elements',)), **OWN)
            except sa.TooManyPaths:
                r.undec.append('divide: too many paths in ' + b.path)
                continue
            if not any(ecalls(o, 'next_bucket_element') for o in outs):
                continue
            for o in outs:
                if o.exit != 'ret':
                    continue
                nx = ecalls(o, 'next_bucket_element')
                sv = ecalls(o, 'save_to_bucket_buffer')
                it = nx[-1][1].args[1] if nx else None
                if okret(o) is True:
                    n += 1
                    r.ok('reads to the end', nx and is_none(o, nx[-1][1].res), 'a split ends before the last element [%s]' % txt(o))
                    bad = [c for c in o.conds if c[0] == 'true' and contains(c[1], lambda z: z.op == 'fld' and z.a[1] == 'crc_failure') or c[0] == 'true' and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'crc_failure')]
                    r.ok('damage reported', bad and not any(c[2] for c in bad), 'a split succeeds although an overflow record could not be read [%s]' % txt(o))
                for k, (i, e) in enumerate(nx):
                    if is_none(o, e.res) or not is_some(o, e.res):
                        continue
                    h = fld(payload(e.res, 'Some'), '0')
                    hi = nx[k + 1][0] if k + 1 < len(nx) else len(o.events)
                    here = [(j, x) for j, x in sv if i < j < hi]
                    dup = [x for j, x in ecalls(o, 'contains') if i < j < hi and contains(x.args[1], lambda z: z is strip(h) or z is h)]
                    dupi = [x for j, x in ecalls(o, 'insert') if i < j < hi and contains(x.args[0], lambda z: z.op == 'call' and 'Set' in z.a[0]) and contains(x.args[1], lambda z: z is strip(h) or z is h)]
                    seen = any(cond_of(o, x.res, True) for x in dup) or any(cond_of(o, x.res, False) for x in dupi)
                    if k + 1 < len(nx) or okret(o) is True:
                        r.ok('an element is dropped only as an older duplicate', here or seen, 'a split drops an element [%s]' % txt(o))
                    for j, x in here:
                        r.ok('element kept as it is', contains(x.args[1], lambda z: z is strip(h) or z is h) and same(x.args[2], fld(payload(e.res, 'Some'), '1')), 'a split stores %s -> %s' % (show(x.args[1])[-60:], show(x.args[2])[-60:]))
                        r.ok('older duplicates never stored', not seen, 'a split stores an older duplicate over the newer entry [%s]' % txt(o))
                        cs = dup or dupi
                        r.ok('duplicates recognised', cs, 'a split stores elements without looking for duplicates')
                        r.ok('value count unchanged', is_const(strip(x.args[4])) and not strip(x.args[4]).a[0] if len(x.args) > 4 else True, 'a split counts its elements again')
                        q = [z for z in ecalls(o, 'hash_to_bucket') if i < z[0] < hi]
                        if not q:
                            r.undec.append('divide: bucket of the element')
                            continue
                        bk = q[-1][1].res
                        ret = payload(o.ret, 'Ok') if okret(o) is True else None
                        spl, new = [z for z in range(1, b.d['argc'] + 1)][-2:] if b.path.endswith('elements') else (None, None)
                        tgt = SA.buf(x.args[3])
                        if ret is not None and strip(ret).op == 'agg' and spl:
                            def kept(side):
                                return any(z.op == 'upd!' and leaf(z.a[1]) == 'save_to_bucket_buffer' and any(hasattr(y, 'op') and same(y, x.args[1]) for y in z.a[4:]) for z in subterms(side))

                            def cmp(op, n):
                                return any(cc[0] == 'cmp' and cc[1] == op and n in (param_of(strip(cc[2])), param_of(strip(cc[3]))) and contains_either(cc, bk) for cc in o.conds)
                            k0, k1 = kept(fld(ret, '0')), kept(fld(ret, '1'))
                            if k0 == k1:
                                r.undec.append('divide: where an element ends up')
                            elif cmp('eq', spl):
                                r.ok('element goes to its own bucket', k0, 'an element of the split bucket is put into the new one')
                            elif cmp('eq', new) or cmp('ne', spl):
                                r.ok('element goes to its own bucket', k1, 'an element of the new bucket is put into the split one')
                            elif cmp('ne', new):
                                r.ok('element goes to its own bucket', k0, 'an element of the split bucket is put into the new one')
                            else:
                                r.ok('element goes to its own bucket', False, 'an element is placed without regard to its bucket [%s]' % txt(o))
        n or r.undec.append('divide never succeeds')

    # ------------------------------------------------------------ buckets in and out of the cache
    with r.section('save puts the bucket back'):
        n = 0
        for o in r.outs(bodyre(r, DX + r'::save_to_bucket$'), opaque=('hash_to_bucket', 'remove_bucket', 'save_to_bucket_buffer'), **OWN):
            if o.exit != 'ret':
                continue
            rm = [(i, e) for i, e in ecalls(o, 'remove_bucket') if ok_of(o, e.res) is not False]
            if not rm:
                r.ok('a bucket that cannot be read is an error', okret(o) is False, 'save succeeds without its bucket [%s]' % txt(o))
                continue
            n += 1
            i0, e0 = rm[0]
            bk, bf = e0.args[1], payload(e0.res, 'Ok')
            r.ok('bucket of the digest', strip(bk).op == 'call' and leaf(strip(bk).a[0]) == HB and param_of(strip(strip(bk).a[1][1])) == 2, 'the digest is saved to bucket %s' % show(bk)[:80])
            ins = [(i, e) for i, e in ecalls(o, 'insert') if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache')]
            sv = ecalls(o, 'save_to_bucket_buffer')
            good = [i for i, e in ins if same(e.args[1], bk) and rootbuf(e.args[2]) is rootbuf(bf)]
            r.ok('bucket put back, also on error', good, 'the bucket taken out is not put back [%s]' % txt(o))
            if sv:
                i1, e1 = sv[-1]
                r.ok('changed before it is put back', not good or good[-1] > i1, 'the bucket is put back before the entry is added')
                r.ok('entry added as given', param_of(strip(e1.args[1])) == 2 and param_of(strip(e1.args[2])) == 3 and rootbuf(e1.args[3]) is rootbuf(bf), 'save stores %s -> %s' % (show(e1.args[1])[:50], show(e1.args[2])[:50]))
                if ok_of(o, e1.res) is False:
                    r.ok('failure reported', okret(o) is not True, 'save reports success although the entry was not added')
            elif okret(o) is not False:
                r.ok('entry added', False, 'save succeeds without adding the entry [%s]' % txt(o))
        n or r.undec.append('save to bucket')

    with r.section('lookup'):
        n = 0
        for o in r.outs(bodyre(r, DX + r'::fetch_position$'), opaque=('hash_to_bucket', 'remove_bucket', 'next_bucket_element', 'add_bucket_to_cache'), **OWN):
            if o.exit != 'ret':
                continue
            rm = [(i, e) for i, e in ecalls(o, 'remove_bucket', 'remove_bucket_cache')]
            nx = ecalls(o, 'next_bucket_element')
            if not rm or not nx:
                r.undec.append('lookup: %s' % txt(o))
                continue
            bk = rm[0][1].args[1]
            r.ok('bucket of the digest', strip(bk).op == 'call' and leaf(strip(bk).a[0]) == HB and param_of(strip(strip(bk).a[1][1])) == 2, 'the digest is looked up in bucket %s' % show(bk)[:80])
            got = ok_of(o, rm[0][1].res) is not False and not is_none(o, rm[0][1].res)
            if got:
                bf = payload(rm[0][1].res, 'Ok')
                dirty = [e for i, e in ecalls(o, 'contains_key') if i < rm[0][0] and contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache') and same(e.args[1], bk)]
                ins = [e for i, e in ecalls(o, 'insert') if i > rm[0][0] and contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache') and same(e.args[1], bk) and rootbuf(e.args[2]) is rootbuf(bf)]
                cl = [e for i, e in ecalls(o, 'add_bucket_to_cache') if i > rm[0][0] and same(e.args[1], bk) and rootbuf(e.args[2]) is rootbuf(bf)]
                clean = any(cond_of(o, e.res, False) for e in dirty)
                r.ok('a dirty bucket stays dirty', ins or clean, 'a lookup takes a bucket with unwritten entries and does not put it back as dirty [%s]' % txt(o))
            if okret(o) is True:
                n += 1
                v = payload(o.ret, 'Ok')
                src = [e for i, e in nx if is_some(o, e.res) and same(v, fld(payload(e.res, 'Some'), '1'))]
                hits = [k for k, (i, e) in enumerate(nx) if is_some(o, e.res) and any(same2(c, fld(payload(e.res, 'Some'), '0')) for c in o.conds)]
                r.ok('newest entry wins', not src or not hits or nx[hits[0]][1] is src[0], 'a lookup goes on after it met the digest and returns an older entry [%s]' % txt(o))
                if r.ok('position of an element', src, 'a lookup returns %s' % show(v)[-120:]):
                    h = fld(payload(src[0].res, 'Some'), '0')
                    r.ok('the digest itself', any(same2(c, h) for c in o.conds), 'a position is returned for an element whose digest was not compared as a whole [%s]' % txt(o))
            elif okret(o) is False:
                nf = contains(o.ret, lambda z: z.op == 'agg' and z.a[1] == 'NotFound')
                done = is_none(o, nx[-1][1].res)
                if nf:
                    r.ok('absent only after the last element', done or not got, 'a digest is reported absent before the last element was compared [%s]' % txt(o))
                    cf = [c for c in o.conds if c[0] == 'true' and contains(c[1], lambda z: z.op == 'fld' and z.a[1] == 'crc_failure')]
                    hard = [1 for i, e in nx for z in subterms(e.args[1]) if z.op == 'agg' and is_const(strip(fld(z, 'crc_failure')))and strip(fld(z, 'crc_failure')).a[0]]
                    r.ok('damage is never absence', (cf and not cf[-1][2]), 'a digest is reported absent although its bucket could not be read [%s]' % txt(o))
                hit = [c for c in o.conds for i, e in nx if is_some(o, e.res) and same2(c, fld(payload(e.res, 'Some'), '0'))]
                r.ok('a stored digest is found', not hit, 'a lookup fails although the digest was met [%s]' % txt(o))
        n or r.undec.append('lookup never succeeds')
        for o in r.outs(bodyre(r, DX + r'::add_bucket_to_cache$'), **OWN):
            for i, e in ecalls(o, 'remove', 'clear', 'drain', 'retain', 'take', 'insert', 'pop', 'remove_entry'):
                r.ok('eviction spares unwritten buckets', not contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache'), 'making room in the cache changes the unwritten buckets')
        for o in r.outs(bodyre(r, BI + r'::new_empty$'), sides=False):
            v = strip(fld(o.ret, 'crc_failure'))
            r.ok('an unreadable bucket is damage', is_const(v) and v.a[0], 'the iterator over an unreadable bucket reports no damage')

    # ------------------------------------------------------------ layout of a bucket
    with r.section('bucket layout'):
        eloc = {}

        def count(z):
            return z.op == 'call' and leaf(z.a[0]) == 'from_le_bytes' and z.a[0].count('u32') and (lambda g: g == (8, 12))(src_range(z.a[1][0]))
        S = Lay(r, count)
        KS = None
        for o in r.outs(bodyre(r, BI + r'::get_element$'), sides=False):
            if o.exit != 'ret':
                continue
            b, klo, khi = sliced(S, fld(o.ret, '0'))
            z = strip(fld(o.ret, '1'))
            if not (z.op == 'call' and re.fullmatch(r'from_(le|be|ne)_bytes', leaf(z.a[0]))):
                r.undec.append('element: %s' % show(z)[:100])
                continue
            src = z.a[1][0]
            for _ in range(6):
                src = strip(src)
                if src.op == 'upd!' and leaf(src.a[1]) == 'copy_from_slice':
                    src = src.a[4]
                elif src.op == 'call' and leaf(src.a[0]) in ('try_into', 'try_from', 'unwrap', 'expect'):
                    src = src.a[1][0]
                elif src.op == 'fld' and strip(src.a[0]).op == 'call' and leaf(strip(src.a[0]).a[0]) in ('split_at', 'split_at_mut'):
                    break
                elif src.op in ('fld', 'as'):
                    src = src.a[0]
            b2, plo, phi = sliced(S, src)
            r.ok('one record', rootbuf(b) is rootbuf(b2), 'digest and position come from different buffers')
            el = (padd(klo, {(): -12}), khi and padd(khi, klo, -1), padd(plo, klo, -1), phi and padd(phi, plo, -1), leaf(z.a[0])[5:7])
            eloc[str(el)] = (klo, khi, plo, phi, leaf(z.a[0])[5:7])
        if len(eloc) != 1:
            r.undec.append('element layout: %d' % len(eloc))
            return
        klo, khi, plo, phi, order = list(eloc.values())[0]
        KS = padd(khi, klo, -1)
        ip = S.at('param2')
        base = {k: v for k, v in klo.items() if 'param2' not in k}
        stride = {tuple(x for x in k if x != 'param2'): v for k, v in klo.items() if 'param2' in k}
        off = padd(plo, klo, -1)
        r.ok('digest then position', off == KS or not nonneg(padd(KS, off, -1)), 'the digest of an element overlaps its position')
        r.ok('elements do not overlap', nonneg(padd(padd(stride, off, -1), {(): -8})), 'elements are %s bytes apart and end at %s' % (shp(stride), shp(padd(off, {(): 8}))))
        size = S.P(mk('c', 'x::BUCKET_SIZE', 'usize'))
        cap = S.P(mk('c', 'x::BUCKET_ELEMENTS', 'usize'))
        r.ok('a full bucket fits before its checksum', nonneg(padd(padd(size, padd(base, pmul(stride, cap)), -1), {(): -4})), 'bucket size %s, elements end at %s' % (shp(size), shp(padd(base, pmul(stride, cap)))))

        # header of a bucket as read
        heads = []
        for o in r.outs(bodyre(r, BI + r'::new$'), sides=False):
            if o.exit == 'ret':
                heads.append(('first bucket', loaded(strip(fld(o.ret, 'overflow_pos'))), loaded(strip(fld(o.ret, 'elements')))))
                for f, want in (('bucket_pos', 0), ('crc_failure', 0)):
                    v = strip(fld(o.ret, f))
                    r.ok('iteration starts at the first element', is_const(v) and v.a[0] == want, '%s starts at %s' % (f, show(v)[:40]))
        RN = r.outs(bodyre(r, BI + r'::reset_next_overflow$'), own=(1, 2), sides=False, opaque=('check_crc',))
        n = 0
        for o in RN:
            v = someret(o)
            st = o.state.get(1, SELF)
            rd = ecalls(o, 'read_exact')
            if v is NONE or v is None and okret(o) is False:
                bad = strip(fld(st, 'crc_failure'))
                r.ok('a record that cannot be used is damage', is_const(bad) and bad.a[0], 'the walk of a bucket ends at an unusable overflow record as if it had no more elements [%s]' % txt(o))
                continue
            n += 1
            op, ne = strip(fld(st, 'overflow_pos')), strip(fld(st, 'elements'))
            heads.append(('overflow record', loaded(op), loaded(ne)))
            r.ok('checksum verified', any(c[0] == 'true' and c[2] and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'check_crc') for c in o.conds), 'an overflow record is used without verifying its checksum [%s]' % txt(o))
            r.ok('read completely', rd and ok_of(o, rd[-1][1].res) is True, 'an overflow record is used that was not read [%s]' % txt(o))
            if rd:
                sk = next((z for z in subterms(rd[-1][1].args[0]) if z.op == 'upd!' and leaf(z.a[1]) == 'seek'), None)
                pos = sk and next((z.a[2][0][1] if False else fld(z, '0') for z in subterms(sk.a[4]) if z.op == 'agg' and z.a[1] == 'Start'), None)
                if pos is None:
                    r.undec.append('overflow read: %s' % show(rd[-1][1].args[0])[:100])
                else:
                    r.ok('read where the chain points', same(pos, fld(SELF, 'overflow_pos')), 'an overflow record is read at %s' % show(pos)[:80])
            back = False
            for c in o.conds:
                if c[0] == 'cmp' and c[1] in ('lt',) and same(c[2], op) and same(c[3], fld(SELF, 'overflow_pos')):
                    back = True
                if c[0] == 'cmp' and c[1] == 'eq' and (same(c[2], op) and is_const(strip(c[3])) and strip(c[3]).a[0] == 0 or same(c[3], op) and is_const(strip(c[2])) and strip(c[2]).a[0] == 0):
                    back = True
                if c[0] == 'cmp' and c[1] == 'le' and is_const(strip(c[3])) and strip(c[3]).a[0] == 0 and same(c[2], op):
                    back = True
            r.ok('chain leads strictly backwards', back, 'the walk continues to an overflow record that does not lie before the current one [%s]' % txt(o))
            bp = strip(fld(st, 'bucket_pos'))
            r.ok('overflow walk starts at the first element', is_const(bp) and bp.a[0] == 0, 'the walk of an overflow record starts at %s' % show(bp)[:60])
            bo = strip(fld(st, 'buffer'))
            r.ok('elements come from the record read', bo.op == 'agg' and bo.a[1] == 'None' or contains(bo, lambda z: z.op == 'fld' and z.a[1] == 'overflow_buffer'), 'elements are taken from %s' % show(bo)[:80])
        n or r.undec.append('overflow walk')
        for who, a, b in heads:
            if a is None or b is None:
                r.undec.append('%s header: %s %s' % (who, a, b))
            else:
                r.ok('bucket header read alike', (a, b) == ((0, 8, 'le'), (8, 12, 'le')), '%s: link at %s, count at %s' % (who, a, b))

    with r.section('walk'):
        n = 0
        for o in r.outs(bodyre(r, DX + r'::next_bucket_element$'), own=(1, 2), sides=False, opaque=('reset_next_overflow', 'get_element')):
            if o.exit != 'ret':
                continue
            S = Lay(r)
            it = o.state.get(2, None)
            v = someret(o)
            it0 = next((z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'param' and param_of(z) == 2), None)
            if it0 is None:
                r.undec.append('walk: %s' % txt(o))
                continue
            rs = ecalls(o, 'reset_next_overflow')
            if v is not NONE and v is not None:
                n += 1
                ge = ecalls(o, 'get_element')
                r.ok('damaged bucket yields nothing', cond_of(o, fld(it0, 'crc_failure'), False), 'an element of a damaged bucket is returned [%s]' % txt(o))
                if not ge:
                    r.undec.append('walk: %s' % show(o.ret)[:80])
                    continue
                at, pos = ge[-1][1].args[0], ge[-1][1].args[1]
                r.ok('returned as read', contains(o.ret, lambda z: z is ge[-1][1].res), 'the element returned is %s' % show(v)[:80])
                cur = it0 if not rs else None
                src = next((z.a[0] for z in spine(strip(pos)) if z.op == 'fld' and z.a[1] == 'bucket_pos'), None)
                if src is None:
                    r.undec.append('walk: element %s' % show(pos)[:80])
                    continue
                P, E = S.P(fld(src, 'bucket_pos')), S.P(fld(src, 'elements'))
                gs, eq = ge0(S, o.conds)
                r.ok('element exists', S.P(pos) == P and any(const_diff(padd(padd(E, P, -1), {(): -1}), f) for f in gs), 'element %s is read without being below the count [%s]' % (shp(S.P(pos)), txt(o)))
                after = S.P(fld(it, 'bucket_pos'))
                r.ok('advances by one', after == padd(P, {(): 1}), 'after an element the next is %s' % show(fld(it, 'bucket_pos'))[-80:])
            elif not (rs and (is_none(o, rs[-1][1].res) or ok_of(o, rs[-1][1].res) is False)):
                if cond_of(o, fld(it0, 'crc_failure'), True):
                    continue
                cur = next((z for c in reversed(o.conds) for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'fld' and z.a[1] == 'overflow_pos'), None)
                if cur is None:
                    r.ok('ends at the end of the chain', False, 'the walk ends without looking for an overflow record [%s]' % txt(o))
                    continue
                X = cur.a[0]
                gs, eq = ge0(S, o.conds)
                OP, P, E = S.P(cur), S.P(fld(X, 'bucket_pos')), S.P(fld(X, 'elements'))
                r.ok('ends at the end of the chain', any(f == OP or f == padd({}, OP, -1) for f in eq) or any(const_diff(padd({}, OP, -1), f) for f in gs), 'the walk ends although an overflow record follows [%s]' % txt(o))
                r.ok('ends after the last element', any(const_diff(padd(P, E, -1), f) for f in gs) or any(f == E or f == padd({}, E, -1) for f in eq), 'the walk ends before the last element [%s]' % txt(o))
        n or r.undec.append('walk yields nothing')

    # ------------------------------------------------------------ adding an entry to a bucket
    with r.section('entry in a bucket'):
        S = Lay(r, count)
        E, BE = S.at('E'), S.at('bucket_elements@self')
        n = 0
        for o in r.outs(bodyre(r, DX + r'::save_to_bucket_buffer$'), own=(1, 4), sides=False, opaque=('add_crc32',)):
            if o.exit != 'ret':
                continue
            wr = []
            for i, e in ecalls(o, 'copy_from_slice', 'clone_from_slice'):
                b, lo, hi = sliced(S, e.args[0])
                if param_of(strip(b)) == 4:
                    wr.append((i, lo, hi, e.args[1]))
            ov = [(i, e) for i, e in ecalls(o, 'write_all', 'write') if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'odx_file')]
            fills = [(i, e) for i, e in ecalls(o, 'fill')]
            if okret(o) is False:
                r.ok('bucket unchanged on error', not wr and not [f for f in fills if not ov or f[0] < ov[-1][0]], 'a failed save leaves the bucket changed [%s]' % txt(o))
                continue
            n += 1
            ge, eq = ge0(S, o.conds)
            zero = any(f == E or f == padd({}, E, -1) for f in eq) or any(const_diff(padd({}, E, -1), f) for f in ge)
            room = any(const_diff(padd(padd(BE, E, -1), {(): -1}), f) for f in ge)
            keyw = [w for w in wr if param_of(strip(w[3])) == 2]
            posw = [w for w in wr if le_val(w[3]) and param_of(strip(le_val(w[3])[1])) == 3]
            cntw = [w for w in wr if w[1] == {(): 8}]
            lnk = [w for w in wr if w[1] == {}]
            if not posw and any(y.op == 'call' and re.match('r?chunks', leaf(y.a[0])) for c in o.conds for x in c[1:] if hasattr(x, 'op') for y in subterms(x)):
                r.undec.append('entry in a bucket: elements written through pieces of the bucket')
                continue
            if not r.ok('position stored', len(posw) == 1, 'save writes %d positions [%s]' % (len(posw), txt(o))):
                continue
            ip, plo2, phi2, pv = posw[0]
            r.ok('position stored as it is read', le_val(pv)[0] == order and (phi2 is None or padd(phi2, plo2, -1) == {(): 8}), 'the position is stored as %s' % show(pv)[:60])
            inc = o.state.get(1, SELF)
            inc = fld(fld(inc, 'header'), 'values')
            iv = bool_of(o, next((z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'param' and param_of(z) == 5), TRUE)) if True else None
            grew = inc is not fld(fld(SELF, 'header'), 'values')
            if not keyw:
                at = padd(plo2, off, -1)
                hit = False
                for c in o.conds:
                    if c[0] == 'cmp' and c[1] == 'eq' or c[0] == 'true' and c[2]:
                        xs = [x for y in c[1:] if hasattr(y, 'op') for x in (list(y.a[1]) if y.op == 'call' and leaf(y.a[0]) == 'eq' else [y])]
                        for x in xs:
                            b, lo, hi = sliced(S, x)
                            if param_of(strip(b)) == 4 and lo == at and hi is not None and padd(hi, lo, -1) == KS:
                                hit = any(param_of(strip(z)) == 2 for z in xs)
                if not hit and contains(ecall_at(o, ip).args[0], lambda z: z.op in ('call', 'search') and leaf(z.a[0]) in ('find', 'position', 'find_map', 'search', 'rposition', 'filter')):
                    r.undec.append('overwrite: %s' % show(ecall_at(o, ip).args[0])[:120])
                    continue
                r.ok('overwrites the same digest only', hit, 'the position of an element is replaced whose digest was not compared [%s]' % txt(o))
                r.ok('an overwritten entry is not counted again', not grew, 'an overwrite raises the number of values')
                continue
            counted = strip(o.ret).op == 'agg' and payload(o.ret, 'Ok').op != 'agg'
            if counted and not grew and is_const(strip(payload(o.ret, 'Ok'))) and (isinstance(strip(payload(o.ret, 'Ok')).a[0], bool) or strip(payload(o.ret, 'Ok')).a[-1] == 'bool'):
                r.undec.append('entry in a bucket: counted by the caller')
            elif iv is not None:
                r.ok('new entries are counted', grew == iv, 'values change although %s' % iv)
            ik, klo2, khi2, _ = keyw[0]
            r.ok('position next to its digest', padd(plo2, klo2, -1) == off, 'the digest is written at %s, its position at %s' % (shp(klo2), shp(plo2)))
            if not cntw:
                r.ok('element counted', False, 'an element is added without counting it [%s]' % txt(o))
                continue
            cv = le_val(cntw[-1][3])
            cnt = S.P(cv[1]) if cv else None
            if cnt is None or unknown(cnt):
                r.undec.append('entry count: %s' % show(cntw[-1][3])[:80])
                continue
            r.ok('count stored as it is read', cv[0] == 'le', 'the count is stored as %s' % show(cntw[-1][3])[:60])
            idx = {(): 0}
            if ov:
                full = any(const_diff(padd(E, BE, -1), f) for f in ge)
                r.ok('overflow kept as a link', lnk, 'the bucket is emptied without linking to its overflow record')
                r.ok('first element of the emptied bucket', klo2 == base and cnt == {(): 1}, 'after an overflow the element is written at %s, the count is %s' % (shp(klo2), shp(cnt)))
                iw, ew = ov[-1]
                b, lo, hi = sliced(S, ew.args[1])
                r.ok('whole bucket written', param_of(strip(b)) == 4 and not lo and hi is None and leaf(ew.name) == 'write_all' and ok_of(o, ew.res) is True, 'the overflow record is %s' % show(ew.args[1])[:80])
                crc = [i for i, e in enumerate(o.events) if e.k == 'call' and (leaf(e.name) == 'add_crc32' or leaf(e.name) == 'finalize')]
                r.ok('checksum before it is written', crc and crc[-1] < iw, 'the overflow record is written without a checksum')
                r.ok('emptied after it is written', [i for i, e in fills if i > iw and is_const(strip(e.args[1])) and strip(e.args[1]).a[0] == 0] and all(i > iw for i, *_ in wr), 'the bucket is changed before its overflow record is written')
                if lnk:
                    lv = le_val(lnk[-1][3])
                    sk = strip(lv[1]) if lv else None
                    seek = next((z for z in subterms(sk) if z.op == 'call' and leaf(z.a[0]) in ('seek', 'stream_len')), None) if sk is not None else None
                    told = seek is None and sk is not None and next((z for z in subterms(sk) if z.op == 'call' and leaf(z.a[0]) == 'stream_position'), None)
                    if told and not [1 for i, e in ecalls(o, 'seek') if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'odx_file')]:
                        r.ok('link to where the record was written', False, 'the link is wherever the overflow file was left, not its end')
                    elif seek is None:
                        r.undec.append('overflow link: %s' % show(lnk[-1][3])[:80])
                    else:
                        i_s = next((i for i, e in enumerate(o.events) if e.k == 'call' and e.res is seek), None)
                        endp = contains(seek, lambda z: z.op == 'agg' and z.a[1] == 'End' and is_const(strip(fld(z, '0'))) and strip(fld(z, '0')).a[0] == 0)
                        r.ok('link to where the record was written', endp and (i_s is None or i_s < iw) and contains(seek.a[1][0], lambda z: z.op == 'fld' and z.a[1] == 'odx_file') and lv[0] == 'le', 'the link is %s' % show(lnk[-1][3])[:120])
            else:
                r.ok('room for the element', room, 'an element is added to a bucket that may be full [%s]' % txt(o))
                want = base if zero else padd(base, pmul(stride, E))
                got = klo2
                r.ok('first free place', got == want or zero and got == padd(base, pmul(stride, E)), 'the element is written at %s, the first free place is %s' % (shp(got), shp(want)))
                r.ok('one more element', cnt == padd(E, {(): 1}) or zero and cnt == {(): 1}, 'the count becomes %s' % shp(cnt))
                r.ok('link kept', not lnk and not fills, 'the link to the overflow record is overwritten')
                if not zero:
                    se = [e for i, e in ecalls(o, 'next', 'position', 'find', 'any', 'iter', 'into_iter')] 
                    its = [z for c in o.conds for x in c[1:] if hasattr(x, 'op') for y in subterms(x) if y.op in ('next', 'elem', 'iter') or y.op == 'call' and leaf(y.a[0]) == 'iter' for z in [iterated(y)]]
                    rg = [z for z in its if z.op == 'agg' and z.a[0].endswith('Range')]
                    full_scan = [z for z in rg if is_const(strip(fld(z, 'start'))) and strip(fld(z, 'start')).a[0] == 0 and S.P(fld(z, 'end')) == E]
                    loops = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next' or c[0] == 'is' and 'next' in show(c[1])[:8]]
                    if loops and not rg:
                        r.undec.append('entry in a bucket: loop over %s' % [show(z)[:80] for z in its][:1])
                    elif loops:
                        r.ok('every element compared with the digest', full_scan, 'duplicates are looked for among %s only' % [show(z)[:80] for z in rg][:2])
        n or r.undec.append('entry in a bucket')

    # ------------------------------------------------------------ bucket files
    with r.section('bucket from the file'):
        S = Lay(r)
        n = 0
        places = []

        def place(S, o, i, e):
            """where the file stands before event i, as (offset, coefficient of the bucket number)"""
            sk = [x for j, x in ecalls(o, 'seek') if j < i and contains(x.args[0], lambda z: z.op == 'fld' and z.a[1] == 'hdx_file')]
            st = next((fld(z, '0') for z in subterms(sk[-1].args[1]) if z.op == 'agg' and z.a[1] == 'Start'), None) if sk else None
            return None if st is None else S.P(rebase(st))
        for o in r.outs(bodyre(r, DX + r'::remove_bucket$'), opaque=('check_crc',), **OWN):
            if okret(o) is not True:
                continue
            rd = [(i, e) for i, e in ecalls(o, 'read_exact', 'read')]
            if not rd:
                v = payload(o.ret, 'Ok')
                src = next((z for z in subterms(v) if z.op == 'call' and leaf(z.a[0]) == 'remove'), None)
                if src is None:
                    r.undec.append('bucket: %s' % show(v)[:80])
                    continue
                r.ok('the bucket asked for', param_of(strip(src.a[1][1])) == 2, 'bucket %s is taken' % show(src.a[1][1])[:60])
                if contains(src.a[1][0], lambda z: z.op == 'fld' and z.a[1] == 'bucket_cache'):
                    first = [e for i, e in ecalls(o, 'remove', 'get', 'contains_key') if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache')]
                    r.ok('unwritten buckets first', first, 'a clean copy is used while an unwritten bucket may exist')
                continue
            n += 1
            i, e = rd[-1]
            r.ok('cache first', [1 for j, x in ecalls(o, 'remove') if contains(x.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache')], 'a bucket is read from the file while an unwritten one may exist')
            r.ok('verified', any(c[0] == 'true' and c[2] and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'check_crc') for c in o.conds) and ok_of(o, e.res) is True, 'a bucket is used without verifying its checksum [%s]' % txt(o))
            places.append(('read', place(S, o, i, e)))
        n or r.undec.append('bucket never read')
        for o in r.outs(bodyre(r, DX + r'::save_bucket_cache$'), opaque=('add_crc32', 'add_bucket_to_cache'), **OWN):
            for i, e in ecalls(o, 'write_all'):
                if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'hdx_file'):
                    places.append(('written', place(S, o, i, e)))
        ps = set()
        for w, q in places:
            ps.add(str(sorted(((tuple(sorted('bucket' if isinstance(x, tuple) or x == 'param2' else x for x in k)), v) for k, v in q.items()), key=str)) if q is not None else None)
        if None in ps or {w for w, q in places} != {'read', 'written'}:
            r.undec.append('place of a bucket: %s' % [(w, q and shp(q)) for w, q in places][:3])
        else:
            r.ok('a bucket is read from where it is written', len(ps) == 1, 'buckets are at %s' % sorted({'%s: %s' % (w, shp(q)) for w, q in places}))

    with r.section('save and load'):
        for o in r.outs(bodyre(r, DX + r' as .*Index>::save$'), opaque=SA_HEAVY, **OWN):
            if o.exit != 'ret' or okret(o) is False:
                continue
            ac = [(i, e) for i, e in ecalls(o, 'accrue')]
            sv = [(i, e) for i, e in ecalls(o, 'save_to_bucket')]
            if not r.ok('entry saved', sv or okret(o) is None, 'save succeeds without storing the entry [%s]' % txt(o)):
                continue
            r.ok('filter knows every stored digest', ac and any(contains(e.args[1], lambda z: param_of(z) == 2) for i, e in ac), 'a digest is stored without entering it in the filter [%s]' % txt(o))
            for i, e in sv:
                r.ok('stored as given', contains(e.args[1], lambda z: param_of(z) == 2) and param_of(strip(e.args[2])) == 3, 'save stores %s -> %s' % (show(e.args[1])[:60], show(e.args[2])[:60]))
        for o in r.outs(bodyre(r, DX + r' as .*Index>::load$'), opaque=SA_HEAVY, **OWN):
            if o.exit != 'ret':
                continue
            f = ecalls(o, 'fetch_position')
            c = [e for i, e in ecalls(o, 'contains')]
            if not f:
                miss = any(cond_of(o, e.res, False) and contains(e.args[1], lambda z: param_of(z) == 2) for e in c)
                r.ok('absent only when the filter says so', miss and okret(o) is False, 'a digest is not looked up although the filter knows it [%s]' % txt(o))
            else:
                r.ok('looked up as given', contains(f[0][1].args[1], lambda z: param_of(z) == 2), 'load looks up %s' % show(f[0][1].args[1])[:60])
                r.ok('result of the lookup', strip(o.ret) is strip(f[0][1].res) or okret(o) is False and ok_of(o, f[0][1].res) is False or okret(o) is True and same(payload(o.ret, 'Ok'), payload(f[0][1].res, 'Ok')), 'load returns %s' % show(o.ret)[:100])

    with r.section('filter'):
        def bits(b, w):
            out = set()
            for o in r.outs(b, sides=False):
                lp = tuple(sorted({show(z) for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'agg' and z.a[0].endswith('Range')}))
                for x in ([y for c in o.conds for y in c[1:] if hasattr(y, 'op')] if not w else [a for e in o.events if e.k in ('write', 'lwrite') for a in e.args]):
                    for z in subterms(x):
                        if z.op == 'bin' and z.a[0] == ('BitOr' if w else 'BitAnd'):
                            for p, q in ((z.a[1], z.a[2]), (z.a[2], z.a[1])):
                                p, q = strip(p), strip(q)
                                if p.op == 'call' and leaf(p.a[0]) in ('index', 'index_mut') and contains(p.a[1][0], lambda y: y.op == 'fld' and y.a[1] == 'bits'):
                                    out.add((lp, canon(p.a[1][1]), canon(q)))
            return out
        A, C = bits(bodyre(r, r'digest_index::bloom::Bloom::accrue$'), True), bits(bodyre(r, r'digest_index::bloom::Bloom::contains$'), False)
        if not A or not C:
            r.undec.append('filter bits: %d %d' % (len(A), len(C)))
        else:
            full = lambda X: {x for x in X if 'hash' in x[1] or '#' in x[1]} or X
            A1, C1 = full(A), full(C)
            r.ok('the bits tested are the bits set', bool(C1 & A1) and not (C1 - A1 and A1 - C1) or C1 <= A1, 'tested: %s; set: %s' % (sorted(C1 - A1)[:1], sorted(A1 - C1)[:1]))


def iterated(t):
    t = strip(t)
    while t.op in ('next', 'elem') and t.a and hasattr(t.a[0], 'op') or t.op == 'call' and leaf(t.a[0]) in ('iter', 'into_iter') and t.a[1]:
        t = strip(t.a[0] if t.op in ('next', 'elem') else t.a[1][0])
    return t


class Ins:
    def __init__(self, e, k, v):
        self.args, self.res, self.k, self.name = (e.args[0], k, v), e.res, e.k, e.name


def inserted(o):
    """entries put into the dirty cache, one at a time or as a list"""
    out = []
    for i, e in ecalls(o, 'insert', 'extend'):
        if contains(e.args[0], lambda z: z.op == 'fld' and z.a[1] == 'dirty_bucket_cache'):
            if leaf(e.name) == 'insert':
                out.append((i, e))
            else:
                l = strip(e.args[1])
                while l.op == 'call' and leaf(l.a[0]) in ('iter', 'into_iter') and l.a[1]:
                    l = strip(l.a[1][0])
                if l.op == 'agg' and l.a[0] == 'array':
                    out += [(i, Ins(e, fld(x, '0'), fld(x, '1'))) for _, x in l.a[2]]
    return out


SA_HEAVY = ('split_one_bucket', 'expand_buckets', 'save_to_bucket_buffer', 'save_to_bucket', 'next_bucket_element', 'fetch_position', 'remove_bucket', 'save_bucket_cache', 'write_header', 'accrue', 'contains')
TRUE = mk('c', True, 'bool')


def same(a, b):
    a, b = strip(a), strip(b)
    return a is b or view(a) is view(b)


def same2(c, h):
    """condition c: the looked-up key (parameter 2) equals h as a whole"""
    if not (c[0] == 'cmp' and c[1] == 'eq' or c[0] == 'true' and c[2]):
        return False
    if c[0] == 'cmp':
        xs = [c[2], c[3]]
    else:
        z = strip(c[1])
        if not (z.op == 'call' and leaf(z.a[0]) == 'eq'):
            return False
        xs = list(z.a[1])
    return any(param_of(strip(x)) == 2 for x in xs) and any(same(x, h) for x in xs)


def is_some(o, t):
    return any(c[0] == 'is' and strip(c[1]) is strip(t) and (c[2] in ('Ok', 'Some') and c[3] or c[2] == 'None' and not c[3]) for c in o.conds)


def is_none(o, t):
    return any(c[0] == 'is' and strip(c[1]) is strip(t) and (c[2] in ('Ok', 'Some') and not c[3] or c[2] == 'None' and c[3]) for c in o.conds)


def contains_either(c, t):
    t = strip(t)
    return any(strip(x) is t for x in c[2:4])


def rootbuf(t):
    """the buffer below updates, borrows and slices"""
    t = strip(t)
    for _ in range(60):
        if t.op == 'upd!':
            t = strip(t.a[0])
        elif t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut') and t.a[1]:
            t = strip(t.a[1][0])
        else:
            break
    return t


def same_state(S, t):
    """polynomial of a term; reads of unchanged fields through updates by opaque calls count as the original"""
    t = rebase(t)
    return S.P(t)


KEEP = {'remove_bucket', 'split_elements', 'hash_to_bucket', 'next_bucket_element', 'insert', 'remove'}


def rebase(t):
    """a field read through calls that are known not to change it"""
    m = {}

    def go(x):
        if not hasattr(x, 'op'):
            return x
        if x.op == 'fld' and x.a[1] in ('buckets', 'modulus', 'header', 'bucket_elements'):
            b = x.a[0]
            while b.op == 'upd!' and leaf(b.a[1]) in KEEP:
                b = b.a[0]
            return fld(go(b) if b.op in ('fld', 'upd') else b, x.a[1])
        if x.op in ('bin',):
            return binop(x.a[0], go(x.a[1]), go(x.a[2]))
        if x.op == 'cast':
            return mk('cast', x.a[0], go(x.a[1]), *x.a[2:])
        if x.op == 'call' and leaf(x.a[0]) == 'next_power_of_two':
            return mk('call', x.a[0], (go(x.a[1][0]),) + tuple(x.a[1][1:]), *x.a[2:])
        if x.op == 'upd' and len(x.a) == 3:
            return upd(go(x.a[0]), x.a[1], go(x.a[2]))
        return x
    return go(t)


def canon(t):
    """text of a bit index, shifts by constants as division and masks as remainder"""
    s = show(t)
    s = re.sub(r'\(([^()]*) Shr (\d+)\)', lambda m: '(%s Div %d)' % (m.group(1), 1 << int(m.group(2))), s)
    s = re.sub(r' Shr (\d+)\)', lambda m: ' Div %d)' % (1 << int(m.group(1))), s)
    s = re.sub(r' BitAnd 7\)', ' Rem 8)', s)
    s = re.sub(r'index_mut', 'index', s)
    return re.sub(r'@\([^)]*\)', '', s)


# ---------------------------------------------------------------- execution-state snapshots
XP = r'tn_storage::exec_state_pack::'


def is_rec(o, t, v, pol=True):
    """record term t is known to be variant v (or known not to be)"""
    t = strip(t)
    for c in o.conds:
        if c[0] == 'is' and strip(c[1]) is t and c[2] == v:
            return c[3] == pol
        if c[0] == 'is' and strip(c[1]) is t and c[2] != v and c[3] and not pol:
            return True
        if c[0] == 'isin' and strip(c[1]) is t and v in c[2] and not pol:
            return True
    return False


def upper(o, pred, S=None):
    """least constant the conditions of o put above a term satisfying pred, or None"""
    best = None
    for c in o.conds:
        if c[0] != 'cmp':
            continue
        a, b = strip(c[2]), strip(c[3])
        for x, y, op in ((a, b, c[1]), (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(c[1], c[1]))):
            while x.op == 'cast' and x.a[0] not in ('u8', 'u16', 'i8', 'i16') or x.op == 'call' and leaf(x.a[0]) in ('from', 'into') and len(x.a[1]) == 1:
                x = strip(x.a[1] if x.op == 'cast' else x.a[1][0])
            if pred(x) and is_const(y):
                v = y.a[0] if op in ('le', 'eq') else y.a[0] - 1 if op == 'lt' else None
                if v is not None and (best is None or v < best):
                    best = v
    return best


def lower(o, pred):
    best = None
    for c in o.conds:
        if c[0] != 'cmp':
            continue
        a, b = strip(c[2]), strip(c[3])
        for x, y, op in ((a, b, c[1]), (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(c[1], c[1]))):
            while x.op == 'cast' and x.a[0] not in ('u8', 'u16', 'i8', 'i16') or x.op == 'call' and leaf(x.a[0]) in ('from', 'into') and len(x.a[1]) == 1:
                x = strip(x.a[1] if x.op == 'cast' else x.a[1][0])
            if pred(x) and is_const(y):
                v = y.a[0] if op in ('ge', 'eq') else y.a[0] + 1 if op == 'gt' else 1 if op == 'ne' and y.a[0] == 0 else None
                if v is not None and (best is None or v > best):
                    best = v
    return best


def is_len_of(v):
    v = strip(v)
    return lambda x: x.op in ('len',) and strip(x.a[0]) is v or x.op == 'call' and leaf(x.a[0]) == 'len' and strip(x.a[1][0]) is v


@check('C23', ['tn_storage'])
def c23(r):
    W = {'own': (1,), 'sides': False, 'opaque': ('Pack::append', 'Pack::commit', 'Pack::open', 'encode_header')}
    bound = {}

    def records(o):
        out = []
        for i, e in enumerate(o.events):
            if e.k == 'call' and e.name.endswith('pack::Pack::append') and len(e.args) == 2:
                out.append((i, e, strip(e.args[1])))
        return out

    def reports(what, o):
        """success implies that every record was appended"""
        if okret(o) is not True:
            return
        for i, e, x in records(o):
            k = ok_of(o, e.res)
            if k is None and contains(o.ret, lambda z: z is e.res):
                r.undec.append('%s: result of append not followed' % what)
            else:
                r.ok('%s: a failed append is reported' % what, k is True, '%s reports success although a record may not have been appended [%s]' % (what, txt(o)))

    with r.section('create'):
        n = 0
        for o in r.outs(bodyre(r, XP + r'ExecStatePackWriter::create$'), **W):
            if okret(o) is not True:
                continue
            n += 1
            reports('create', o)
            rs = records(o)
            hd = [e for i, e in ecalls(o, 'first', 'get', 'split_first', 'index')]
            if not r.ok('meta first', rs and rs[0][2].op == 'agg' and rs[0][2].a[1] == 'Meta', 'the first record is %s' % (show(rs[0][2])[:80] if rs else 'missing')):
                continue
            m = fld(rs[0][2], '0')
            root_, num, h, cnt = [strip(fld(m, f)) for f in ('state_root', 'block_number', 'block_hash', 'header_count')]
            snap = strip(num.a[0]) if num.op == 'fld' and num.a[1] == 'number' else None
            if snap is None:
                r.undec.append('create: block number %s' % show(num)[:80])
                continue
            first = contains(snap, lambda z: z.op == 'call' and leaf(z.a[0]) in ('first', 'split_first') and param_of(strip(z.a[1][0])) == 3 or at0(z))
            r.ok('anchored at the first header', first, 'the snapshot is anchored at %s' % show(snap)[:80])
            r.ok('hash of the anchoring block', h.op == 'call' and leaf(h.a[0]).startswith('hash') and strip(h.a[1][0]) is snap, 'the block hash recorded is %s' % show(h)[:100])
            r.ok('root of the anchoring block', any(c[0] == 'cmp' and c[1] == 'eq' and {2} <= {param_of(strip(c[2])), param_of(strip(c[3]))} and any(strip(x).op == 'fld' and strip(x).a[1] == 'state_root' and strip(strip(x).a[0]) is snap for x in c[2:4]) for c in o.conds) and (param_of(root_) == 2 or root_.op == 'fld' and root_.a[1] == 'state_root' and strip(root_.a[0]) is snap),
                 'a snapshot is written whose root was not compared with its block [%s]' % txt(o))
            ne = cond_len(o, 3)
            r.ok('headers present', any(c[0] == 'is' and c[2] in ('Ok', 'Some') and c[3] and contains(c[1], lambda z: param_of(z) == 3) and 'next' not in show(c[1])[:5] for c in o.conds) or ne, 'a snapshot without headers is written [%s]' % txt(o))
            c = cnt
            narrow = False
            while c.op == 'cast' or c.op == 'call' and leaf(c.a[0]) in ('try_into', 'unwrap', 'expect', 'from', 'into'):
                narrow |= c.op == 'cast' and c.a[0] in ('u8', 'u16', 'i8', 'i16')
                c = strip(c.a[1] if c.op == 'cast' else c.a[1][0])
            r.ok('declares every header', not narrow and (c.op == 'len' or c.op == 'call' and leaf(c.a[0]) == 'len') and contains(c, lambda z: param_of(z) == 3) and not contains(c, lambda z: z.op == 'call' and leaf(z.a[0]) in ('index', 'split_first')), 'the number of headers declared is %s' % show(cnt)[:80])
            rest = rs[1:]
            it = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next' and contains(c[1], lambda z: param_of(z) == 3)]
            for i, e, x in rest:
                src = strip(fld(x, '0')) if x.op == 'agg' and x.a[1] == 'Header' else None
                if not r.ok('only headers follow', src is not None, 'the record after the meta record is %s' % show(x)[:80]):
                    continue
                r.ok('the headers given, in order', contains(src, lambda z: z.op == 'elem' and contains(z, lambda y: param_of(y) == 3)) and not contains(src, lambda z: z.op == 'call' and leaf(z.a[0]) in ('rev', 'skip', 'take', 'step_by', 'filter')), 'a header record holds %s' % show(src)[:100])
            for c in it:
                bad = [z for z in subterms(c[1]) if z.op == 'call' and leaf(z.a[0]) in ('rev', 'skip', 'take', 'step_by', 'filter', 'index')]
                r.ok('every header written', not bad, 'the headers written are %s' % show(c[1])[:100])
            if any(c[3] for c in it):
                r.ok('every header written', len(rest) >= 1, 'a header is skipped [%s]' % txt(o))
            if not it:
                r.undec.append('create: the loop over the headers is not recognised')
        n or r.undec.append('create never succeeds')

    with r.section('append'):
        n = 0
        for nm in ('append_storage_chunk_owned', 'append_storage_chunk'):
            for o in r.outs(bodyre(r, XP + r'ExecStatePackWriter::%s$' % nm), **W):
                if o.exit != 'ret':
                    continue
                reports(nm, o)
                rs = records(o)
                for i, e, x in rs:
                    n += 1
                    if not r.ok('storage record', x.op == 'agg' and x.a[1] == 'Storage', '%s writes %s' % (nm, show(x)[:80])):
                        continue
                    v = fld(x, '0')
                    b = upper(o, lambda y, v=v: is_len_of(v)(y) or (y.op == 'len' or y.op == 'call' and leaf(y.a[0]) == 'len') and contains(y, lambda z: param_of(z) == 2))
                    if r.ok('chunk bounded when written', b is not None, '%s writes a chunk of any size [%s]' % (nm, txt(o))):
                        bound.setdefault('write', set()).add(b)
                    r.ok('the slots given', contains(v, lambda z: param_of(z) == 2), '%s writes %s' % (nm, show(v)[:80]))
                    fin = o.state.get(1, SELF)
                    S = Slots()
                    d = padd(S.P(fld(fld(fin, 'stats'), 'storage_slots')), S.P(fld(fld(SELF, 'stats'), 'storage_slots')), -1)
                if okret(o) is True and not rs:
                    lo = upper(o, lambda y: (y.op == 'len' or y.op == 'call' and leaf(y.a[0]) == 'len') and contains(y, lambda z: param_of(z) == 2))
                    em = lo == 0 or any(c[0] == 'true' and c[2] and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'is_empty') for c in o.conds)
                    r.ok('nothing dropped', em, '%s drops slots and reports success [%s]' % (nm, txt(o)))
        n or r.undec.append('no storage record written')
        n = 0
        for o in r.outs(bodyre(r, XP + r'ExecStatePackWriter::append_account_header$'), **W):
            if o.exit != 'ret':
                continue
            reports('append_account_header', o)
            rs = records(o)
            if okret(o) is True:
                n += 1
                if not r.ok('account record', len(rs) == 1 and rs[0][2].op == 'agg' and rs[0][2].a[1] == 'Account', 'append_account_header writes %s' % [show(x)[:60] for i, e, x in rs]):
                    continue
                a = fld(rs[0][2], '0')
                for f, p in (('address', 2), ('nonce', 3), ('balance', 4), ('code', 5)):
                    v = fld(a, f)
                    r.ok('account recorded as given', contains(v, lambda z: param_of(z) == p) and not any(param_of(z) not in (None, p) for z in subterms(v) if z.op == 'param'), '%s is recorded as %s' % (f, show(v)[:80]))
                    if f == 'balance':
                        r.ok('balance byte order', not contains(v, lambda z: z.op == 'call' and 'le_bytes' in leaf(z.a[0])), 'the balance is recorded as %s' % show(v)[:80])
                fin = o.state.get(1, SELF)
                S = Slots()
                d = padd(S.P(fld(fld(fin, 'stats'), 'account_count')), S.P(fld(fld(SELF, 'stats'), 'account_count')), -1)
                r.ok('account counted', d == {(): 1}, 'after an account the count grows by %s' % shp(d))
        n or r.undec.append('no account record written')
        n = 0
        for o in r.outs(bodyre(r, XP + r'ExecStatePackWriter::finish$'), **W):
            if okret(o) is not True:
                continue
            n += 1
            reports('finish', o)
            rs = records(o)
            cm = ecalls(o, 'commit')
            r.ok('end marker last', rs and rs[-1][2].op == 'agg' and rs[-1][2].a[1] == 'End', 'the last record is %s' % (show(rs[-1][2])[:60] if rs else 'missing'))
            r.ok('end marker carries the tallies', rs and strip(fld(rs[-1][2], '0')) is strip(fld(SELF, 'stats')), 'the end marker carries %s' % (show(fld(rs[-1][2], '0'))[:80] if rs else ''))
            r.ok('committed after the end marker', cm and rs and cm[-1][0] > rs[-1][0], 'the pack is committed before its end marker is written')
            if cm:
                r.ok('a failed commit is reported', ok_of(o, cm[-1][1].res) is True, 'finish reports success although the commit may have failed [%s]' % txt(o))
        n or r.undec.append('finish never succeeds')
        for o in r.outs(bodyre(r, XP + r'ExecStatePackWriter::append_account$'), own=(1,), sides=False, opaque=('append_account_header', 'append_storage_chunk_owned', 'append_storage_chunk')):
            ah = ecalls(o, 'append_account_header')
            sc = ecalls(o, 'append_storage_chunk_owned', 'append_storage_chunk')
            if okret(o) is True:
                r.ok('account before its storage', ah and all(i > ah[0][0] for i, e in sc), 'storage is written without or before its account')
                for i, e in ah + sc:
                    r.ok('a failed append is reported', ok_of(o, e.res) is True, 'append_account reports success although %s may have failed' % leaf(e.name))
                pushed = [i for i, e in ecalls(o, 'push', 'extend', 'extend_from_slice')]
                bare = any(c[0] == 'cmp' and c[1] == 'eq' and any(is_const(strip(y)) and strip(y).a[0] == 0 and strip(x).op == 'call' and leaf(strip(x).a[0]) == 'len' and strip(strip(x).a[1][0]).op == 'upd!' and leaf(strip(strip(x).a[1][0]).a[1]) == 'push' for x, y in ((c[2], c[3]), (c[3], c[2]))) for c in o.conds)
                if pushed and not bare:
                    r.ok('storage written', sc and sc[-1][0] > pushed[-1], 'slots collected last are not written [%s]' % txt(o))

    # ------------------------------------------------------------ reading
    def is_iter(z):
        return z.op == 'elem' and contains(z, lambda y: y.op == 'fld' and y.a[1] == 'iter')

    with r.section('stream'):
        R = XP + r'ExecStatePackReader::'
        n = 0
        for nm in ('next_account', 'next_entry'):
            for o in r.outs(bodyre(r, R + nm + '$'), **OWN):
                if o.exit != 'ret':
                    continue
                st = o.state.get(1, SELF)
                done = strip(fld(st, 'done'))
                was = cond_of(o, fld(SELF, 'done'), True)
                isdone = done is strip(fld(SELF, 'done')) and was or is_const(done) and done.a[0] in (True, 1)
                t = strip(o.ret)
                ended = [c for c in o.conds if c[0] == 'is' and c[2] == 'End' and c[3]]
                if t.op == 'agg' and t.a[1] == 'None':
                    r.ok('ends at the end marker only', was or ended, '%s ends without an end marker [%s]' % (nm, txt(o)))
                    r.ok('nothing after the end', isdone, '%s may go on after the end marker [%s]' % (nm, txt(o)))
                    continue
                if t.op != 'agg' or t.a[1] != 'Some':
                    r.undec.append('%s: %s' % (nm, show(t)[:80]))
                    continue
                v = payload(t, 'Some')
                r.ok('nothing after the end', not was, '%s yields an item after the end' % nm)
                if v.op == 'agg' and v.a[1] == 'Err':
                    r.ok('an error ends the stream', isdone, '%s may go on after an error [%s]' % (nm, txt(o)))
                    continue
                if not (v.op == 'agg' and v.a[1] == 'Ok'):
                    r.undec.append('%s: %s' % (nm, show(v)[:80]))
                    continue
                n += 1
                x = payload(v, 'Ok')
                acc = {strip(c[1]) for c in o.conds if c[0] == 'is' and c[2] == 'Account' and c[3]}
                sto = {strip(c[1]) for c in o.conds if c[0] == 'is' and c[2] == 'Storage' and c[3]}
                r.ok('items come from records', acc or sto, '%s yields %s' % (nm, show(x)[:80]))
                r.ok('an end marker yields nothing', not ended, '%s yields an item for an end marker' % nm)
                gone = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next' and c[2] in ('Ok', 'Some') and not c[3]]
                r.ok('a missing end marker is an error', not gone, '%s yields an item although the file ended without an end marker [%s]' % (nm, txt(o)))
                ab = {z: nmf for nmf in ('address', 'nonce', 'balance', 'code') for z in [nmf]}
                for w in subterms(x):
                    if w.op == 'agg' and w.a[0].split('::')[-1] in ('ExecStateAccount', 'GenesisAccount', 'ExecStateAccountMeta'):
                        for f in ab:
                            q = fld(w, f)
                            if q.op == 'fld' and q.a[0] is w:
                                continue
                            r.ok('account as recorded', contains(q, lambda z: z.op == 'fld' and z.a[1] == f and contains(z.a[0], lambda y: y.op in ('as', 'fld') and 'Account' in show(y))), '%s is %s' % (f, show(q)[:100]))
                            if f == 'balance':
                                r.ok('balance byte order', not contains(q, lambda z: z.op == 'call' and 'le_bytes' in leaf(z.a[0])), 'the balance is read as %s' % show(q)[:80])
        n or r.undec.append('the stream yields nothing')

        # every chunk that comes out of the file is bounded
        n = 0
        for b in bodies(r, R + r'\w+$'):
            if not any('::next' in str(x) for x in (b.d.get('blocks') or b.d.get('bbs') or [1])[:1]) and False:
                continue
            if leaf(b.path) in ('open',):
                continue
            try:
                outs = r.outs(b, opaque=('ExecStatePackReader::open',), **OWN)
            except sa.TooManyPaths:
                r.undec.append('too many paths in ' + b.path)
                continue
            for o in outs:
                if o.exit != 'ret':
                    continue
                for c in o.conds:
                    if c[0] == 'is' and c[2] == 'Storage' and c[3] and contains(c[1], is_iter):
                        v = [z for z in subterms(mk('t', *[x for cc in o.conds for x in cc[1:] if hasattr(x, 'op')], o.ret)) if z.op == 'fld' and z.a[1] == '0' and z.a[0].op == 'as' and z.a[0].a[1] == 'Storage' and strip(z.a[0].a[0]) is strip(c[1])]
                        b_ = None
                        for x in v or [None]:
                            b_ = upper(o, is_len_of(x)) if x is not None else None
                            if b_ is not None:
                                break
                        t = strip(o.ret)
                        bad = t.op == 'agg' and t.a[1] == 'Err' or t.op == 'agg' and t.a[1] == 'Some' and payload(t, 'Some').op == 'agg' and payload(t, 'Some').a[1] == 'Err'
                        n += 1
                        if not bad:
                            if r.ok('chunk bounded when read', b_ is not None, '%s hands on a storage chunk of any size [%s]' % (leaf(b.path), txt(o))):
                                bound.setdefault('read', set()).add(b_)
        n or r.undec.append('no storage chunk read')
        named = [o.ret.a[0] for b in bodies(r, XP + 'STORAGE_CHUNK_SLOTS$') for o in r.outs(b, sides=False) if o.exit == 'ret' and is_const(o.ret)]
        if named and bound.get('read') and bound.get('write'):
            r.ok('the documented bound', bound['read'] | bound['write'] == set(named), 'chunks are bounded by %s, documented is %s' % (sorted(bound['read'] | bound['write']), named))
        if bound.get('read') and bound.get('write'):
            r.ok('one bound on both sides', len(bound['read'] | bound['write']) == 1, 'chunks up to %s slots are written, up to %s accepted' % (sorted(bound['write']), sorted(bound['read'])))
        else:
            r.undec.append('chunk bounds: %s' % bound)

    with r.section('open'):
        n = 0
        for o in r.outs(bodyre(r, XP + r'ExecStatePackReader::open$'), sides=False, opaque=('Pack::open', 'raw_iter', 'decode_header')):
            al = [(i, e) for i, e in ecalls(o, 'with_capacity', 'reserve', 'from_elem', 'reserve_exact') if any(contains(a, lambda z: z.op == 'fld' and z.a[1] == 'header_count') for a in e.args)]
            isn = lambda x: x.op == 'fld' and x.a[1] == 'header_count'
            ub, lb = upper(o, isn), lower(o, isn)
            for i, e in al:
                early = upper(type('O', (), {'conds': o.before(i)}), isn)
                arg = strip(e.args[-1])
                capped = arg.op == 'call' and leaf(arg.a[0]) == 'min'
                r.ok('count bounded before memory is reserved', early is not None and early <= 1 << 20 or capped, 'memory for the declared number of headers is reserved before the number is bounded [%s]' % txt(o))
            if okret(o) is not True:
                continue
            n += 1
            v = payload(o.ret, 'Ok')
            meta = strip(fld(v, 'meta'))
            mrec = next((strip(z.a[0]) for z in subterms(meta) if z.op == 'as' and z.a[1] == 'Meta'), None)
            r.ok('meta first', mrec is not None and is_rec(o, mrec, 'Meta'), 'the meta record is %s' % show(meta)[:80])
            r.ok('at least one header', lb is not None and lb >= 1, 'a snapshot that declares no headers is accepted [%s]' % txt(o))
            r.ok('at most a plausible number of headers', ub is not None and ub <= 1 << 20, 'any declared number of headers is accepted [%s]' % txt(o))
            floor = False
            for c in o.conds:
                if c[0] != 'cmp':
                    continue
                a, b = strip(c[2]), strip(c[3])
                x, y = (a, b) if c[1] in ('le', 'lt') else (b, a) if c[1] in ('ge', 'gt') else (None, None)
                if x is None or not contains(y, isn):
                    continue
                while x.op == 'cast' and x.a[0] in ('u32', 'u64', 'usize', 'u128') or x.op == 'call' and leaf(x.a[0]) in ('from', 'into') and len(x.a[1]) == 1:
                    x = strip(x.a[1] if x.op == 'cast' else x.a[1][0])
                if contains(x, lambda z: z.op == 'bin' and z.a[0] in ('Div', 'Shr', 'Sub', 'Rem', 'BitAnd')) or x.op == 'call' and 'saturating_sub' in x.a[0]:
                    continue
                mins = [z for z in subterms(x) if z.op == 'call' and leaf(z.a[0]) == 'min' and contains(z, lambda q: q.op == 'fld' and q.a[1] == 'block_number')]
                if any(any(is_const(strip(q)) and strip(q).a[0] >= 256 for q in z.a[1]) for z in mins):
                    floor = True
                if x.op == 'fld' and x.a[1] == 'block_number' or is_const(x) and x.a[0] >= 256:
                    floor = True
            r.ok('headers cover the lookback', floor, 'a snapshot with too few headers for its block is accepted [%s]' % txt(o))
            its = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next' and not contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'raw_iter') or c[0] == 'is' and strip(c[1]).op == 'next' and contains(c[1], lambda z: z.op == 'agg' and z.a[0].endswith('Range'))]
            rg = [z for c in its for z in subterms(c[1]) if z.op == 'agg' and z.a[0].endswith('Range')]
            whole = any(is_const(strip(fld(z, 'start'))) and strip(fld(z, 'start')).a[0] == 0 and isn(strip(fld(z, 'end'))) for z in rg)
            if rg:
                r.ok('as many headers as declared', whole, 'headers %s are read' % show(rg[0])[:80])
            elif not any(c[0] == 'cmp' and any(isn(strip(x)) for x in c[2:4]) and any('len' in show(x)[:5] for x in c[2:4]) for c in o.conds):
                r.undec.append('open: the loop over the headers is not recognised')
            for i, e in ecalls(o, 'push'):
                src = e.args[1]
                dh = next((z for z in subterms(src) if z.op == 'call' and leaf(z.a[0]) == 'decode_header'), None)
                r.ok('header decoded', dh is not None and ok_of(o, dh) is True, 'a header that does not decode is kept: %s' % show(src)[:80])
            nxt = [c for c in o.conds if c[0] == 'is' and strip(c[1]).op == 'next' and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'raw_iter') and not contains(c[1], lambda z: z.op == 'agg' and z.a[0].endswith('Range'))]
            r.ok('a missing header is an error', all(c[3] for c in nxt), 'open succeeds although the file ended among the headers [%s]' % txt(o))
        n or r.undec.append('open never succeeds')

    with r.section('verify'):
        n = 0
        for o in r.outs(bodyre(r, XP + r'ExecStatePackReader::verify$'), sides=False, opaque=('ExecStatePackReader::open',)):
            if okret(o) is not True:
                continue
            n += 1
            def eqf(f, g):
                for c in o.conds:
                    if c[0] == 'cmp' and c[1] == 'eq':
                        a, b = strip(c[2]), strip(c[3])
                        for x, y in ((a, b), (b, a)):
                            if f(x) and g(y):
                                return True
                return False
            of_meta = lambda f: lambda x: x.op == 'fld' and x.a[1] == f and contains(x, lambda z: z.op == 'fld' and z.a[1] == 'meta')

            def head0(x):
                return contains(x, lambda z: z.op == 'fld' and z.a[1] == 'headers') and contains(x, lambda z: at0(z) or z.op == 'call' and leaf(z.a[0]) in ('first', 'split_first'))
            r.ok('state root matches', eqf(of_meta('state_root'), lambda x: x.op == 'fld' and x.a[1] == 'state_root' and head0(x)), 'verify succeeds without comparing the state root [%s]' % txt(o))
            r.ok('block number matches', eqf(of_meta('block_number'), lambda x: x.op == 'fld' and x.a[1] == 'number' and head0(x)), 'verify succeeds without comparing the block number [%s]' % txt(o))
            r.ok('block hash matches', eqf(of_meta('block_hash'), lambda x: x.op == 'call' and leaf(x.a[0]).startswith('hash') and head0(x)), 'verify succeeds without comparing the block hash [%s]' % txt(o))
            ended = [c for c in o.conds if c[0] == 'is' and c[2] == 'End' and c[3]]
            r.ok('end marker seen', ended, 'verify succeeds without an end marker [%s]' % txt(o))
            seq = [(c[2], strip(c[1])) for c in o.conds if c[0] == 'is' and c[3] and c[2] in ('Account', 'Storage', 'End')]
            first = next((v for v, t in seq if v != 'End'), None)
            r.ok('storage follows an account', first != 'Storage', 'verify accepts storage before any account [%s]' % txt(o))
            na = sum(1 for v, t in seq if v == 'Account')
            S = Slots()
            good = None
            for c in o.conds:
                if c[0] == 'cmp' and c[1] == 'eq':
                    a, b = strip(c[2]), strip(c[3])
                    for x, y in ((a, b), (b, a)):
                        if y.op == 'fld' and y.a[1] == 'account_count' and contains(y, lambda z: z.op == 'as' and z.a[1] == 'End'):
                            good = x
            if not r.ok('account count matches', good is not None, 'verify succeeds without comparing the number of accounts with the end marker [%s]' % txt(o)):
                continue
            k, ok_ = 0, True
            x = good
            while x.op == 'bin' and x.a[0] == 'Add' and is_const(strip(x.a[2])):
                k += strip(x.a[2]).a[0]
                x = strip(x.a[1])
            if is_const(x):
                k, x = k + x.a[0], mk('c', 0, 'u64')
            zero = is_const(x) and x.a[0] == 0 or x.op == 'call' and leaf(x.a[0]) == 'default'
            if not zero:
                r.undec.append('verify: count %s' % show(good)[:80])
            else:
                r.ok('every account counted once', k == na, 'after %d accounts the count is %d [%s]' % (na, k, txt(o)))
        n or r.undec.append('verify never succeeds')


def at0(z):
    i = z.a[1] if z.op == 'idx' else z.a[1][1] if z.op == 'call' and leaf(z.a[0]) in ('index', 'get') and len(z.a[1]) == 2 else None
    return i is not None and hasattr(i, 'op') and is_const(strip(i)) and strip(i).a[0] == 0


def cond_len(o, p):
    return lower(o, lambda y: (y.op == 'len' or y.op == 'call' and leaf(y.a[0]) == 'len') and contains(y, lambda z: param_of(z) == p)) is not None or any(c[0] == 'true' and not c[2] and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'is_empty' and contains(z, lambda y: param_of(y) == p)) for c in o.conds)
