"""C15-C22: the archive files."""
import re
from engine.rules import *
from engine.lib import *
from engine import comp as cp, sa
from engine.store import Model, Unread, padd
from checks.types_sync import ecalls, amount

SELF = mk('param', 1, 'self')
OPTS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')
REOPEN = lambda t: [z for z in subterms(t) if z.op == 'call' and leaf(z.a[0]) == 'open' and 'OpenOptions' in z.a[0] or z.op == 'call' and leaf(z.a[0]) in ('open', 'create', 'create_new') and 'File' in z.a[0]]


def txt(o, n=300):
    return ' & '.join(showc(c) for c in o.conds)[-n:]


def cond_of(o, t, pol):
    """the flag t is known to be pol on outcome o"""
    t = strip(t)
    for c in o.conds:
        if c[0] == 'true' and strip(c[1]) is t and c[2] == pol:
            return True
        if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if strip(a) is t and is_const(b) and isinstance(b.a[0], bool):
                    if (b.a[0] == (c[1] == 'eq')) == pol:
                        return True
    return False


def ok_of(o, t):
    """True/False: the call result t succeeded / failed on o; None: not looked at"""
    for c in o.conds:
        if c[0] == 'is' and c[2] in ('Ok', 'Some', 'Continue') and strip(c[1]) is strip(t):
            return c[3]
        if c[0] == 'is' and c[2] in ('Err', 'None', 'Break') and strip(c[1]) is strip(t):
            return not c[3]
    if o.ret is not None and strip(o.ret) is strip(t):
        return True                                      # returned as it is: success of one is success of the other
    return None


def okret(o):
    """the outcome reports success; None: not read"""
    t = o.ret
    if o.exit != 'ret' or t is None:
        return None
    if t.op == 'agg' and t.a[1] in ('Ok', 'Err', 'Some', 'None'):
        return t.a[1] in ('Ok', 'Some')
    return None


def flag_with(t, p, val):
    """value of the boolean term t when parameter p is val"""
    def sub(x):
        return mk('c', val) if param_of(x) == p else None
    if t.op == 'un' or t.op == 'call' and leaf(t.a[0]) == 'not':
        v = flag_with(t.a[-1] if t.op == 'un' else t.a[1][0], p, val)
        return None if v is None else not v
    if is_const(t):
        return bool(t.a[0])
    if param_of(t) == p:
        return val
    try:
        return value(t, sub)
    except Exception:
        return None


def openopts(t):
    """option name -> argument of an OpenOptions chain ending in open, in either style"""
    d = {}
    for z in subterms(t):
        if z.op == 'call' and leaf(z.a[0]) in OPTS and len(z.a[1]) == 2 and 'OpenOptions' in z.a[0]:
            d[leaf(z.a[0])] = z.a[1][1]
        if z.op == 'upd!' and leaf(z.a[1]) in OPTS and len(z.a) >= 5 and 'OpenOptions' in z.a[1]:
            d[leaf(z.a[1])] = z.a[4]
    return d


class FileView:
    """what a DataFile holds at the end of one outcome"""

    def __init__(self, r, o, fresh=None):
        self.r, self.o = r, o
        f = lambda n: fld(SELF, n)
        self.D0, self.W0, self.E0 = f('data_file'), f('write_buffer'), f('data_file_end')
        st = fresh if fresh is not None else o.state.get(1, SELF)
        self.fin = lambda n: fld(st, n)
        self.m = Model({self.D0: self.E0}, positive=lambda t: any(z.op == 'fld' and z.a[1] in ('read_buffer_size', 'write_buffer_size') for z in subterms(t)))

    def disk(self, upto=None):
        """the pieces on disk at the end (or before event upto), from the operations in order"""
        m, d = self.m, [(self.D0, {}, None)]
        for e in self.o.events[:upto]:
            if e.k == 'call' and e.args:
                n, a = leaf(e.name), e.args
                if not rooted(a[0], 'data_file'):
                    continue
                if n in ('write_all', 'write') and len(a) == 2:
                    if n == 'write':
                        raise Unread('partial write')
                    d = d + m.pieces(a[1])
                elif n == 'set_len' and len(a) == 2:
                    d = m.cut(d, {}, m.P(a[1]))
                elif n in ('copy', 'write_vectored', 'write_at', 'write_fmt', 'write_all_at', 'allocate'):
                    raise Unread(n)
            elif e.k == 'lwrite' and e.args and e.args[0].op == 'fld' and e.args[0].a[1] == 'data_file' and REOPEN(e.args[1]):
                t = REOPEN(e.args[1])[0]
                if leaf(t.a[0]) in ('create',) or any(k == 'truncate' and amount(v) is not False for k, v in openopts(t).items()):
                    d = []
        return d

    def all(self):
        return self.disk() + self.m.pieces(self.fin('write_buffer'))


def rooted(t, field):
    """t is the current or an earlier value of self.<field>"""
    for _ in range(40):
        if t.op == 'upd!':
            t = t.a[0]
        elif t.op == 'fld' and t.a[0].op == 'upd':
            t = fld(t.a[0].a[0], t.a[1])
        else:
            break
    if t.op == 'fld' and t.a[1] == field:
        return True
    return bool(REOPEN(t)) and t.op != 'phi'


def refills(v, o):
    """[(start, n, call)] of the loads of the read buffer from the file on o: start polynomial or None when not read"""
    out, pos = [], None
    for e in o.events:
        if e.k != 'call' or not e.args:
            continue
        n = leaf(e.name)
        if n in ('seek', 'rewind', 'read_exact', 'read') and isfile(e.args[0]):
            if n == 'rewind':
                pos = {}
            elif n == 'seek':
                a = e.args[1]
                pos = v.m.P(payload(a, 'Start')) if a.op == 'agg' and a.a[1] == 'Start' else None
            else:
                d = e.args[1]
                out.append((pos, v.m.pieces(d), e))
                pos = None
    return out


def isfile(t):
    x = t
    while x.op == 'upd!':
        x = x.a[0]
    return x.op == 'fld' and x.a[1] == 'data_file' or bool(REOPEN(x))


def keeps(r, name, o, v, want, msg):
    """the final contents of file and buffer are the wanted pieces"""
    try:
        got = v.all()
        good = v.m.key(got) == v.m.key(want)
        if not good:                                     # equal under the linear facts of the path (an empty buffer, ...)
            good = same_under(v.m, o.conds, got, want)
        r.ok(name, good, '%s: on disk and buffered %s [%s]' % (msg, shp(got), txt(o)))
        if good:
            d, e = v.m.total(v.disk()), v.m.P(v.fin('data_file_end'))
            r.ok(name + ': end', v.m.eq(d, e) or v.m.entails(o.conds, padd(d, e, -1)) and v.m.entails(o.conds, padd(e, d, -1)) or endseek(v.fin('data_file_end')),
                 'the recorded end of the file differs from its size: %s [%s]' % (show(v.fin('data_file_end'))[:120], txt(o)))
    except Unread as e:
        r.undec.append('%s: contents not read: %s' % (name, e))


def endseek(t):
    """t is the size of the file as the file system gives it"""
    t = strip(t)
    while t.op in ('fld', 'as', 'cast', 'payload'):
        t = t.a[0]
    return t.op == 'call' and (leaf(t.a[0]) == 'seek' and contains(t, lambda q: q.op == 'agg' and q.a[1] == 'End') or leaf(t.a[0]) in ('len', 'stream_len') and 'Metadata' in t.a[0])


def shp(ps):
    return [(show(b)[:60] if hasattr(b, 'op') else b, {str(k)[-20:]: x for k, x in l.items()}, None if h is None else '..') for b, l, h in ps]


def same_under(m, conds, a, b):
    """equal after pieces that are empty on this path are dropped"""
    def drop(ps):
        out = []
        for p in ps:
            e = m.plen(p)
            if m.entails(conds, {k: -x for k, x in e.items()}):
                continue
            out.append(p)
        return out
    x, y = m.key(drop(a)), m.key(drop(b))
    if x == y:
        return True
    if len(x) != len(y):
        return False
    for (p, l, h), (q, l2, h2) in zip(x, y):
        if p != q:
            return False
        for i, j in ((l, l2), (h, h2)):
            d = padd(dict(i), dict(j), -1)
            if d and not (m.entails(conds, d) and m.entails(conds, {k: -z for k, z in d.items()})):
                return False
    return True


@check('C15', ['tn_storage'])
def c15(r):
    OWN = dict(own=(1,), sides=False)
    f = lambda n: fld(SELF, n)
    RO, W0 = f('read_only'), f('write_buffer')
    T = 'archive::data_file::DataFile'

    def method(name, trait=None):
        bs = [b for b in r.F.bodies.values() if re.search(r'archive::data_file::DataFile%s>?::%s$' % (' as .*' + trait if trait else '', name), b.path)] if isinstance(r.F.bodies, dict) else \
             [b for b in r.F.bodies if re.search(r'archive::data_file::DataFile%s>?::%s$' % (' as .*' + trait if trait else '', name), b.path)]
        if not bs:
            raise MissingAnchor(T + '::' + name)
        return bs[0]
    done = set()

    def outs(name, trait=None):
        b = method(name, trait)
        done.add(b.path)
        return [o for o in r.outs(b, **OWN) if o.exit == 'ret']

    m0 = Model({f('data_file'): f('data_file_end')})
    with r.section('length'):
        want = padd(m0.P(f('data_file_end')), m0.length(W0))
        for o in outs('len'):
            r.ok('disk plus buffer', m0.eq(m0.P(o.ret), want) or same_len(m0, o, want), 'len() is %s' % show(o.ret)[:200])
        for o in outs('is_empty'):
            c = cond(o.ret)
            if c[0] == 'cmp' and c[1] == 'eq':
                r.ok('empty', any(is_const(x) and not x.a[0] and m0.eq(m0.P(y), want) for x, y in ((c[2], c[3]), (c[3], c[2]))), 'is_empty is %s' % show(o.ret)[:150])
            elif is_const(o.ret) and isinstance(o.ret.a[0], bool):
                z = m0.entails(o.conds, {k: -x for k, x in want.items()}) if o.ret.a[0] else m0.entails(o.conds, padd(want, {(): -1}))
                r.ok('empty', z or unread_len(m0, o), 'is_empty is %s [%s]' % (show(o.ret), txt(o)))
            else:
                r.undec.append('is_empty: %s' % show(o.ret)[:150])

    with r.section('write'):
        for o in outs('write', 'Write'):
            if okret(o) is None:
                r.undec.append('write returns %s' % show(o.ret)[:100])
                continue
            if not okret(o):
                continue
            r.ok('writable only', cond_of(o, RO, False), 'a read-only file accepts a write [%s]' % txt(o))
            v = FileView(r, o)
            buf = mk('param', 2, 'buf')
            bs = [z for z in subterms(o.state.get(1)) if param_of(z) == 2] + [z for e in o.events for a in e.args for z in subterms(a) if param_of(z) == 2]
            buf = bs[0] if bs else buf
            n = v.m.P(payload_ok(o.ret))
            want = [(f('data_file'), {}, None), (W0, {}, None), (strip(buf), {}, n)]
            keeps(r, 'write', o, v, want, 'written is not what was accepted')
            L = v.m.length(strip(buf))
            if v.m.eq(n, {}):
                r.ok('progress', v.m.entails(o.conds, {k: -x for k, x in L.items()}), 'a write of bytes accepts none [%s]' % txt(o))
            r.ok('not more than given', v.m.eq(n, L) or v.m.entails(o.conds, padd(L, n, -1)) or v.m.infeasible(o.conds), 'accepts %s' % show(o.ret)[:100])

    with r.section('flush'):
        for o in outs('flush', 'Write'):
            if okret(o) is None and not direct(o):
                r.undec.append('flush returns %s' % show(o.ret)[:100])
            elif okret(o) is not False:
                v = FileView(r, o)
                if cond_of(o, RO, True):
                    r.ok('read-only untouched', not [e for e in o.events if e.k == 'call' and leaf(e.name) in ('write_all', 'set_len', 'write')], 'a read-only file is written')
                    continue
                keeps(r, 'flush', o, v, [(f('data_file'), {}, None), (W0, {}, None)], 'flushed is not the buffer')
                try:
                    left = v.m.total(v.m.pieces(v.fin('write_buffer')))
                    r.ok('nothing left', v.m.entails(o.conds, {k: -x for k, x in left.items()}), 'bytes stay in the buffer after a successful flush [%s]' % txt(o))
                except Unread as e:
                    r.undec.append('flush: %s' % e)

    with r.section('failed writes'):
        for name, tr in (('write', 'Write'), ('flush', 'Write'), ('set_len', None)):
            for o in outs(name, tr):
                bad = [(i, e) for i, e in ecalls(o, 'write_all') if rooted(e.args[0], 'data_file') and (ok_of(o, e.res) is False or ok_of(o, e.res) is None and okret(o) is False)]
                ret = [(i, e) for i, e in ecalls(o, 'write_all') if rooted(e.args[0], 'data_file') and o.ret is not None and strip(o.ret) is strip(e.res)]
                if not bad + ret or okret(o) is True and not ret:
                    continue
                i, e = (bad + ret)[0]
                v = FileView(r, o)
                cut = [(k, x) for k, x in ecalls(o, 'set_len') if k > i and rooted(x.args[0], 'data_file')]
                if not r.ok(name + ': partial write cut off', cut, 'a failed write of the buffer leaves what it wrote in the file, and a retry writes the buffer again behind it [%s]' % txt(o)):
                    continue
                try:
                    d = v.disk(i)
                    r.ok(name + ': partial write cut off', v.m.key(v.m.cut(d, {}, v.m.P(cut[0][1].args[1]))) == v.m.key(d) and (len(d) > 1 or d[0][0] is not v.D0 or v.m.eq(v.m.P(cut[0][1].args[1]), v.m.P(v.E0))), 'after a failed write the file is cut to %s' % show(cut[0][1].args[1])[:120])
                    if ok_of(o, cut[0][1].res) is not False:
                        r.ok(name + ': nothing lost or taken', v.m.key(d + v.m.pieces(v.fin('write_buffer'))) == v.m.key([(f('data_file'), {}, None), (W0, {}, None)]), 'after a failed write the file and buffer hold %s' % shp(d + v.m.pieces(v.fin('write_buffer'))))
                        r.ok(name + ': end unchanged', v.m.eq(v.m.P(v.fin('data_file_end')), v.m.P(v.E0)) or len(d) > 1, 'the end becomes %s' % show(v.fin('data_file_end'))[:100])
                except Unread as x:
                    r.undec.append('%s: %s' % (name, x))

    def direct(o):
        return o.ret is not None and o.ret.op == 'call'

    def refill_rules(name, o, v):
        got = refills(v, o)
        E, rs, rl = v.m.P(v.fin('data_file_end')), v.m.P(v.fin('read_buffer_start')), v.m.P(v.fin('read_buffer_len'))
        if not got:
            return False
        if len(got) > 1:
            r.undec.append('%s: more than one read of the file' % name)
            return True
        pos, ps, e = got[0]
        if ok_of(o, e.res) is False or okret(o) is False:
            return True
        if leaf(e.name) == 'read':
            r.undec.append(name + ': partial read of the file')
            return True
        if pos is None:
            r.undec.append(name + ': position of the read not known')
            return True
        r.ok(name + ': buffer position', v.m.eq(pos, rs), 'the read buffer is filled from another position than recorded [%s]' % txt(o))
        if len(ps) == 1 and ps[0][2] is not None:
            n = v.m.plen(ps[0])
            r.ok(name + ': filled from its start', not ps[0][1], 'the buffer is not filled from its start')
            r.ok(name + ': buffer length', v.m.eq(n, rl) or v.m.entails(o.conds, padd(n, rl, -1)), 'more bytes are declared valid than were read [%s]' % txt(o))
        elif len(ps) == 1:
            cap = rl
            z = v.fin('read_buffer_len')
            while z.op == 'cast':
                z = z.a[1]
            r.ok(name + ': buffer length', is_const(z) and z.a[0] == buffersize(r) or z.op == 'fld' and z.a[1] == 'read_buffer_size' or z.op in ('len', 'call'),
                 'the buffer length %s is not its size [%s]' % (show(z)[:100], txt(o)))
        return True

    with r.section('truncation'):
        for o in outs('set_len'):
            if okret(o) is not True:
                if okret(o) is None:
                    r.undec.append('set_len returns %s' % show(o.ret)[:100])
                continue
            if cond_of(o, RO, True):
                wr = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('write_all', 'write')]
                r.ok('read-only untouched', not wr, 'a read-only file is written')
                op = [z for z in REOPEN(o.state.get(1)) if flag_known(openopts(z), 'write', 'append')]
                r.ok('read-only stays so', not op, 'a read-only file is reopened for writing')
                continue
            v = FileView(r, o)
            lens = [e for _, e in ecalls(o, 'set_len') if e.args and isfile(e.args[0])]
            n = mk('param', 2, 'len')
            n = next((z for e in lens for z in subterms(e.args[1]) if param_of(z) == 2), n)
            try:
                full = [(f('data_file'), {}, None), (W0, {}, None)]
                want = v.m.cut(full, {}, v.m.P(n))
                got = v.all()
                alt = v.m.cut([(f('data_file'), {}, None)], {}, v.m.P(n))
                empty = v.m.entails(o.conds, {k: -x for k, x in v.m.length(W0).items()})
                good = v.m.key(got) == v.m.key(want) or empty and same_under(v.m, o.conds, got, alt)
                r.ok('contents cut to the length', good, 'after set_len the file holds %s [%s]' % (shp(got), txt(o)))
                r.ok('nothing buffered', same_under(v.m, o.conds, v.m.pieces(v.fin('write_buffer')), []), 'bytes stay buffered past the new end [%s]' % txt(o))
                r.ok('end recorded', v.m.eq(v.m.P(v.fin('data_file_end')), v.m.P(n)) or endseek(v.fin('data_file_end')), 'the end becomes %s' % show(v.fin('data_file_end'))[:120])
            except Unread as e:
                r.undec.append('set_len: %s' % e)
                continue
            fin = v.fin('data_file')
            for z in REOPEN(fin)[:1]:
                d = openopts(z)
                if leaf(z.a[0]) == 'open' and 'OpenOptions' in z.a[0]:
                    a = d.get('append')
                    r.ok('reopened for appending', a is not None and flag_ro(a, False) is True or 'write' in d and a is None and False, 'the file is reopened without append (%s)' % sorted(d))
                    r.ok('reopened readable', 'read' in d and flag_ro(d['read'], False) is True, 'the file is reopened unreadable')
                    r.ok('same file', contains(z.a[1][1], lambda q: q is f('data_file_path')), 'another file is opened: %s' % show(z.a[1][1])[:100])
                else:
                    r.ok('reopened for appending', False, 'the file is reopened by %s' % show(z)[:100])
            refill_rules('set_len', o, v)
            rs, rl = v.m.P(v.fin('read_buffer_start')), v.m.P(v.fin('read_buffer_len'))
            over = padd(v.m.P(n), padd(rs, rl), -1)
            r.ok('no stale bytes readable', v.m.entails(o.conds, over) or v.m.eq(rl, {}) or v.m.infeasible(o.conds), 'the read buffer still covers bytes past the new end [%s]' % txt(o))

    with r.section('read'):
        BUF = 2
        for o in r.outs(method('read', 'Read'), **OWN):
            if o.exit == 'diverge' and not ecalls(o, 'read_exact', 'read', 'read_at', 'read_exact_at', 'read_to_end'):
                try:
                    m = FileView(r, o).m
                    r.ok('no abort on buffered bytes', m.infeasible(o.conds), 'a read served from the buffer can abort [%s]' % txt(o))
                except Unread as e:
                    r.undec.append('read: %s' % e)
        for o in outs('read', 'Read'):
            if okret(o) is not True:
                if okret(o) is None:
                    r.undec.append('read returns %s' % show(o.ret)[:100])
                continue
            v = FileView(r, o)
            m = v.m
            if m.infeasible(o.conds):
                continue
            n = m.P(payload_ok(o.ret))
            S, E = m.P(f('seek_pos')), m.P(f('data_file_end'))
            W = m.length(W0)
            cps = [e for _, e in ecalls(o, 'copy_from_slice', 'clone_from_slice')]
            filled = refill_rules('read', o, v)
            r.ok('position moves by what was read', m.eq(m.P(v.fin('seek_pos')), padd(S, n)) or m.entails(o.conds, padd(padd(S, n), m.P(v.fin('seek_pos')), -1)) and m.entails(o.conds, padd(m.P(v.fin('seek_pos')), padd(S, n), -1)),
                 'after a read of %s the position is %s [%s]' % (show(payload_ok(o.ret))[:80], show(v.fin('seek_pos'))[:120], txt(o)))
            if not cps:
                zero = m.eq(n, {})
                if not zero:
                    other = [e for e in o.events if e.k == 'call' and any(param_of(z) == BUF for a in e.args[:2] for z in subterms(a)) and leaf(e.name) not in ('len', 'is_empty')]
                    (r.undec.append('read: buffer filled by %s' % leaf(other[0].name)) if other else r.ok('bytes delivered', False, 'reports %s bytes but copies none [%s]' % (show(payload_ok(o.ret))[:60], txt(o))))
                    continue
                bl = m.length([z for z in [mk('param', 2, 'buf')]][0])
                emptybuf = any(c[0] == 'true' and c[2] and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_empty' and param_of(c[1].a[1][0]) == BUF or
                               c[0] == 'cmp' and c[1] == 'eq' and contains(c[2], lambda z: param_of(z) == BUF) and is_const(c[3]) and not c[3].a[0] or
                               c[0] == 'cmp' and c[1] == 'eq' and contains(c[3], lambda z: param_of(z) == BUF) and is_const(c[2]) and not c[2].a[0] for c in o.conds)
                past = m.entails(o.conds, padd(S, padd(E, W), -1))
                r.ok('nothing only at the end', emptybuf or past or m.infeasible(o.conds), 'a read reports the end of the file before it [%s]' % txt(o))
                continue
            try:
                for e in cps:
                    dst, src = m.pieces(e.args[0]), m.pieces(e.args[1])
                    if len(dst) != 1 or len(src) != 1 or param_of(dst[0][0]) != BUF:
                        raise Unread('copy %s' % show(e.args[1])[:100])
                    off = dst[0][1]
                    base, a, b = src[0]
                    want = padd(S, off)
                    if rooted(base, 'write_buffer'):
                        r.ok('bytes at the position', m.eq(a, padd(want, E, -1)), 'the bytes copied from the write buffer are not the ones at the position [%s]' % txt(o))
                        r.ok('within the buffer', b is None or m.entails(o.conds, padd(W, b, -1)), 'copies past the buffered bytes')
                        r.ok('buffer starts at the end of the file', m.entails(o.conds, padd(S, E, -1)), 'reads from the write buffer before the end of the file [%s]' % txt(o))
                    elif rooted(base, 'read_buffer'):
                        rs, rl = m.P(v.fin('read_buffer_start')), m.P(v.fin('read_buffer_len'))
                        r.ok('bytes at the position', m.eq(a, padd(want, rs, -1)), 'the bytes copied from the read buffer are not the ones at the position [%s]' % txt(o))
                        r.ok('within the valid bytes', b is not None and (m.entails(o.conds, padd(rl, b, -1)) or m.eq(rl, b)), 'copies past the valid bytes of the read buffer [%s]' % txt(o))
                        r.ok('position not before the buffer', m.entails(o.conds, padd(S, rs, -1)), 'reads from the read buffer before its start [%s]' % txt(o))
                        if not filled:
                            r.ok('position within the valid bytes', m.entails(o.conds, padd(padd(rs, rl), S, -1)), 'reads from the read buffer past its valid bytes [%s]' % txt(o))
                        r.ok('not past the end of the file', m.entails(o.conds, padd(padd(E, S, -1), {(): -1})), 'serves bytes past the end of the file from the read buffer [%s]' % txt(o))
                    else:
                        raise Unread('source %s' % show(base)[:100])
                if len(cps) == 1:
                    c = m.plen(dst[0])
                    r.ok('reports what it copied', m.eq(c, n) or dst[0][2] is None, 'copies %s, reports %s' % (c, show(payload_ok(o.ret))[:80]))
            except Unread as e:
                r.undec.append('read: %s' % e)

    with r.section('seek'):
        for o in outs('seek', 'Seek'):
            v = FileView(r, o)
            m = v.m
            var = [c[2] for c in o.conds if c[0] == 'is' and c[3] and c[2] in ('Start', 'End', 'Current') and param_of(c[1]) == 2]
            S = m.P(f('seek_pos'))
            if not var:
                r.undec.append('seek: %s' % txt(o))
                continue
            p = next((z for t in [o.ret, o.state.get(1)] + [x for c in o.conds for x in c[1:] if hasattr(x, 'op')] for z in subterms(t) if z.op == 'fld' and z.a[0].op == 'as' and param_of(z.a[0].a[0]) == 2), None)
            if p is None:
                r.ok('uses the offset', False, 'seek ignores the offset [%s]' % txt(o))
                continue
            want = {'Start': {}, 'End': padd(m.P(f('data_file_end')), m.length(W0)), 'Current': S}[var[0]]
            want = padd(want, m.P(p))
            fin = m.P(v.fin('seek_pos'))
            if okret(o):
                r.ok('position', m.eq(fin, want), 'seek %s sets the position to %s' % (var[0], show(v.fin('seek_pos'))[:120]))
                r.ok('returned', m.eq(m.P(payload_ok(o.ret)), want), 'seek %s returns %s' % (var[0], show(o.ret)[:120]))
                r.ok('not negative', var[0] == 'Start' or m.entails(o.conds, want) or checked(o), 'a negative position is accepted [%s]' % txt(o))
            elif okret(o) is False:
                r.ok('position kept', m.eq(fin, S), 'a failed seek moves the position')
                r.ok('only negative refused', m.entails(o.conds, padd({k: -x for k, x in want.items()}, {(): -1})) or checked(o), 'a position that exists is refused [%s]' % txt(o))

    with r.section('open'):
        b = method('open')
        done.add(b.path)
        for o in r.outs(b, sides=False):
            if okret(o) is not True:
                continue
            ag = payload(o.ret, 'Ok')
            v = FileView(r, o, fresh=ag)
            ro = cond_p(o, 2)
            zs = REOPEN(fld(ag, 'data_file'))
            if not zs:
                r.undec.append('open: %s' % show(fld(ag, 'data_file'))[:120])
                continue
            z = zs[0]
            for val in ((ro,) if ro is not None else (True, False)):
                d = openopts(z)
                fl = {k: flag_with(x, 2, val) for k, x in d.items()}
                if 'OpenOptions' in z.a[0]:
                    r.ok('never truncated', fl.get('truncate') is not True, 'opening discards what is in the file')
                    if val:
                        r.ok('read-only opened for reading', not any(fl.get(k) is True for k in ('append', 'write', 'create', 'create_new')), 'a read-only file is opened with %s' % sorted(k for k in fl if fl[k]))
                    else:
                        r.ok('opened for appending', fl.get('append') is True, 'a writable file is opened without append')
                    r.ok('readable', fl.get('read') is True, 'the file is opened unreadable')
                elif leaf(z.a[0]) == 'create':
                    r.ok('never truncated', False, 'opening discards what is in the file')
                else:
                    r.ok('opened for appending', val, 'a writable file is opened by %s' % show(z)[:80])
            r.ok('the named file', contains(z.a[1][-1], lambda q: param_of(q) == 1), 'opens %s' % show(z.a[1][-1])[:100])
            r.ok('path kept', contains(fld(ag, 'data_file_path'), lambda q: param_of(q) == 1), 'path is %s' % show(fld(ag, 'data_file_path'))[:80])
            cr = [e for _, e in ecalls(o, 'create_new', 'create') if 'File' in e.name]
            r.ok('read-only creates nothing', not cr or ro is False, 'a read-only open creates the file [%s]' % txt(o))
            r.ok('existing file kept', not [e for e in cr if leaf(e.name) == 'create'] and not ecalls(o, 'remove_file', 'set_len'), 'opening discards what is in the file')
            r.ok('end is the size', endseek(fld(ag, 'data_file_end')), 'the end is %s' % show(fld(ag, 'data_file_end'))[:120])
            try:
                r.ok('nothing buffered', not v.m.key(v.m.pieces(fld(ag, 'write_buffer'))), 'the buffer starts as %s' % show(fld(ag, 'write_buffer'))[:80])
            except Unread as e:
                r.undec.append('open: %s' % e)
            r.ok('starts at the beginning', amount(fld(ag, 'seek_pos')) == 0, 'position starts at %s' % show(fld(ag, 'seek_pos'))[:60])
            r.ok('mode recorded', flag_with(fld(ag, 'read_only'), 2, True) is True and flag_with(fld(ag, 'read_only'), 2, False) is False or is_const(fld(ag, 'read_only')) and fld(ag, 'read_only').a[0] is ro,
                 'read_only is %s' % show(fld(ag, 'read_only'))[:60])
            r.ok('kept on drop', amount(fld(ag, 'remove_on_drop')) is False or amount(fld(ag, 'remove_on_drop')) == 0, 'the file is removed on drop')
            if not refill_rules('open', o, v):
                r.ok('nothing declared read', v.m.eq(v.m.P(fld(ag, 'read_buffer_len')), {}), 'bytes are declared valid that were not read [%s]' % txt(o))

    with r.section('rename'):
        for o in outs('rename'):
            calls = [e for _, e in ecalls(o, 'rename') if 'fs' in e.name]
            fin = FileView(r, o).fin('data_file_path')
            moved = param_of(fin) == 2 or contains(fin, lambda z: param_of(z) == 2)
            if not calls:
                r.ok('path kept', fin is f('data_file_path') or strip(fin) is strip(f('data_file_path')), 'the path changes without a rename [%s]' % txt(o))
                if okret(o) is True:
                    same = any(c[0] == 'cmp' and c[1] == 'eq' and contains(c[2], lambda z: z.op == 'fld' and z.a[1] == 'data_file_path') != contains(c[3], lambda z: z.op == 'fld' and z.a[1] == 'data_file_path') for c in o.conds)
                    r.ok('nothing to do only for the same path', same, 'rename reports success without renaming [%s]' % txt(o))
                continue
            e = calls[0]
            a, b2 = e.args[:2]
            r.ok('from the current path', contains(a, lambda z: z is f('data_file_path')) and contains(b2, lambda z: param_of(z) == 2), 'renames %s' % repr(e)[:150])
            i = o.events.index(e)
            free = any(c[0] == 'true' and not c[2] and c[1].op == 'call' and leaf(c[1].a[0]) in ('exists', 'is_file') and contains(c[1].a[1][0], lambda z: param_of(z) == 2) or
                       c[0] == 'is' and c[2] in ('Ok', 'Some') and c[1].op == 'call' and leaf(c[1].a[0]) in ('try_exists', 'metadata', 'symlink_metadata') for c in o.before(i))
            r.ok('never over another file', free, 'an existing file can be replaced [%s]' % txt(o))
            s = ok_of(o, e.res)
            if s is None:
                r.undec.append('rename: result not looked at')
            else:
                r.ok('path follows the file', moved == s, 'after a rename that %s the path is %s' % ('succeeded' if s else 'failed', show(fin)[:80]))
                if okret(o) is True:
                    r.ok('failure reported', s, 'a failed rename is reported as success [%s]' % txt(o))

    with r.section('close'):
        rod = f('remove_on_drop')
        for o in outs('drop', 'Drop'):
            rm = ecalls(o, 'remove_file')
            if rm:
                r.ok('removed only when asked', cond_of(o, rod, True), 'closing removes the file [%s]' % txt(o))
                r.ok('the own file', contains(rm[0][1].args[0], lambda z: z is f('data_file_path')), 'removes %s' % show(rm[0][1].args[0])[:80])
            if cond_of(o, rod, True) or cond_of(o, RO, True) or rm:
                continue
            v = FileView(r, o)
            wr = [(i, e) for i, e in ecalls(o, 'write_all') if isfile(e.args[0])]
            if any(ok_of(o, e.res) is False for _, e in wr):
                continue
            keeps(r, 'close', o, v, [(f('data_file'), {}, None), (W0, {}, None)], 'what is buffered is not what reaches the disk')
            try:
                left = v.m.total(v.m.pieces(v.fin('write_buffer')))
                r.ok('flushed', v.m.entails(o.conds, {k: -x for k, x in left.items()}), 'a writable file is closed with bytes in the buffer [%s]' % txt(o))
            except Unread as e:
                r.undec.append('close: %s' % e)
            sy = [(i, e) for i, e in ecalls(o, 'sync_all', 'sync_data') if isfile(e.args[0])]
            r.ok('forced to disk', sy, 'a writable file is closed without being forced to disk [%s]' % txt(o))
            r.ok('flushed before forced', not sy or not wr or max(i for i, _ in sy) > max(i for i, _ in wr), 'the bytes are written after the file was forced to disk')
        for o in outs('sync_all'):
            if cond_of(o, RO, True):
                continue
            sy = [(i, e) for i, e in ecalls(o, 'sync_all', 'sync_data') if isfile(e.args[0])]
            if okret(o) is True or okret(o) is None:
                r.ok('sync reaches the file', sy and ok_of(o, sy[0][1].res) is not False, 'a sync of a writable file reports success without forcing it [%s]' % txt(o))
        for o in outs('delete'):
            w = [e for e in o.events if e.k in ('lwrite', 'write') and e.args and show(e.args[0]).endswith('remove_on_drop')]
            r.ok('delete asks for removal', any(amount(e.args[1]) for e in w) or ecalls(o, 'remove_file'), 'delete does not remove the file')

    with r.section('every other operation'):
        bs = r.F.bodies.values() if isinstance(r.F.bodies, dict) else r.F.bodies
        for b in bs:
            if b.path in done or not re.search(r'archive::data_file::DataFile( as .*)?>?::\w+$', b.path) or re.search('CALLSITE|::META', b.path) or b.path.endswith('::fmt') or b.path in r.funcs:
                continue
            g = r.graph(b, **OWN)
            for o in r.outs(g):
                if o.exit != 'ret' or okret(o) is False or 1 not in o.state:
                    continue
                v = FileView(r, o)
                if all(v.fin(n) is f(n) for n in ('data_file', 'write_buffer', 'data_file_end')):
                    r.ok('contents kept', True)
                    continue
                keeps(r, b.path.rsplit('::', 1)[1], o, v, [(f('data_file'), {}, None), (W0, {}, None)], 'the contents change')


def cond_p(o, p):
    for c in o.conds:
        if c[0] == 'true' and param_of(c[1]) == p:
            return c[2]
    return None


def flag_ro(t, val):
    """the value of an option argument when self.read_only is val"""
    if is_const(t):
        return bool(t.a[0])
    if t.op == 'un':
        v = flag_ro(t.a[-1], val)
        return None if v is None else not v
    if t.op == 'call' and leaf(t.a[0]) == 'not':
        v = flag_ro(t.a[1][0], val)
        return None if v is None else not v
    if t.op == 'fld' and t.a[1] == 'read_only':
        return val
    return None


def flag_known(d, *names):
    return any(flag_ro(d[n], True) is True for n in names if n in d)


def payload_ok(t):
    return payload(t, 'Ok')


def checked(o):
    return any(c[0] == 'is' and contains(c[1], lambda z: z.op == 'call' and 'checked_' in z.a[0]) for c in o.conds)


def same_len(m, o, want):
    g = m.P(o.ret)
    return m.entails(o.conds, padd(g, want, -1)) and m.entails(o.conds, padd(want, g, -1))


def unread_len(m, o):
    return False


def buffersize(r):
    for b in (r.F.bodies.values() if isinstance(r.F.bodies, dict) else r.F.bodies):
        if b.path.endswith('data_file::READ_BUFFER_SIZE'):
            return 16384
    return 16384


# ---------------------------------------------------------------- checksums and lengths
NOTBUF = ('len', 'is_empty', 'index', 'index_mut', 'as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'to_vec', 'iter', 'capacity', 'try_decode', 'update', 'reserve')
CHANGES = ('read_exact', 'read', 'resize', 'clear', 'read_to_end', 'extend_from_slice', 'extend', 'truncate', 'push', 'fill', 'copy_from_slice', 'write_all', 'append', 'set_len', 'drain', 'encode_into_buffer')


def slice_of(t, versions=False):
    """the buffer under full-range indexing and reborrows; with versions, a mutable borrow makes a new version"""
    while True:
        t = strip(t)
        if t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut') and len(t.a[1]) == 2 and is_full(t.a[1][1]):
            t = t.a[1][0]
        elif t.op == 'call' and leaf(t.a[0]) in ('as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'get_mut', 'by_ref') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'upd!' and leaf(t.a[1]) in ('index_mut', 'as_mut_slice', 'deref_mut', 'as_mut') and not versions:
            t = t.a[0]
        else:
            return t


def buf(t):
    """identity of a buffer: its place when it is one, the versioned value of a local array otherwise"""
    t = slice_of(t)
    x = t
    while x.op == 'upd!':
        x = slice_of(x.a[0])
    y = x
    while y.op == 'fld':
        y = y.a[0]
    return x if y.op in ('param', 'env', 'local') or x.op == 'fld' else t


def hashed(t):
    """[args fed to the hasher] of a finalized checksum, None when t is not one"""
    t = strip(t)
    if t.op == 'call' and leaf(t.a[0]) == 'hash' and 'crc32' in t.a[0]:
        return [t.a[1][0]]
    if not (t.op == 'call' and leaf(t.a[0]) in ('finalize', 'finish') and 'Hasher' in t.a[0]):
        return None
    x, out = t.a[1][0], []
    while x.op == 'upd!' and leaf(x.a[1]) in ('update', 'write', 'write_all'):
        out.append(x.a[4])
        x = x.a[0]
    return out[::-1] if x.op == 'call' and leaf(x.a[0]) in ('new', 'default') else None


def word(t):
    """(bytes, endianness) of an integer built from bytes"""
    t = strip(t)
    while t.op == 'cast':
        t = t.a[1]
    if t.op == 'call' and leaf(t.a[0]) in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes', 'read_u32', 'read_u32_le', 'get_u32_le'):
        return t.a[1][0], 'be' if 'be' in leaf(t.a[0]) or leaf(t.a[0]) == 'read_u32' else 'le'
    return None


def source(t):
    """the bytes an array was copied from"""
    t = strip(t)
    if t.op == 'upd!' and leaf(t.a[1]) == 'copy_from_slice':
        return t.a[4]
    if t.op in ('fld', 'as'):
        x = t
        while x.op in ('fld', 'as'):
            x = x.a[0]
        if x.op == 'call' and leaf(x.a[0]) in ('try_into', 'try_from'):
            return x.a[1][0]
    if t.op == 'call' and leaf(t.a[0]) in ('unwrap', 'expect', 'unwrap_or_default'):
        return source(t.a[1][0])
    if t.op == 'call' and leaf(t.a[0]) in ('try_into', 'try_from', 'into', 'from'):
        return t.a[1][0]
    return t


def verified(conds):
    """[(hashed args, stored checksum bytes, equal?)] of the checksum comparisons among conds"""
    out = []
    for c in conds:
        if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('eq', 'ne') and len(c[1].a[1]) == 2:
            c = ('cmp', 'eq' if (leaf(c[1].a[0]) == 'eq') == (c[2] is not False) else 'ne', *c[1].a[1])
        if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                h, w = hashed(a), word(b)
                if h is not None and w is not None:
                    out.append((h, w[0], c[1] == 'eq'))
                elif h is not None and b.op == 'call' and leaf(b.a[0]) == 'from_le_bytes':
                    out.append((h, b.a[1][0], c[1] == 'eq'))
                else:
                    z = strip(a)                         # compared as bytes
                    if z.op == 'call' and leaf(z.a[0]) == 'to_le_bytes' and hashed(z.a[1][0]) is not None:
                        out.append((hashed(z.a[1][0]), b, c[1] == 'eq'))
    return out


def covers(m, v, b):
    """a checksum comparison that covers all of b but its last four bytes, which are the stored checksum"""
    h, w, eq = v
    if not eq:
        return False
    L = m.length(b)
    try:
        hp = m.key([p for x in h for p in m.pieces(x)])
        wp = m.key(m.pieces(source(w)))
        return hp == m.key(m.cut(m.pieces(b), {}, padd(L, {(): -4}))) and wp == m.key(m.cut(m.pieces(b), padd(L, {(): -4}), L))
    except Unread:
        return None


class BModel(Model):
    """buffers: reading into a buffer makes new contents of the same length"""

    def pieces(self, t):
        t = slice_of(view(t) if t.op != 'upd!' else t, True)
        if t.op == 'upd!' and leaf(t.a[1]) in ('index_mut', 'as_mut_slice', 'deref_mut'):
            return [(t, {}, self.length_of(t))]
        if t.op == 'upd!' and leaf(t.a[1]) in ('read_exact', 'copy_from_slice', 'fill'):
            return [(t, {}, self.length_of(t))]
        if t.op == 'rep':
            return [(t, {}, self.length_of(t))]
        if t.op == 'call' and leaf(t.a[0]) == 'from_elem':
            return [(t, {}, self.length_of(t))]
        if t.op == 'param' and t.a[0] in self.arr:
            return [(t, {}, {(): self.arr[t.a[0]]})]
        return super().pieces(t)

    arr = {}

    def of(self, body):
        """the lengths of array parameters"""
        self.arr = {}
        for i in range(1, body.d['argc'] + 1):
            x = re.match(r'^&?(?:mut )?\[u8; (\d+)\]$', body.d['locals'][i]['ty'])
            if x:
                self.arr[i] = int(x.group(1))
        return body

    def length_of(self, t):
        while t.op == 'upd!':
            t = t.a[0]
        if t.op == 'rep':
            n = t.a[1]
            return self.P(n) if hasattr(n, 'op') else {(): int(n)} if n else {}
        if t.op == 'call' and leaf(t.a[0]) == 'from_elem':
            return self.P(t.a[1][1])
        return None


def seqno(o, pred, last=False):
    xs = [i for i, e in enumerate(o.events) if e.k == 'call' and pred(e)]
    return (xs[-1] if last else xs[0]) if xs else None


def changed(o, b, lo, hi):
    """calls between event lo and hi that change buffer b"""
    return [e for e in o.events[lo + 1:hi] if e.k == 'call' and leaf(e.name) in CHANGES and any(buf(a) is b for a in e.args[:3])]


def each_part(o, ws):
    """the writes, with a write in a loop over a list of parts as one write per part; None when such a loop makes no turn"""
    out = []
    lists = [z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'call' and z.a[0] == 'iter' and strip(z.a[1][0]).op == 'agg' and strip(z.a[1][0]).a[0] == 'array' and strip(z.a[1][0]).a[2]]
    for z in lists:
        if not any(c[0] == 'is' and c[1].op == 'next' and c[1].a[0] is z and c[3] for c in o.conds):
            return None
    for i, e in ws:
        x = strip(e.args[1])
        if x.op == 'elem' and any(strip(x.a[0]) is strip(z) for z in lists):
            for _, v in strip(strip(x.a[0]).a[1][0]).a[2]:
                out.append((i, Part(e, v)))
        else:
            out.append((i, e))
    return out


class Part:
    def __init__(self, e, v):
        self.e, self.args = e, (e.args[0], v) + tuple(e.args[2:])

    def __getattr__(self, k):
        return getattr(self.e, k)


READERS = [('random access', 'archive::pack::PackInner::read_record$', True), ('record size', 'archive::pack::PackInner::record_size$', False),
           ('scan', 'archive::pack_iter::PackIter::read_record_file$', True), ('async scan', r'AsyncPackIter::read_record_file::\{closure#0\}$', True)]


def bodyre(r, pat, n=1):
    bs = [b for b in (r.F.bodies.values() if isinstance(r.F.bodies, dict) else r.F.bodies) if re.search(pat, b.path)]
    if not bs:
        raise MissingAnchor(pat)
    return bs[0]


def bodies(r, pat):
    return [b for b in (r.F.bodies.values() if isinstance(r.F.bodies, dict) else r.F.bodies) if re.search(pat, b.path)]


def decodes(o):
    return [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and re.search(r'decode|deserialize|from_slice|from_bytes', leaf(e.name)) and 'codec' in e.name + ' ' and e.args] or \
           [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('try_decode', 'decode', 'deserialize', 'from_bytes') and e.args]


def payload_of(o, i, t):
    """(buffer decoded, decompression call index or None)"""
    b = buf(t)
    for k in range(i - 1, -1, -1):
        e = o.events[k]
        if e.k == 'call' and leaf(e.name) in ('read_to_end', 'copy_decode', 'decompress', 'decode_all', 'decompress_to_buffer', 'copy') and any(buf(a) is b for a in e.args):
            d = next((j for j in range(k - 1, -1, -1) if o.events[j].k == 'call' and leaf(o.events[j].name) in ('new', 'with_buffer') and 'Decoder' in o.events[j].name), None)
            if d is not None:
                return buf(o.events[d].args[0]), d
            src = next((a for a in e.args if buf(a) is not b), None)
            return (buf(src), k) if src is not None else (None, k)
        if e.k == 'call' and leaf(e.name) in ('read_exact',) and any(buf(a) is b for a in e.args):
            break
    if slice_of(t).op in ('fld', 'as') or slice_of(t).op == 'call':
        for z in subterms(t):
            if z.op == 'call' and leaf(z.a[0]) in ('decode_all', 'decompress'):
                return buf(z.a[1][0]), seqno(o, lambda e: e.res is z)
    return b, None


@check('C16', ['tn_storage'])
def c16(r):
    m = BModel()

    with r.section('checksum functions'):
        for o in r.outs(bodyre(r, r'archive::crc::check_crc$'), sides=False):
            if o.exit != 'ret':
                continue
            b = next((z for e in o.events for a in e.args for z in subterms(a) if param_of(z) == 1), None)
            t = o.ret
            if is_const(t) and t.a[0] is False or is_const(t) and t.a[0] == 0:
                r.ok('refuses', True)
                continue
            vs = verified(list(o.conds) + [cond(t)]) if not is_const(t) else verified(o.conds)
            if not vs:
                (r.ok('compares', False, 'verifies without comparing a checksum [%s]' % txt(o)) if is_const(t) else r.undec.append('check_crc: %s' % show(t)[:200]))
                continue
            c = covers(m, vs[-1], b)
            if c is None:
                r.undec.append('check_crc: %s' % show(t)[:200])
                continue
            r.ok('covers every byte before it', c, 'the comparison is %s' % show(t)[:300])
            L = m.length(b)
            r.ok('short data never verifies', m.entails(o.conds, padd(L, {(): -5})), 'data of four bytes or fewer can verify [%s]' % txt(o))
        wrote = False
        for o in r.outs(bodyre(r, r'archive::crc::add_crc32$'), sides=False):
            if o.exit != 'ret':
                continue
            cps = ecalls(o, 'copy_from_slice')
            for i, e in cps:
                wrote = True
                b = next((z for z in subterms(e.args[0]) if param_of(z) == 1), None)
                z = strip(e.args[1])
                h = hashed(z.a[1][0]) if z.op == 'call' and leaf(z.a[0]) == 'to_le_bytes' else None
                if b is None or h is None:
                    (r.ok('little endian', False, 'the checksum is written as %s' % show(z)[:100]) if z.op == 'call' and leaf(z.a[0]) in ('to_be_bytes', 'to_ne_bytes') else r.undec.append('add_crc32: %s' % repr(e)[:200]))
                    continue
                L = m.length(b)
                try:
                    dst = m.key(m.pieces(e.args[0]))
                    r.ok('written where it is checked', dst == m.key(m.cut(m.pieces(b), padd(L, {(): -4}), L)), 'the checksum is written at %s' % show(e.args[0])[:150])
                    r.ok('written over every byte before it', m.key([p for x in h for p in m.pieces(x)]) == m.key(m.cut(m.pieces(b), {}, padd(L, {(): -4}))), 'the checksum covers %s' % [show(x)[:100] for x in h])
                except Unread as x:
                    r.undec.append('add_crc32: %s' % x)
            if not cps:
                L = m.length(mk('param', 1, 'buffer'))
                b = next((z for e in o.events for a in e.args for z in subterms(a) if param_of(z) == 1), None)
                r.ok('always written', b is not None and m.entails(o.conds, padd({(): 4}, m.length(b), -1)), 'no checksum is written [%s]' % txt(o))

    with r.section('records'):
        for what, pat, dec in READERS:
            for o in r.outs(bodyre(r, pat), sides=False):
                if okret(o) is not True:
                    if okret(o) is None and o.exit == 'ret':
                        r.undec.append('%s returns %s' % (what, show(o.ret)[:100]))
                    continue
                ds = decodes(o)
                if dec and not ds:
                    r.undec.append('%s: decoding not found' % what)
                    continue
                at = ds[0][0] if ds else len(o.events)
                vs = verified(o.before(at) if at < len(o.events) else o.conds)
                cmpd = [v for v in vs if v[2]]
                if not cmpd:
                    unread = [c for c in o.conds if any(contains(x, lambda z: z.op == 'call' and (leaf(z.a[0]) in ('finalize', 'check_crc') or 'crc' in leaf(z.a[0]))) for x in c[1:] if hasattr(x, 'op'))]
                    if unread and not vs:
                        r.undec.append('%s: checksum comparison not read: %s' % (what, showc(unread[0])[:150]))
                    else:
                        r.ok(what + ': checksum verified first', False, 'a record is handed out without a verified checksum [%s]' % txt(o))
                    continue
                h, w, _ = cmpd[-1]
                hb = [buf(x) for x in h]
                reads = [(i, buf(e.args[1])) for i, e in ecalls(o, 'read_exact') if len(e.args) >= 2]
                res = [(i, e) for i, e in ecalls(o, 'resize', 'with_capacity', 'from_elem', 'set_len', 'reserve') if len(e.args) >= 1]
                sizes = [z for i, e in res for a in e.args[1:] + (e.args[:1] if leaf(e.name) in ('with_capacity',) else ()) for z in subterms(a) if word(z)]
                P, d = payload_of(o, at, ds[0][1].args[0]) if ds else (hb[-1] if hb else None, None)
                r.ok(what + ': payload covered', P in hb, 'the checksum does not cover the bytes that are decoded: covers %s, decoded %s' % ([show(x)[:60] for x in h], show(P)[:80] if P is not None else None))
                if sizes:
                    S = buf(word(sizes[0])[0])
                    r.ok(what + ': length covered', any(x is S or strip(x) is strip(S) for x in hb) or any(strip(slice_of(x)) is strip(slice_of(word(sizes[0])[0])) for x in h), 'the checksum does not cover the length: covers %s' % [show(x)[:60] for x in h])
                    r.ok(what + ': length first', len(hb) >= 2 and not (hb[0] is P), 'the checksum covers the payload before the length')
                if P in hb:
                    ups = [i for i, e in ecalls(o, 'update', 'hash', 'write') if len(e.args) >= 1 and buf(e.args[-1]) is P]
                    rd = [i for i, b in reads if b is P]
                    if ups and rd:
                        r.ok(what + ': hashed after it is read', ups[-1] > max(rd), 'the checksum is computed over the buffer before the payload is read into it')
                        r.ok(what + ': unchanged after hashing', not changed(o, P, ups[-1], at), 'the buffer changes between the checksum and decoding: %s' % changed(o, P, ups[-1], at)[:1])
                if d is not None:
                    r.ok(what + ': verified before decompressing', [v for v in verified(o.before(d)) if v[2]], 'the payload is decompressed before its checksum is verified')
                for i, e in ecalls(o, 'read_exact'):
                    if i < at and e.res is not None and len(e.args) >= 2:
                        seen = any(hasattr(x, 'op') and contains(x, lambda q: q is e.res) for c in o.conds for x in c[1:])
                        r.ok(what + ': failed reads noticed', seen, 'whether %s succeeded is not looked at' % repr(e)[:120])
                z = strip(source(w))
                r.ok(what + ': stored checksum read from the file', z.op == 'upd!' and leaf(z.a[1]) in ('read_exact', 'index_mut') or any(b is buf(z) for _, b in reads) or z.op == 'call', 'compared with %s' % show(z)[:120])

        for what, pat in (('scan', r'PackIter as (?:\w+::)*Iterator>::next$'), ('async scan', r'AsyncPackIter::next::\{closure#0\}$')):
            for b in bodies(r, pat):
                for o in r.outs(b, sides=False):
                    for i, e in decodes(o):
                        vs = verified(o.before(i))
                        if any('crc' in showc(c) or 'finalize' in showc(c) for c in o.before(i)) and not vs:
                            r.undec.append('%s: checksum comparison not read' % what)
                        else:
                            r.ok(what + ': nothing decoded unverified', any(v[2] for v in vs) and not any(not v[2] for v in vs), 'bytes are decoded without a verified checksum [%s]' % txt(o))

    with r.section('writer'):
        for o in r.outs(bodyre(r, r'archive::pack::write_value$'), sides=False):
            if okret(o) is not True and not (o.exit == 'ret' and okret(o) is None):
                continue
            ws = each_part(o, [(i, e) for i, e in ecalls(o, 'write_all') if param_of(strip(e.args[0])) == 2 or param_of(buf(e.args[0])) == 2])
            if ws is None:
                continue                                 # a loop over a non-empty list that makes no turn
            if okret(o) is None and len(ws) < 3:
                r.undec.append('write_value returns %s' % show(o.ret)[:100])
                continue
            last = slice_of(ws[-1][1].args[1]) if ws else None
            h = hashed(last.a[1][0]) if last is not None and last.op == 'call' and leaf(last.a[0]) == 'to_le_bytes' else None
            if h is None:
                any_ = any(z.op == 'call' and hashed(z) is not None for _, e in ws for z in subterms(e.args[1]))
                (r.undec.append('writer: checksum not read: %s' % (show(last)[:100] if last is not None else None)) if any_ or len(ws) == 1 else r.ok('checksum appended', False, 'a record is written without a checksum [%s]' % txt(o)))
                continue
            body = [e.args[1] for _, e in ws[:-1]]
            same = len(body) == len(h) and all(x is y or strip(x) is strip(y) or slice_of(x) is slice_of(y) or buf(x) is buf(y) for x, y in zip(body, h))
            r.ok('checksum over length and payload', same, 'written %s, checksum over %s' % ([show(x)[:60] for x in body], [show(x)[:60] for x in h]))
            r.ok('length and payload written', len(body) == 2, 'written are %d parts before the checksum' % len(body))
            if len(body) == 2:
                n = slice_of(body[0])
                L = n.a[1][0] if n.op == 'call' and leaf(n.a[0]) == 'to_le_bytes' else None
                r.ok('length of the payload', L is not None and any(z.op == 'len' and buf(z.a[0]) is buf(body[1]) or z.op == 'call' and leaf(z.a[0]) == 'len' and buf(z.a[1][0]) is buf(body[1]) for z in subterms(L)),
                     'the length written is %s' % show(n)[:120])

    headers(r, m)


HEADS = [('pack header', r'archive::pack::DataHeader::load_header_from_buffer$', r'archive::pack::DataHeader::write_header$'),
         ('digest index header', r'digest_index::index::HdxHeader::load_header$', r'digest_index::index::HdxHeader::write_header$'),
         ('overflow header', r'digest_index::odx_header::OdxHeader::load_header$', r'digest_index::odx_header::OdxHeader::write_header$'),
         ('position index header', r'position_index::index::PdxHeader::load_header$', r'position_index::index::PdxHeader::write_header$')]


def checked_buffers(o, m, i=None):
    """comparisons on o (before event i)"""
    return verified(o.conds if i is None else o.before(i))


def headers(r, m):
    with r.section('index files'):
        for what, lp, wp in HEADS:
            for o in r.outs(m.of(bodyre(r, lp)), sides=False):
                if okret(o) is not True:
                    continue
                src = header_buffer(o)
                if src is None:
                    r.undec.append(what + ': buffer not found')
                    continue
                vs = [v for v in verified(o.conds)]
                good = [covers(m, v, src) for v in vs]
                if any(g for g in good):
                    r.ok(what + ': verified', True)
                elif None in good or not vs and any('crc' in showc(c) for c in o.conds):
                    r.undec.append(what + ': checksum comparison not read')
                else:
                    r.ok(what + ': verified', False, 'a header is accepted without a checksum over all of it [%s]' % txt(o))
            for o in r.outs(bodyre(r, wp), sides=False, opaque=('add_crc32',)):
                if okret(o) is False or o.exit != 'ret':
                    continue
                ws = ecalls(o, 'write_all')
                if not ws:
                    r.undec.append(what + ': nothing written')
                    continue
                sealed(r, what, o, ws[-1][0], ws[-1][1].args[1], m)
        H = r'digest_index::index::HdxIndex::'
        for what, pat in (('bucket', H + 'remove_bucket$'), ('overflow bucket', r'bucket_iter::BucketIter::reset_next_overflow$')):
            for o in r.outs(bodyre(r, pat), sides=False):
                if okret(o) is not True:
                    continue
                rd = ecalls(o, 'read_exact')
                if not rd:
                    continue                             # from the cache
                b = rd[-1][1].args[1]
                vs = [v for v in verified(o.conds) if v[2]]
                good = False
                for h, w, _ in vs:
                    L = m.length(slice_of(b))
                    hp = [z for x in h for z in subterms(x) if same_buffer(z, b)]
                    good = good or bool(hp)
                if not vs and any('crc' in showc(c) and 'crc_failure' not in showc(c) for c in o.conds):
                    r.undec.append(what + ': checksum comparison not read')
                    continue
                r.ok(what + ': verified', good, 'a bucket read from the file is used without a verified checksum [%s]' % txt(o))
        for what, pat in (('dirty buckets', H + 'save_bucket_cache$'), ('overflow record', H + 'save_to_bucket_buffer$')):
            for o in r.outs(bodyre(r, pat), sides=False, opaque=('add_crc32',)):
                if o.exit != 'ret':
                    continue
                for i, e in ecalls(o, 'write_all'):
                    sealed(r, what, o, i, e.args[1], m)


def same_buffer(z, b):
    x, y = slice_of(z), slice_of(b)
    def base(t):
        while t.op == 'upd!':
            t = slice_of(t.a[0])
        return t
    return z.op in ('upd!', 'call', 'fld', 'param', 'rep') and (buf(z) is buf(b) or base(x) is base(y))


def sealed(r, what, o, i, b, m):
    """the last change of b before event i is the checksum"""
    def mine(t):
        return same_buffer(slice_of(t), b)
    seal = [k for k, e in ecalls(o, 'add_crc32') if k < i and mine(e.args[0])]
    inline = [k for k, e in ecalls(o, 'copy_from_slice') if k < i and any(z.op == 'call' and hashed(z) is not None for z in subterms(e.args[1]))]
    if not seal and inline:
        seal = inline
    if not r.ok(what + ': sealed', seal, 'bytes are written without a checksum [%s]' % txt(o)):
        return
    later = [e for e in o.events[seal[-1] + 1:i] if e.k == 'call' and leaf(e.name) in ('copy_from_slice', 'fill', 'resize', 'swap') and e.args and same_buffer(next((z for z in subterms(e.args[0]) if z.op == 'call' and leaf(z.a[0]) == 'index_mut'), e.args[0]).a[1][0] if any(z.op == 'call' and leaf(z.a[0]) == 'index_mut' for z in subterms(e.args[0])) else e.args[0], b)]
    r.ok(what + ': sealed last', not later, 'bytes change after the checksum was computed: %s' % later[:1])
    L = slice_of(b)
    r.ok(what + ': all of it written', not (strip(b).op == 'call' and leaf(strip(b).a[0]) in ('index', 'index_mut') and not is_full(strip(b).a[1][1])), 'only a part of the sealed bytes is written: %s' % show(b)[:120])


def header_buffer(o):
    """the buffer a header is parsed from"""
    for i, e in ecalls(o, 'read_exact'):
        pass
    rd = ecalls(o, 'read_exact')
    vs = verified(o.conds)
    for h, w, _ in vs:
        for x in h:
            t = strip(x)
            while t.op == 'call' and leaf(t.a[0]) in ('index', 'split_at', 'split_at_mut') or t.op == 'fld' and strip(t.a[0]).op == 'call' and leaf(strip(t.a[0]).a[0]).startswith('split_at'):
                t = strip(t.a[0]) if t.op == 'fld' else t.a[1][0]
            return t
    if rd:
        return slice_of(rd[-1][1].args[1])
    return next((z for e in o.events for a in e.args for z in subterms(a) if param_of(z) == 1), None)


MAXREC = 16 * 1024 * 1024
ALLOC = ('resize', 'with_capacity', 'from_elem', 'reserve', 'reserve_exact', 'set_len', 'try_reserve', 'resize_with')


def alloc_amount(e):
    n = leaf(e.name)
    if n == 'with_capacity':
        return e.args[0]
    return e.args[1] if len(e.args) > 1 else None


@check('C17', ['tn_storage'])
def c17(r):
    m = BModel()

    def bounded(conds, t, hi):
        try:
            return m.entails(conds, padd({(): hi} if hi else {}, m.P(t), -1))
        except Unread:
            return None

    def refused(x):
        return contains(x, lambda z: z.op == 'agg' and z.a[1] in ('RequestedSizeTooLarge',))

    with r.section('readers'):
        for what, pat, dec in READERS:
            saw = False
            for o in r.outs(bodyre(r, pat), sides=False):
                for i, e in enumerate(o.events):
                    if e.k != 'call' or leaf(e.name) not in ALLOC or not e.args:
                        continue
                    n = alloc_amount(e)
                    if n is None or is_const(n) or n.op == 'cast' and is_const(n.a[1]):
                        continue
                    saw = saw or any(word(z) for z in subterms(n)) or any('from_le_bytes' in show(z) for z in (n,))
                    b = bounded(o.before(i), n, MAXREC)
                    if b is None:
                        r.undec.append('%s: %s' % (what, show(n)[:150]))
                        continue
                    r.ok(what + ': bounded before memory is reserved', b, '%s of %s is reached without checking it against the record size limit [%s]' % (leaf(e.name), show(n)[:150], ' & '.join(showc(c) for c in o.before(i))[-200:]))
                for i, e in enumerate(o.events):
                    if e.k != 'call' or not e.args:
                        continue
                    n = leaf(e.name)
                    if n in ('read_to_end', 'copy', 'read_to_string') and len(e.args) >= 2:
                        src = strip(e.args[0])
                        lim = next((z for z in subterms(src) if z.op == 'call' and leaf(z.a[0]) == 'take' and len(z.a[1]) == 2), None)
                        if not r.ok(what + ': decompressed size capped', lim is not None, '%s of an unbounded stream: %s' % (n, show(src)[:150])):
                            continue
                        cap = amount(lim.a[1][1])
                        if not isinstance(cap, int):
                            b = bounded(o.before(i), lim.a[1][1], MAXREC + 1)
                            (r.ok(what + ': decompressed size capped', bool(b), 'decompression is capped at %s, which the record limit does not bound' % show(lim.a[1][1])[:100]) if b or not contains(lim.a[1][1], lambda z: z.op in ('phi', 'cdef') or z.op == 'call' and leaf(z.a[0]) != 'len') else r.undec.append('%s: take(%s)' % (what, show(lim.a[1][1])[:80])))
                        else:
                            r.ok(what + ': decompressed size capped', cap <= MAXREC + 1, 'decompression is capped at %s bytes, the record limit is %d' % (cap, MAXREC))
                            if okret(o) is True:
                                out = e.args[1]
                                lens = [z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'len' or z.op == 'call' and leaf(z.a[0]) == 'len']
                                lens = [z for z in lens if buf(z.a[0] if z.op == 'len' else z.a[1][0]) is buf(out) or show(buf(out)) in show(z)]
                                got = [z for z in lens if bounded(o.conds, z, MAXREC)] or any(bounded(o.conds, z, MAXREC) for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'fld' and z.a[0].op == 'as' and strip(z.a[0].a[0]) is strip(e.res))
                                r.ok(what + ': oversized output refused', got or cap <= MAXREC and False, 'a record whose decompressed size reaches the cap is decoded, cut short or too large [%s]' % txt(o))
                        dec_ = next((z for z in subterms(src) if z.op == 'call' and leaf(z.a[0]) in ('new', 'with_buffer', 'with_dictionary', 'with_context') and 'Decoder' in z.a[0]), None)
                        if dec_ is not None:
                            ws = [x for k, x in enumerate(o.events[:i]) if x.k == 'call' and leaf(x.name) == 'window_log_max' and len(x.args) == 2 and contains(x.args[0], lambda z: z is dec_)]
                            if r.ok(what + ': decompression window bounded', ws, 'the decompressor runs without a window limit [%s]' % txt(o)):
                                w = amount(ws[-1].args[1])
                                if isinstance(w, int):
                                    r.ok(what + ': decompression window bounded', w <= 24, 'the window limit is 2^%d, above the record limit of 2^24' % w)
                                else:
                                    r.undec.append('%s: window %s' % (what, show(ws[-1].args[1])[:60]))
                                if okret(o) is True:
                                    r.ok(what + ': window limit took effect', ok_of(o, ws[-1].res) is not False, 'the window limit failed and decoding continued')
                    elif n in ('decode_all', 'copy_decode', 'decompress_to_buffer') or n == 'decompress' and 'zstd' in e.name:
                        cap = amount(e.args[1]) if n == 'decompress' and len(e.args) == 2 else None
                        r.ok(what + ': decompressed size capped', n == 'decompress' and isinstance(cap, int) and cap <= MAXREC + 1, '%s decompresses a record without a size cap' % n)
            if not saw:
                r.undec.append(what + ': no length read')

    with r.section('byte ranges'):
        v = None
        for o in r.outs(bodyre(r, r'archive::pack::PackInner::read_bytes$'), sides=False):
            al = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ALLOC and alloc_amount(e) is not None and not is_const(alloc_amount(e))]
            rd = ecalls(o, 'read_exact', 'read')
            if not al and not rd:
                continue
            i = min([i for i, _ in al] + [i for i, _ in rd])
            A, B = mk('param', 2, 'start_pos'), mk('param', 3, 'end_pos')
            ps = {param_of(z): z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if param_of(z) in (2, 3) and z.op == 'param'}
            ps.update({param_of(z): z for _, e in al for z in subterms(alloc_amount(e)) if z.op == 'param'})
            A, B = ps.get(2, A), ps.get(3, B)
            df = fld(SELF, 'data_file')
            E, W = m.P(fld(df, 'data_file_end')), m.length(fld(df, 'write_buffer'))
            cs = o.before(i)
            r.ok('range read forwards', m.entails(cs, padd(m.P(B), m.P(A), -1)), 'a range that ends before it starts is attempted [%s]' % ' & '.join(showc(c) for c in cs)[-200:])
            r.ok('range inside the file', m.entails(cs, padd(padd(E, W), m.P(B), -1)), 'a range beyond the end of the file is attempted [%s]' % ' & '.join(showc(c) for c in cs)[-200:])
            for k, e in al:
                n = alloc_amount(e)
                try:
                    r.ok('memory for the range only', m.entails(o.before(k), padd(padd(m.P(B), m.P(A), -1), m.P(n), -1)), '%s of %s' % (leaf(e.name), show(n)[:100]))
                except Unread:
                    r.undec.append('read_bytes: %s' % show(n)[:100])

    with r.section('writer'):
        for o in r.outs(bodyre(r, r'archive::pack::write_value$'), sides=False):
            ws = [(i, e) for i, e in ecalls(o, 'write_all', 'write') if param_of(strip(e.args[0])) == 2 or param_of(buf(e.args[0])) == 2]
            enc = ecalls(o, 'encode_into_buffer', 'encode', 'to_bytes', 'serialize_into')
            if not ws:
                continue
            if not enc:
                r.undec.append('write_value: encoding not found')
                continue
            i = ws[0][0]
            cs = o.before(i)
            plain = enc[0][1].args[0]
            bodies = [e.args[1] for _, e in ws[1:2]]
            for nm, b in [('encoded', plain)] + [('stored', x) for x in bodies]:
                L = m.length(slice_of(b))
                got = m.entails(cs, padd({(): MAXREC}, L, -1)) or any(bounded(cs, z, MAXREC) for c in cs for x in c[1:] if hasattr(x, 'op') for z in subterms(x)
                                                                    if (z.op == 'len' and buf(z.a[0]) is buf(b) or z.op == 'call' and leaf(z.a[0]) == 'len' and buf(z.a[1][0]) is buf(b)))
                r.ok('%s size within what the readers accept' % nm, got, 'a record is written whose %s size was not checked against the record limit the readers enforce [%s]' % (nm, ' & '.join(showc(c) for c in cs)[-200:]))


PI = r'archive::pack::PackInner::'
WRITES = ('write_all', 'write', 'set_len', 'write_fmt', 'write_vectored', 'rename')


def froms(r, ty):
    """variant -> the only variant the From impls of an error type make, or None"""
    vs = set()
    for b in r.F.bodies.values() if isinstance(r.F.bodies, dict) else r.F.bodies:
        if ty + ' as core::convert::From>' in b.path:
            for o in r.outs(b, sides=False):
                t = strip(o.ret) if o.ret is not None else None
                vs.add(t.a[1] if t is not None and t.op == 'agg' else None)
    return vs


def feasible(o, vs):
    """no condition of o claims that an error made by From has a variant outside vs"""
    if not vs or None in vs:
        return True
    for c in o.conds:
        if c[0] == 'is' and c[3] and c[1].op == 'call' and leaf(c[1].a[0]) == 'from' and c[2] not in vs and c[2] not in ('Ok', 'Err', 'Some', 'None'):
            inner = c[1].a[1][0]
            if inner.op == 'call' and leaf(inner.a[0]) == 'from' or inner.op in ('fld', 'as'):
                return False
        if c[0] == 'isin' and c[1].op == 'call' and leaf(c[1].a[0]) == 'from' and vs <= set(c[2]):
            return False
    return True


def on_file(e):
    """the event changes the data file (or its buffer)"""
    return e.k == 'call' and e.args and leaf(e.name) in WRITES + ('sync_all', 'sync_data', 'flush', 'append') and any(z.op == 'fld' and z.a[1] == 'data_file' for a in e.args[:2] for z in [root(a)] + list(spine(a)))


def spine(t):
    for _ in range(60):
        yield t
        if t.op in ('upd!', 'upd', 'fld', 'as'):
            t = t.a[0]
        else:
            return


def root(t):
    for t in spine(t):
        pass
    return t


def is_failed(o, conds, want):
    F_ = fld(SELF, 'failed')
    for c in conds:
        if c[0] == 'is' and strip(c[1]) is F_:
            yes = c[2] in ('Some', 'Ok')
            if (c[3] == yes) == want:
                return True
        if c[0] == 'true' and strip(c[1]).op == 'call' and strip(c[1]).a[1] and strip(strip(c[1]).a[1][0]) is F_ and leaf(strip(c[1]).a[0]) in ('is_some', 'is_none'):
            if ((leaf(strip(c[1]).a[0]) == 'is_some') == c[2]) == want:
                return True
    return False


@check('C18', ['tn_storage'])
def c18(r):
    RO = fld(SELF, 'read_only')
    FAILED = fld(SELF, 'failed')

    def gate(what, o, i):
        cs = o.before(i)
        class B: pass
        b = B(); b.conds = cs
        r.ok(what + ': not read-only', cond_of(b, RO, False), '%s reaches %s without refusing a read-only pack [%s]' % (what, leaf(o.events[i].name), ' & '.join(showc(c) for c in cs)[-200:]))
        r.ok(what + ': not failed', is_failed(o, cs, False), '%s reaches %s although an earlier append may have failed [%s]' % (what, leaf(o.events[i].name), ' & '.join(showc(c) for c in cs)[-200:]))

    with r.section('append'):
        vs = froms(r, 'error::insert::AppendError')
        n = 0
        for o in r.outs(bodyre(r, PI + 'append$'), sides=False, own=(1,)):
            if o.exit != 'ret' or not feasible(o, vs):
                continue
            evs = [i for i, e in enumerate(o.events) if on_file(e)]
            fin = strip(fld(o.state.get(1, SELF), 'failed'))
            if evs:
                n += 1
                gate('append', o, evs[0])
            bad = [i for i in evs if ok_of(o, o.events[i].res) is False and o.events[i].res is not None]
            if bad:
                some_ = fin.op == 'agg' and fin.a[1] == 'Some'
                if not some_ and fin is not FAILED and fin.op != 'agg':
                    c = any(c[0] == 'is' and strip(c[1]) is fin and c[2] == 'Some' and c[3] for c in o.conds)
                    if not c:
                        r.undec.append('append: failed becomes %s' % show(fin)[:120])
                        continue
                    some_ = True
                if r.ok('append: a failed write is remembered', some_, 'a write to the file fails and the pack accepts the next append [%s]' % txt(o)) and fin.op == 'agg':
                    err_ = o.events[bad[-1]].res
                    r.ok('append: the cause is remembered', contains(fin, lambda z: z.op == 'as' and strip(z.a[0]) is strip(err_)) or contains(fin, lambda z: strip(z) is strip(err_)), 'remembered is %s' % show(fin)[:200])
                k = okret(o)
                (r.undec.append('append returns %s' % show(o.ret)[:80]) if k is None else r.ok('append: failure reported', k is False, 'a write to the file fails and append reports success [%s]' % txt(o)))
            elif not evs and is_failed(o, o.conds, True):
                k = okret(o)
                (r.undec.append('append returns %s' % show(o.ret)[:80]) if k is None else r.ok('append: refused while failed', k is False, 'append succeeds on a failed pack'))
                if k is False:
                    r.ok('append: refused with the first cause', contains(o.ret, lambda z: strip(z) is FAILED) or cond_of(o, RO, True), 'the refusal is %s' % show(o.ret)[:200])
                    r.ok('append: first cause kept', fin is FAILED, 'the remembered cause becomes %s' % show(fin)[:150])
            elif not evs and cond_of(o, RO, True):
                r.ok('append: read-only refused', okret(o) is False, 'append reports success on a read-only pack')
            elif okret(o) is True and not evs:
                r.ok('append: writes', False, 'append reports success without writing [%s]' % txt(o))
            if not bad:
                r.ok('append: latch left alone', fin is FAILED or fin.op == 'agg' and fin.a[1] == 'Some', 'the remembered cause becomes %s [%s]' % (show(fin)[:100], txt(o)))
        if not n:
            r.undec.append('append: no write found')

    with r.section('commit'):
        n = 0
        for o in r.outs(bodyre(r, PI + 'commit$'), sides=False, own=(1,)):
            if o.exit != 'ret':
                continue
            evs = [i for i, e in enumerate(o.events) if on_file(e)]
            if evs:
                n += 1
                gate('commit', o, evs[0])
            k = okret(o)
            if k is None:
                r.undec.append('commit returns %s' % show(o.ret)[:80])
                continue
            if is_failed(o, o.conds, True):
                r.ok('commit: refused while failed', k is False, 'commit reports success on a failed pack')
                r.ok('commit: refused with the first cause', k is True or contains(o.ret, lambda z: strip(z) is FAILED) or cond_of(o, RO, True), 'the refusal is %s' % show(o.ret)[:200])
            elif k:
                r.ok('commit: only when not failed', is_failed(o, o.conds, False), 'commit reports success without looking at the failed state [%s]' % txt(o))
            if cond_of(o, RO, True):
                r.ok('commit: read-only refused', k is False, 'commit reports success on a read-only pack')
            fin = strip(fld(o.state.get(1, SELF), 'failed'))
            r.ok('commit: latch left alone', fin is FAILED or fin.op == 'agg' and fin.a[1] == 'Some', 'the remembered cause becomes %s' % show(fin)[:100])
        if not n:
            r.undec.append('commit: no write found')

    with r.section('closing'):
        for o in r.outs(bodyre(r, r'archive::pack::PackInner as core::ops::drop::Drop>::drop$'), sides=False, own=(1,)):
            for i, e in enumerate(o.events):
                if on_file(e):
                    gate('drop', o, i)
                    break

    with r.section('latch'):
        for b in bodies(r, r'archive::pack::PackInner'):
            if re.search(PI + '(append|commit|open|open_data_file)$', b.path) or b.path in r.funcs:
                continue
            for o in r.outs(b, sides=False, own=(1,)):
                for i, e in enumerate(o.events):
                    if e.k in ('lwrite', 'write') and e.args and e.args[0].op == 'fld' and e.args[0].a[1] == 'failed':
                        v = strip(e.args[1])
                        r.ok('never cleared', v.op == 'agg' and v.a[1] == 'Some', '%s sets the remembered cause to %s' % (b.path.split('::')[-1], show(v)[:100]))
                    if e.k == 'call' and leaf(e.name) in ('take', 'replace') and e.args and strip(e.args[0]) is FAILED:
                        r.ok('never cleared', False, '%s clears the remembered cause' % b.path.split('::')[-1])

    with r.section('open'):
        n = 0
        g = bodyre(r, PI + 'open$')
        for o in r.outs(g, sides=False, opaque=('open_data_file',)):
            if okret(o) is not True:
                continue
            n += 1
            t = payload(o.ret, 'Ok')
            p = next((z for z in subterms(fld(t, 'read_only')) if z.op == 'param'), None)
            f = strip(fld(t, 'failed'))
            r.ok('a new pack has not failed', f.op != 'agg' or f.a[1] == 'None', 'starts as %s' % show(f)[:60])
            r.ok('read-only as asked', strip(fld(t, 'read_only')).op == 'param', 'read_only is %s' % show(fld(t, 'read_only'))[:80])
            ev = ecalls(o, 'open_data_file')
            if ev and p is not None:
                r.ok('file opened read-only as asked', any(strip(a) is strip(fld(t, 'read_only')) for a in ev[0][1].args), 'the data file is opened with %s' % [show(a)[:30] for a in ev[0][1].args])
        if not n:
            r.undec.append('open: not read')
        for o in r.outs(bodyre(r, PI + 'open_data_file$'), sides=False, opaque=('load_header', 'write_header', 'DataFile::open')):
            for i, e in enumerate(o.events):
                if e.k == 'call' and leaf(e.name) == 'open' and 'DataFile' in e.name:
                    a = [x for x in e.args if param_of(x) == 3]
                    r.ok('file opened read-only as asked', a, 'the data file is opened with %s' % [show(x)[:40] for x in e.args])


FILES = ('hdx_file', 'odx_file', 'pdx_file', 'data_file')
SYNC = ('sync_all', 'sync_data')


def fileof(t):
    """the file field an operation works on"""
    for z in spine(strip(t)):
        if z.op == 'fld' and z.a[1] in FILES:
            return z.a[1]
        if z.op == 'as' and REOPEN(z):
            return 'data_file'
    return None


def fallible(o):
    """[(i, event, file)] of the operations on files that can fail"""
    return [(i, e, f) for i, e in enumerate(o.events) if e.k == 'call' and e.args and leaf(e.name) in ('write_all', 'write', 'flush', 'seek', 'rewind', 'set_len') + SYNC
            for f in filesof(e.args[0]) if f]


def filesof(t):
    """the files a term stands for: several in a loop over a list of files"""
    z = strip(t)
    if z.op == 'elem':
        x = strip(z.a[0])
        while x.op == 'call' and x.a[0] in ('iter', 'into_iter') and len(x.a[1]) == 1:
            x = strip(x.a[1][0])
        if x.op == 'agg' and x.a[0] == 'array':
            return [fileof(v) for _, v in x.a[2]]
    return [fileof(t)]


def reported(r, what, o):
    """on an outcome reporting success no file operation failed or went unnoticed"""
    for i, e, f in fallible(o):
        k = ok_of(o, e.res)
        if k is True or e.res is None:
            continue
        used = any(contains(x, lambda z: z is e.res) for c in o.conds for x in c[1:] if hasattr(x, 'op')) or o.ret is not None and contains(o.ret, lambda z: z is e.res)
        if k is None and used:
            r.undec.append('%s: result of %s not followed' % (what, leaf(e.name)))
        else:
            r.ok(what + ': every failure reported', False, '%s reports success although %s of %s may have failed [%s]' % (what, leaf(e.name), f, txt(o)))
    r.ok(what + ': every failure reported', True)


@check('C19', ['tn_storage'])
def c19(r):
    OWN = dict(own=(1,), sides=False)

    def succeeded(o):
        k = okret(o)
        if k is None and o.exit == 'ret' and o.ret is not None and o.ret.op == 'call':
            return True                                  # the last operation's result is returned as it is
        return k

    def buffered(what, o, field, bfile):
        """a DataFile: everything buffered is written, then synced"""
        df = fld(SELF, field) if field else SELF
        fin = fld(o.state.get(1, SELF), field) if field else o.state.get(1, SELF)
        ro = fld(df, 'read_only')
        if cond_of(o, ro, True):
            return
        m = Model({fld(df, 'data_file'): fld(df, 'data_file_end')})
        try:
            left = m.total(m.pieces(fld(fin, 'write_buffer')))
            r.ok(what + ': buffer written out', m.entails(o.conds, {k: -x for k, x in left.items()}), '%s reports success with bytes still buffered [%s]' % (what, txt(o)))
        except Unread as x:
            r.undec.append('%s: %s' % (what, x))
        ops = fallible(o)
        sy = [i for i, e, f in ops if leaf(e.name) in SYNC and f == bfile]
        wr = [i for i, e, f in ops if leaf(e.name) in ('write_all', 'write', 'set_len')]
        if r.ok(what + ': synced', sy, '%s reports success without forcing %s to disk [%s]' % (what, field, txt(o))):
            r.ok(what + ': synced last', not wr or sy[-1] > wr[-1], '%s forces %s to disk before the last bytes are written' % (what, field))
        reported(r, what, o)

    with r.section('pack'):
        n = 0
        for o in r.outs(bodyre(r, PI + 'commit$'), **OWN):
            if succeeded(o):
                n += 1
                buffered('commit', o, 'data_file', 'data_file')
            elif succeeded(o) is None and o.exit == 'ret':
                r.undec.append('commit returns %s' % show(o.ret)[:80])
        n or r.undec.append('commit never succeeds')
    with r.section('pack opened writable is written'):
        for o in r.outs(bodyre(r, PI + 'open_data_file$'), sides=False, opaque=('load_header', 'write_header')):
            pass_ = [e for e in o.events if e.k == 'call' and leaf(e.name) == 'open' and 'DataFile' in e.name]
            for e in pass_:
                r.ok('file writable as the pack is', any(param_of(x) == 3 for x in e.args), 'the data file is opened with %s' % [show(x)[:40] for x in e.args])
    with r.section('position index'):
        n = 0
        for o in r.outs(bodyre(r, r'position_index::index::PositionIndex as .*Index>::sync$'), **OWN):
            if succeeded(o):
                n += 1
                buffered('sync', o, 'pdx_file', 'data_file') if not cond_of(o, fld(fld(SELF, 'pdx_file'), 'read_only'), True) else None
        n or r.undec.append('sync never succeeds')

    H = r'digest_index::index::HdxIndex'
    SY = fld(SELF, 'synced')
    DIRTY = fld(SELF, 'dirty_bucket_cache')
    with r.section('digest index'):
        n = 0
        outs_ = [o for o in r.outs(bodyre(r, H + ' as .*Index>::sync$'), **OWN) if o.exit == 'ret']
        for o in outs_:
            k = succeeded(o)
            ops = fallible(o)
            mark = [(i, e) for i, e in enumerate(o.events) if e.k in ('lwrite', 'write') and e.args and e.args[0].op == 'fld' and e.args[0].a[1] == 'synced']
            for i, e in mark:
                v = strip(e.args[1])
                if is_const(v) and v.a[0] in (True, 1):
                    late = [f for j, x, f in ops if j > i and leaf(x.name) != 'seek']
                    fails = [f for j, x, f in ops if ok_of(o, x.res) is False]
                    r.ok('marker cleared last', not late, 'the index is marked clean before %s is done' % late[:1])
                    r.ok('marker cleared on success only', not fails and k is not False, 'the index is marked clean although %s failed' % fails[:1])
            if k is None:
                r.undec.append('sync returns %s' % show(o.ret)[:80])
            took = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('drain', 'take', 'into_iter', 'replace', 'clear') and e.args and contains(e.args[0], lambda z: z is DIRTY)]
            elems = {z for i, e, f in ops for a in e.args[1:] for z in subterms(a) if z.op == 'elem'}
            entered = [c for c in o.conds if c[0] == 'is' and c[3] and c[2] in ('Ok', 'Some') and strip(c[1]).op == 'next' and contains(c[1], lambda z: z is DIRTY)]
            bw = [(i, e) for i, e, f in ops if f == 'hdx_file' and leaf(e.name) == 'write_all' and contains(e.args[1], lambda z: z.op == 'elem' and contains(z, lambda q: q is DIRTY))]
            if k is False:
                if took and entered and any(ok_of(o, e.res) is False for i, e in bw) or took and any(ok_of(o, e.res) is False for i, e, f in ops if leaf(e.name) == 'seek' and contains(e.args[1], lambda z: z.op == 'elem')):
                    fin = fld(o.state.get(1, SELF), 'dirty_bucket_cache')
                    back = [z for z in subterms(fin) if z.op == 'upd!' and leaf(z.a[1]) in ('insert', 'extend', 'entry', 'append')]
                    ins = [z for z in back if leaf(z.a[1]) == 'insert' and contains(mk('t', *[x for x in z.a[4:] if hasattr(x, 'op')]), lambda q: q.op == 'elem')]
                    rest = [z for z in back if leaf(z.a[1]) in ('extend', 'append')]
                    whole = fin is DIRTY
                    more = [c for c in o.conds if c[0] == 'is' and c[3] and strip(c[1]).op == 'next' and contains(c[1], lambda z: z is DIRTY)]
                    done = [c for c in o.conds if c[0] == 'is' and not c[3] and strip(c[1]).op == 'next' and contains(c[1], lambda z: z is DIRTY)]
                    r.ok('unwritten buckets stay dirty', whole or ins and (rest or len(ins) > 1 or done), 'a bucket write fails and the buckets taken from the dirty cache are dropped: the cache becomes %s [%s]' % (show(fin)[:120], txt(o)))
                continue
            n += 1
            if cond_of(o, SY, True):
                continue
            reported(r, 'sync', o)
            r.ok('dirty buckets handled', took or any(contains(c[1], lambda z: z is DIRTY) for c in o.conds if c[0] in ('is', 'true') and hasattr(c[1], 'op')), 'sync reports success without writing the dirty buckets [%s]' % txt(o))
            if entered:
                r.ok('every dirty bucket written', bw, 'sync takes a dirty bucket without writing it [%s]' % txt(o))
            hw = [i for i, e, f in ops if f == 'hdx_file' and leaf(e.name) == 'write_all' and not contains(e.args[1], lambda z: z.op == 'elem') and not contains(e.args[1], lambda z: z.op == 'fld' and z.a[1] == 'bloom')]
            bl = [i for i, e, f in ops if f == 'hdx_file' and leaf(e.name) == 'write_all' and contains(e.args[1], lambda z: z.op == 'fld' and z.a[1] == 'bloom')]
            r.ok('header written', hw, 'sync reports success without writing the header [%s]' % txt(o))
            r.ok('filter written', bl, 'sync reports success without writing the bloom filter [%s]' % txt(o))
            wr = [(i, f) for i, e, f in ops if leaf(e.name) in ('write_all', 'write', 'set_len')]
            so = [i for i, e, f in ops if leaf(e.name) in SYNC and f == 'odx_file']
            sh = [i for i, e, f in ops if leaf(e.name) in SYNC and f == 'hdx_file']
            if r.ok('overflow file synced', so, 'sync reports success without forcing the overflow file to disk') and r.ok('index file synced', sh, 'sync reports success without forcing the index file to disk'):
                r.ok('synced after the last write', all(i < sh[-1] for i, f in wr if f == 'hdx_file') and all(i < so[-1] for i, f in wr if f == 'odx_file'), 'a file is written after it was forced to disk')
        n or r.undec.append('sync never succeeds')

    HEAVY = ('split_one_bucket', 'expand_buckets', 'save_to_bucket_buffer', 'save_to_bucket', 'next_bucket_element', 'fetch_position', 'remove_bucket', 'save_bucket_cache', 'write_header', 'accrue', 'contains')

    def light(pat):
        return r.outs(bodyre(r, pat), opaque=HEAVY, **OWN)

    with r.section('dirty marker'):
        for b in bodies(r, H):
            nm = b.path.split('::')[-1]
            if nm in ('sync', 'drop', 'fmt') or 'open' in nm or '{closure' in b.path:
                continue
            try:
                os_ = r.outs(b, opaque=tuple(h for h in HEAVY if h != nm), **OWN)
            except sa.TooManyPaths:
                continue
            for o in os_:
                for i, e in enumerate(o.events):
                    if e.k in ('lwrite', 'write') and e.args and e.args[0].op == 'fld' and e.args[0].a[1] == 'synced' and is_const(strip(e.args[1])):
                        r.ok('cleared by a sync only', not strip(e.args[1]).a[0], '%s marks the index clean' % nm)
        for o in light(H + ' as .*Index>::save$'):
            if o.exit != 'ret' or cond_of(o, fld(SELF, 'read_only'), True):
                continue
            mark = [i for i, e in enumerate(o.events) if e.k in ('lwrite', 'write') and e.args and e.args[0].op == 'fld' and e.args[0].a[1] == 'synced' and is_const(strip(e.args[1])) and not strip(e.args[1]).a[0]]
            chg = [i for i, e in ecalls(o, 'expand_buckets', 'save_to_bucket', 'save_to_bucket_buffer', 'accrue', 'insert', 'write_all')]
            k = okret(o)
            if chg or k is not False:
                r.ok('save marks the index dirty', mark and (not chg or mark[0] < chg[0]) or mark and k is not False, 'save changes the index without marking it dirty first [%s]' % txt(o))
        for o in light(H + '::set_data_file_length$'):
            st = o.state.get(1, SELF)
            v = fld(fld(st, 'header'), 'data_file_length')
            if v is not fld(fld(SELF, 'header'), 'data_file_length'):
                dirty = strip(fld(st, 'synced'))
                r.ok('header change marks the index dirty', is_const(dirty) and not dirty.a[0], 'set_data_file_length leaves the marker at %s' % show(dirty)[:60])

    with r.section('closing an index'):
        for o in r.outs(bodyre(r, H + ' as core::ops::drop::Drop>::drop$'), opaque=('save_bucket_cache', 'write_header', 'panicking'), **OWN):
            if o.exit != 'ret':
                continue
            if cond_of(o, fld(SELF, 'read_only'), True) or cond_of(o, SY, True):
                continue
            syn = [(i, fileof(e.args[0]) or fname(e.args[0])) for i, e in ecalls(o, *SYNC)]
            sv = [i for i, e in ecalls(o, 'save_bucket_cache', 'drain')]
            wh = [i for i, e in ecalls(o, 'write_header')]
            so, sh = [i for i, f in syn if f == 'odx_file'], [i for i, f in syn if f == 'hdx_file']
            r.ok('dirty buckets written', sv, 'an unsynced index is dropped without writing the dirty buckets [%s]' % txt(o))
            if r.ok('files synced', so and sh, 'an unsynced index is dropped without forcing its files to disk [%s]' % txt(o)):
                r.ok('overflow records first', so[-1] < sh[-1], 'the index file is forced to disk before the overflow file it points into')
                r.ok('written before it is synced', all(i < sh[-1] for i in sv + wh), 'the index is forced to disk before it is written')


def fname(t):
    return next((z.a[1] for z in subterms(t) if z.op == 'fld' and z.a[1] in FILES), None)


def rng(t):
    """(lo, hi) of an index(buffer, range) call, ints or None"""
    q = t.a[1][1]
    if q.op != 'agg':
        return None
    lo, hi = 0, None
    d = {k: v for k, v in q.a[2]} if len(q.a) > 2 and isinstance(q.a[2], tuple) else {}
    for k in ('start', 'end'):
        v = fld(q, k)
        if v.op == 'fld' and v.a[0] is q:
            continue
        n = amount(v)
        if not isinstance(n, int):
            return None
        if k == 'start':
            lo = n
        else:
            hi = n
    return lo, hi


def src_range(x):
    """the range of a buffer a value was copied from"""
    for _ in range(20):
        x = view(x) if x.op not in ('upd!',) else x
        if x.op == 'upd!' and leaf(x.a[1]) in ('copy_from_slice', 'clone_from_slice'):
            x = x.a[4]
        elif x.op == 'call' and leaf(x.a[0]) in ('index', 'index_mut') and len(x.a[1]) == 2:
            return rng(x)
        elif x.op == 'call' and leaf(x.a[0]) in ('try_into', 'try_from', 'into', 'from', 'unwrap', 'expect', 'to_vec', 'clone', 'as_ref', 'borrow', 'deref') and x.a[1]:
            x = x.a[1][0]
        elif x.op in ('fld', 'as', 'cast', 'ref'):
            x = x.a[0] if x.op != 'cast' else x.a[1]
        elif x.op == 'agg' and x.a[0] == 'array' and x.a[-1]:
            ix = [src_at(v) for k, v in x.a[-1]]
            if None in ix or any(b != a + 1 for a, b in zip(ix, ix[1:])):
                return None
            return ix[0], ix[-1] + 1
        else:
            return None
    return None


def src_at(v):
    """the place of a single byte"""
    v = strip(v)
    if v.op == 'idx' and amount(v.a[1]) is not None:
        return amount(v.a[1])
    return None


def loaded(t):
    """(lo, hi, byte order or None) of a decoded header field"""
    while t.op == 'cast':
        t = t.a[1]
    if t.op == 'call' and re.fullmatch(r'from_(le|be|ne)_bytes', leaf(t.a[0])):
        g = src_range(t.a[1][0])
        return g and (g[0], g[1], leaf(t.a[0])[5:7])
    g = src_range(t)
    return g and (g[0], g[1], None)


def written(o, what=None):
    """[(lo, hi, order, value term)] of the copies into the header buffer, before the checksum"""
    out = []
    for i, e in enumerate(o.events):
        if e.k == 'call' and leaf(e.name) in ('copy_from_slice', 'clone_from_slice') and len(e.args) == 2:
            d = next((z for z in subterms(e.args[0]) if z.op == 'call' and leaf(z.a[0]) == 'index_mut'), None)
            d = strip(e.args[0]) if strip(e.args[0]).op == 'call' and leaf(strip(e.args[0]).a[0]) == 'index_mut' else d
            g = rng(d) if d is not None else None
            v = strip(e.args[1])
            if v.op == 'call' and re.fullmatch(r'to_(le|be|ne)_bytes', leaf(v.a[0])):
                out.append((g and g[0], g and g[1], leaf(v.a[0])[3:5], v.a[1][0]))
            else:
                out.append((g and g[0], g and g[1], None, v))
    return out


def eqs(conds):
    for c in conds:
        if c[0] == 'cmp' and c[1] == 'eq':
            yield c[2], c[3]
            yield c[3], c[2]


NEWS = {'pack header': r'archive::pack::DataHeader::new$', 'digest index header': r'digest_index::index::HdxHeader::from_data_header$',
        'overflow header': r'digest_index::odx_header::OdxHeader::new$', 'position index header': r'position_index::index::PdxHeader::from_data_header$'}
PARAMS = ('version', 'uid', 'appnum')
OPENS = {'pack header': r'archive::pack::PackInner::open_data_file$', 'digest index header': r'digest_index::index::HdxIndex::open_hdx_file$',
         'overflow header': r'digest_index::odx_header::OdxHeader::open_odx_file$', 'position index header': r'position_index::index::PositionIndex::open_pdx_file$'}


@check('C20', ['tn_storage'])
def c20(r):
    m = BModel()
    types = {}
    for what, lp, wp in HEADS:
        with r.section(what):
            maps = set()
            new = [o for o in r.outs(bodyre(r, NEWS[what]), sides=False, opaque=('gen_uid',)) if o.exit == 'ret']
            tconst = strip(fld(new[0].ret, 'type_id')) if new else None
            if tconst is None or not isc(tconst):
                r.undec.append('type of new headers: %s' % (show(tconst)[:80] if tconst is not None else None))
            # written
            W = {}
            for o in r.outs(bodyre(r, wp), sides=False, opaque=('add_crc32',)):
                if o.exit != 'ret' or okret(o) is False:
                    continue
                for lo, hi, order, v in written(o):
                    f = next((z.a[1] for z in spine(v) if z.op == 'fld' and root(z).op == 'param'), None)
                    while f is None and v.op == 'cast':
                        v = v.a[1]
                        f = next((z.a[1] for z in spine(v) if z.op == 'fld' and root(z).op == 'param'), None)
                    if f is None and is_const(v):
                        cs = [c for c in o.conds if c[0] in ('is', 'isin') and strip(c[1]).op == 'fld']
                        f = strip(cs[0][1]).a[1] if cs else None
                        if f:
                            W.setdefault(f, set()).add((lo, hi, order))
                            W.setdefault((f, 'values'), set()).add((variant(cs[0]), v.a[0]))
                            continue
                    if f is None or lo is None:
                        if not (v.op == 'call' and hashed(v) is not None or contains(v, lambda z: z.op == 'call' and leaf(z.a[0]) == 'finalize')):
                            r.undec.append('%s: written %s' % (what, show(v)[:80]))
                        continue
                    W.setdefault(f, set()).add((lo, hi, order))
            spans = {}
            for f, gs in W.items():
                if isinstance(f, str):
                    r.ok('one place per field', len(gs) == 1, '%s is written at %s' % (f, sorted(map(str, gs))))
                    spans[f] = sorted(gs, key=str)[0]
            order_ = sorted((g[0], g[1], f) for f, g in spans.items() if isinstance(g[0], int) and isinstance(g[1], int))
            for (a, b, f), (c, d, g) in zip(order_, order_[1:]):
                r.ok('fields do not overlap', b <= c, '%s at %d..%d and %s at %d..%d overlap' % (f, a, b, g, c, d))
            # read
            V = {}
            n = 0
            src_op = ('gen_uid', 'check_crc')
            for o in r.outs(m.of(bodyre(r, lp)), sides=False, opaque=src_op):
                if okret(o) is None and o.exit == 'ret':
                    r.undec.append('%s returns %s' % (what, show(o.ret)[:80]))
                if okret(o) is not True or m.infeasible(o.conds):
                    continue
                n += 1
                h = payload(o.ret, 'Ok')
                if h.op != 'agg':
                    r.undec.append('%s: header %s' % (what, show(h)[:80]))
                    continue
                for f, g in spans.items():
                    v = fld(h, f)
                    if strip(v).op == 'agg' and strip(v).a[1] and not strip(v).a[2:][0]:
                        for a, b in eqs(o.conds):
                            if isc(b) and loaded(a):
                                if loaded(a)[:2] == g[:2]:
                                    V.setdefault(f, set()).add((strip(v).a[1], b.a[0]))
                                    r.ok('read where it is written', loaded(a) == g, '%s is written at %s and read at %s' % (f, g, loaded(a)))
                        continue
                    got = loaded(v)
                    if got is None:
                        (r.ok('read from the file', False, '%s is not read from the file: %s' % (f, show(v)[:80])) if is_const(strip(v)) and f != 'type_id' else r.undec.append('%s: %s is %s' % (what, f, show(v)[:100])) if not (f == 'type_id' and strip(v) is tconst) else None)
                        continue
                    r.ok('read where it is written', got == g, '%s is written at %s and read at %s' % (f, g, got))
                tg = spans.get('type_id')
                okt = [b for a, b in eqs(o.conds) if isc(b) and loaded(a) and tg and loaded(a)[:2] == tg[:2]]
                r.ok('type checked', okt, 'a file of any type is accepted [%s]' % txt(o))
                if okt and tconst is not None:
                    r.ok('type checked is the type written', any(b is tconst or b.a[0] == tconst.a[0] for b in okt), 'written is %s, checked is %s' % (show(tconst), [show(b) for b in okt]))
                if what == 'pack header':
                    ug = spans.get('uid')
                    U = [b for a, b in eqs(o.conds) if loaded(a) and ug and loaded(a)[:2] == ug[:2]]
                    U = [b for b in U if not isc(strip(b))]
                    if r.ok('store identity checked', U, 'a file of another store is accepted [%s]' % txt(o)):
                        gen = [z for b in U for z in subterms(b) if z.op == 'call' and leaf(z.a[0]) == 'gen_uid']
                        nu = strip(fld(new[0].ret, 'uid'))
                        if gen and nu.op == 'call' and leaf(nu.a[0]) == 'gen_uid':
                            r.ok('store identity is the one written', all(param_of(g.a[1][0]) == 2 for g in gen) and param_of(nu.a[1][0]) == 1, 'checked against %s, written %s' % ([show(g)[:60] for g in gen], show(nu)[:60]))
            if not n:
                r.undec.append(what + ': never accepted')
            for f, vs in V.items():
                w = {x for x in W.get((f, 'values'), set())}
                if w:
                    num = {}
                    for var, c in vs:
                        num.setdefault(c, set()).add(var)
                    for var, c in w:
                        if var is not None and c in num:
                            r.ok('values read as written', num[c] == {var}, '%s %s is written as %s, which reads as %s' % (f, var, c, sorted(num[c])))
                        elif var is not None:
                            r.ok('values read as written', False, '%s %s is written as %s, which is refused on reading' % (f, var, c))

    with r.section('numbers of the compressions'):
        num = {}
        for o in r.outs(bodyre(r, r'archive::pack::PackCompression::to_u32$'), sides=False):
            v = next((variant(c) for c in o.conds if variant(c) is not None and isinstance(variant(c), str)), None)
            if o.exit == 'ret' and is_const(o.ret):
                num.setdefault(o.ret.a[0], set()).add(v)
        for o in r.outs(bodyre(r, r'archive::pack::PackCompression::from_u32$'), sides=False):
            k = okret(o)
            if k is not True:
                if k is None and o.exit == 'ret':
                    r.undec.append('from_u32 returns %s' % show(o.ret)[:100])
                continue
            if any(c[0] != 'cmp' or c[1] not in ('eq', 'ne') for c in o.conds if c[0] != 'isin'):
                r.undec.append('from_u32: %s' % txt(o)[:150])
                continue
            es = [b.a[0] for a, b in eqs(o.conds) if is_const(b)]
            r.ok('unknown compressions refused', any(x in num for x in es), 'a number no compression is written as is accepted [%s]' % txt(o))
    with r.section('store identity'):
        for o in r.outs(bodyre(r, r'archive::pack::DataHeader::gen_uid$'), sides=False, opaque=('write', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_u128', 'write_usize', 'finish')):
            fed = [a for e in o.events if e.k == 'call' and leaf(e.name).startswith(('write', 'update', 'hash')) for a in e.args[1:] if contains(a, lambda z: param_of(z) == 1)]
            if not fed:
                r.ok('made from the whole store number', not any(e.k == 'call' and leaf(e.name) == 'finish' for e in o.events), 'the store identity does not depend on the store number')
            for a in fed:
                r.ok('made from the whole store number', not contains(a, lambda z: z.op == 'cast' and z.a[0] in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32', 'bool') and contains(z, lambda q: param_of(q) == 1)), 'only a part of the store number is in the store identity: %s' % show(a)[:80])
    with r.section('scans'):
        want = [strip(fld(q.ret, 'appnum')) for q in r.outs(bodyre(r, NEWS['pack header']), sides=False, opaque=('gen_uid',)) if q.exit == 'ret']
        for what, pat in (('scan', r'pack_iter::PackIter::open$'), ('async scan', r'pack_iter::AsyncPackIter::open::\{closure#0\}$')):
            for o in r.outs(bodyre(r, pat), sides=False, opaque=('load_header', 'load_header_async')):
                if okret(o) is not True:
                    continue
                ld = ecalls(o, 'load_header', 'load_header_async')
                if not r.ok(what + ': header verified', ld and (ok_of(o, ld[0][1].res) is not False), 'a scan starts without reading the header [%s]' % txt(o)):
                    continue
                hit = [y for x, y in eqs(o.conds) if is_const(y) and strip(x).op == 'fld' and strip(x).a[1] == 'appnum' and contains(x, lambda z: z.op == 'call' and leaf(z.a[0]).startswith('load_header'))]
                odd = [c for c in o.conds if 'appnum' in showc(c) and c[0] != 'cmp']
                if odd:
                    r.undec.append('%s: %s' % (what, showc(odd[0])[:100]))
                elif want and is_const(want[0]):
                    r.ok(what + ': application verified', any(y.a[0] == want[0].a[0] for y in hit), 'a file of another application is scanned [%s]' % txt(o))
    with r.section('contents kept'):
        for b in bodies(r, r'storage::archive::'):
            if any(re.search(p, b.path) for p in OPENS.values()) or b.path.endswith('data_file::DataFile::open'):
                for o in r.outs(b, sides=False, opaque=('load_header', 'write_header', 'fsync_directory', 'add_crc32', 'hash_one', 'set_len', 'repeat')):
                    for i, e in ecalls(o, 'truncate'):
                        if 'OpenOptions' in e.name and len(e.args) > 1:
                            r.ok('opening never truncates', is_const(e.args[1]) and not e.args[1].a[0], 'a file is opened with truncate(%s)' % show(e.args[1])[:80])

    for what, pat in OPENS.items():
        with r.section('opening: ' + what):
            n = 0
            b = bodyre(r, pat)
            for o in r.outs(b, sides=False, opaque=('load_header', 'write_header', 'open_odx_file', 'DataFile::open', 'fsync_directory', 'add_crc32', 'hash_one', 'set_len', 'repeat')):
                ld = ecalls(o, 'load_header')
                wr = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('write_header', 'write_all', 'write', 'set_len', 'write_at') and e.args and 'OpenOptions' not in e.name and not contains(e.args[0], lambda z: z.op == 'call' and leaf(z.a[0]) == 'open_odx_file')]
                if not ld:
                    if wr:
                        i = wr[0][0]
                        cs = o.before(i)
                        empty = any(is_const(y) and y.a[0] == 0 and not isinstance(y.a[0], bool) for x, y in eqs(cs)) or any(c[0] == 'true' and c[2] and contains(c[1], lambda z: z.op == 'call' and leaf(z.a[0]) == 'is_empty') for c in cs)
                        r.ok('a header is written to an empty file only', empty, 'a header is written over a file that may hold data [%s]' % ' & '.join(showc(c) for c in cs)[-200:])
                    elif okret(o) is True:
                        r.ok('header verified', False, 'the file is opened without reading its header [%s]' % txt(o))
                    continue
                H = payload(ld[0][1].res, 'Ok')

                def missing(conds):
                    out = []
                    ps = {}
                    for f in PARAMS:
                        hv = fld(H, f)
                        if what == 'pack header':
                            if f == 'uid':
                                if not any(param_of(a) == 2 for a in ld[0][1].args):
                                    out.append('uid')
                                continue
                            if f == 'version':
                                pv = next((z for c in conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if param_of(z) == 5 and z.op == 'param'), None)
                                if pv is None or not m.entails(conds, padd(m.P(pv), m.P(hv), -1)):
                                    out.append(f)
                                continue
                            want = [strip(fld(q.ret, 'appnum')) for q in r.outs(bodyre(r, NEWS[what]), sides=False, opaque=('gen_uid',)) if q.exit == 'ret']
                            if not any(strip(x) is strip(hv) and is_const(y) and y.a[0] == want[0].a[0] for x, y in eqs(conds)):
                                out.append(f)
                            continue
                        good = False
                        for x, y in eqs(conds):
                            if strip(x) is strip(hv):
                                y = strip(y)
                                good = good or y.op == 'fld' and y.a[1] == f and root(y).op == 'param' or y.op == 'param' and param_of(y) == 1 + PARAMS.index(f)
                        if not good:
                            out.append(f)
                    if what == 'digest index header':
                        for f in ('bucket_size', 'bucket_elements'):
                            if not any(strip(x) is strip(fld(H, f)) and not contains(y, lambda z: z is H) for x, y in eqs(conds)):
                                out.append(f)
                        if not any(strip(x) is strip(fld(H, 'pepper')) and contains(y, lambda z: z is strip(fld(H, 'salt')) or z is fld(H, 'salt')) for x, y in eqs(conds)):
                            out.append('pepper')
                    return out
                if ok_of(o, ld[0][1].res) is False:
                    r.ok('untouched when refused', not [1 for i, e in wr if i > ld[0][0]], 'a file whose header is damaged is written')
                    r.ok('damaged header refused', okret(o) is not True, 'a file whose header is damaged is opened')
                    continue
                if okret(o) is True:
                    n += 1
                    for f in missing(o.conds):
                        r.ok('%s verified' % f, False, 'a file is opened whose %s was not checked [%s]' % (f, txt(o)))
                    r.ok('verified', True)
                for i, e in wr:
                    if i > ld[0][0]:
                        mi = missing(o.before(i))
                        r.ok('untouched until verified', not mi, '%s before the %s was checked' % (leaf(e.name), mi))
                        break
                    r.ok('untouched until verified', False, '%s before the header was read' % leaf(e.name))
            if not n:
                r.undec.append('never opens an existing file')
            if what == 'digest index header':
                for o in r.outs(b, sides=False, opaque=('load_header', 'write_header', 'open_odx_file', 'DataFile::open', 'fsync_directory', 'add_crc32', 'hash_one', 'set_len', 'repeat')):
                    for i, e in ecalls(o, 'open_odx_file'):
                        names = [next((z.a[1] for z in spine(strip(a)) if z.op == 'fld'), None) for a in e.args[:3]]
                        r.ok('overflow file checked against the same store', names == list(PARAMS), 'the overflow file is opened with %s' % [show(a)[:40] for a in e.args[:3]])


def variant(c):
    if c[0] == 'is':
        if not c[3] and c[2] in ('Ok', 'Some'):
            return 'None'
        return c[2] if c[3] else ('not', c[2])
    return None


def isc(t):
    return t.op == 'c'


OWN = {"own": (1,), "sides": False}


class Slots:
    """arithmetic of the position index: B entry size, L = E + W file length (on disk + pending), K the slot, N the number of entries"""
    HDR = None

    def __init__(self, key=None):
        self.key = key

    def at(self, *k):
        return {tuple(sorted(k, key=str)): 1}

    def P(self, t):
        t = self.unwrap(t)
        if is_const(t):
            return {(): t.a[0]} if t.a[0] else {}
        if t.op == 'cast' and (t.a[0] in ('u64', 'usize', 'i64', 'u128', 'i128')):
            return self.P(t.a[1])
        if t.op == 'call':
            n, a = leaf(t.a[0]), t.a[1]
            if n == 'buffer_len':
                return self.at('B')
            if n == 'len' and len(a) == 1 and contains(a[0], lambda z: z.op == 'fld' and z.a[1] == 'write_buffer'):
                return self.at('W')
            if n == 'size_of':
                return self.at(show(t))
            if n in ('saturating_sub', 'wrapping_sub', 'saturating_add', 'wrapping_add', 'saturating_mul', 'wrapping_mul') and len(a) == 2:
                return self.P(mkbin({'sub': 'Sub', 'add': 'Add', 'mul': 'Mul'}[n[-3:]], a[0], a[1]))
        if t.op == 'fld' and t.a[1] == 'data_file_end':
            return self.at('E')
        if t.op == 'len' and contains(t.a[0], lambda z: z.op == 'fld' and z.a[1] == 'write_buffer'):
            return self.at('W')
        if self.key is not None and param_of(t) == self.key:
            return self.at('K')
        if t.op == 'bin':
            op, a, b = t.a
            if op in ('Add', 'Sub'):
                return padd(self.P(a), self.P(b), 1 if op == 'Add' else -1)
            if op == 'Mul':
                return pmul(self.P(a), self.P(b))
            if op in ('Div', 'Rem'):
                p, q = self.P(a), self.P(b)
                if q == {('B',): 1}:
                    return self.div(p) if op == 'Div' else padd(p, pmul(self.div(p), q), -1)
        if t.op == 'un' and t.a[0] == 'Neg' or t.op == 'neg':
            x = t.a[-1]
            return padd({}, self.P(x), -1)
        if t.op == 'fld' and param_of(strip(t.a[0])) == 1:
            return self.at('self.' + t.a[1])
        if t.op == 'len' or t.op == 'call' and leaf(t.a[0]) == 'len':
            x = strip(t.a[0] if t.op == 'len' else t.a[1][0])
            if x.op == 'fld' and param_of(strip(x.a[0])) == 1:
                return self.at('len ' + x.a[1])
        if t.op == 'param':
            return self.at('param%s' % param_of(t))
        return self.at(('t', t.id))

    def unwrap(self, t):
        t = view(t) if t.op != 'upd!' else t
        s = strip(t)
        if s.op == 'fld' and s.a[1] == '0' and s.a[0].op == 'as':
            c = strip(s.a[0].a[0])
            if c.op == 'call' and leaf(c.a[0]) in ('checked_sub', 'checked_add', 'checked_mul'):
                return mkbin({'sub': 'Sub', 'add': 'Add', 'mul': 'Mul'}[leaf(c.a[0])[-3:]], c.a[1][0], c.a[1][1])
            if c.op == 'call' and leaf(c.a[0]) in ('try_from', 'try_into'):
                return self.unwrap(c.a[1][0])
        return s

    def div(self, p):
        """floor(p / B), whole multiples of B taken out"""
        whole, rest = {}, {}
        for k, v in p.items():
            if 'B' in k:
                l = list(k)
                l.remove('B')
                whole[tuple(l)] = v
            else:
                rest[k] = v
        if not rest:
            return whole
        key = ('div', tuple(sorted(rest.items(), key=str)))
        return padd(whole, {(key,): 1})


def pmul(p, q):
    r = {}
    for k, v in p.items():
        for k2, v2 in q.items():
            m = tuple(sorted(k + k2, key=str))
            r[m] = r.get(m, 0) + v * v2
    return {k: v for k, v in r.items() if v}


def mkbin(op, a, b):
    return binop(op, a, b)


def ge0(S, conds):
    """the polynomials the conditions make >= 0, and those they make zero"""
    ge, eq = [], []
    for c in conds:
        if c[0] == 'cmp':
            d = padd(S.P(c[3]), S.P(c[2]), -1)
            if c[1] == 'eq':
                eq += [d]
                ge += [d, padd({}, d, -1)]
            elif c[1] == 'le':
                ge.append(d)
            elif c[1] == 'lt':
                ge.append(padd(d, {(): -1}))
        elif c[0] == 'true' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'is_multiple_of' and c[2]:
            a, b = strip(c[1]).a[1][:2]
            p = S.P(a)
            eq.append(padd(p, pmul(S.div(p), S.P(b)), -1))
    return ge, eq


def nonneg(p):
    """every coefficient is nonnegative (all atoms are sizes)"""
    return all(v >= 0 for v in p.values())


def const_diff(p, f):
    d = padd(p, f, -1)
    return all(not k for k in d) and d.get((), 0) >= 0


@check('C21', ['tn_storage'])
def c21(r):
    X = r'archive::position_index::index::'
    HDR = None
    for o in r.outs(bodyre(r, X + r'PdxHeader::load_header$'), sides=False):
        for i, e in ecalls(o, 'read_exact'):
            n = next((z for z in subterms(e.args[1]) if z.op == 'rep'), None)
            HDR = int(n.a[1]) if n is not None and not hasattr(n.a[1], 'op') else HDR
    if HDR is None:
        r.undec.append('size of the header')
        return
    B, K, L = {('B',): 1}, {('K',): 1}, {('E',): 1, ('W',): 1}
    body = padd(L, {(): -HDR})
    N = Slots().div(body)

    def in_range(S, conds):
        """K < N: True when entailed, False when no comparison of K is made, None otherwise"""
        ge, eq = ge0(S, conds)
        want = padd(padd(N, K, -1), {(): -1})
        want2 = padd(body, pmul(padd(K, {(): 1}), B), -1)
        if any(const_diff(want, f) or const_diff(want2, f) for f in ge):
            return True
        fs = [f for f in ge if any('K' in k for k in f)]
        if fs and all(const_diff(f, want) or const_diff(f, want2) for f in fs):
            return False    # every bound on the slot admits the slot after the last
        return None if fs else False

    def shp(p):
        return ' + '.join('%s%s' % ('' if v == 1 and k else '%d*' % v if k else v, '*'.join('N' if isinstance(x, tuple) and x[0] == 'div' else str(x) for x in k)) for k, v in sorted(p.items(), key=str)) or '0'

    def same(inst, p, want, msg):
        if p == want:
            return r.ok(inst, True)
        if any(isinstance(x, tuple) and x[0] == 't' for k in p for x in k):
            r.undec.append('%s: %s' % (inst, shp(p)))
            return None
        return r.ok(inst, False, msg % (shp(p), shp(want)))

    def bytes_of(S, t):
        """(base buffer, offset, length) of a slice term; length None: to the end"""
        t = strip(t)
        lo, hi = {}, None
        while t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut', 'deref', 'deref_mut', 'as_ref', 'as_slice', 'as_mut_slice', 'as_mut') or t.op in ('ref',):
            if t.op == 'call' and leaf(t.a[0]) in ('index', 'index_mut'):
                q = t.a[1][1]
                s, e = fld(q, 'start'), fld(q, 'end')
                s = None if s.op == 'fld' and s.a[0] is q else S.P(s)
                e = None if e.op == 'fld' and e.a[0] is q else S.P(e)
                if e is not None:
                    hi = padd(lo, e)
                lo = padd(lo, s or {})
            t = strip(t.a[1][0]) if t.op == 'call' else strip(t.a[0])
        while t.op == 'upd!':
            t = t.a[0]
        if hi is None:
            n = None
            if t.op == 'call' and leaf(t.a[0]) == 'from_elem':
                n = S.P(t.a[1][1])
            elif t.op == 'rep' and not hasattr(t.a[1], 'op'):
                n = {(): int(t.a[1])}
            return t, lo, None if n is None else padd(n, lo, -1)
        return t, lo, padd(hi, lo, -1)

    def onpdx(e):
        return e.args and next((True for z in spine(e.args[0]) if z.op == 'fld' and z.a[1] == 'pdx_file'), False)

    with r.section('length'):
        S = Slots()
        for o in r.outs(bodyre(r, X + r'PositionIndex::len$'), sides=False):
            if o.exit == 'ret':
                same('whole entries after the header, on disk or pending', S.P(o.ret), N, 'the number of entries is %s, not %s')

    with r.section('save'):
        S = Slots(2)
        n = 0
        for o in r.outs(bodyre(r, X + r'PositionIndex as .*Index>::save$'), **OWN):
            if o.exit != 'ret':
                continue
            wr = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('write_all', 'write', 'set_len', 'write_vectored') and onpdx(e)]
            ge, eq = ge0(S, o.conds)
            d = padd(N, K, -1)
            exact = any(x == d or x == padd({}, d, -1) for x in eq) or {k for f in ge for k in [tuple(sorted(f.items(), key=str))]} >= {tuple(sorted(d.items(), key=str)), tuple(sorted(padd({}, d, -1).items(), key=str))}
            if okret(o) is not False:
                n += 1
                r.ok('next free slot only', exact, 'an entry is accepted without the slot being the next free one [%s]' % txt(o))
                if not r.ok('one entry written', len(wr) == 1 and leaf(wr[0][1].name) == 'write_all', 'save performs %s' % [leaf(e.name) for i, e in wr]):
                    continue
                if not r.ok('write failures reported', ok_of(o, wr[0][1].res) is True, 'save reports success when the entry was not written [%s]' % txt(o)):
                    continue
                enc = ecalls(o, 'encode')
                if not enc:
                    r.undec.append('save: no encode')
                    continue
                eb, elo, en = bytes_of(S, enc[-1][1].args[1])
                wb, wlo, wn = bytes_of(S, wr[0][1].args[1])
                r.ok('value encoded is the value given', param_of(enc[-1][1].args[0]) == 3, 'the entry encoded is %s' % show(enc[-1][1].args[0])[:80])
                if wn is None:
                    r.undec.append('save: %s' % show(wr[0][1].args[1])[:100])
                else:
                    r.ok('bytes written are the encoded entry', eb is wb and elo == wlo and enc[-1][0] < wr[0][0], 'encoded into %s at %s, written from %s at %s' % (show(eb)[:60], shp(elo), show(wb)[:60], shp(wlo)))
                    same('an entry is one entry long', wn, B, '%s bytes are written, not %s')
            elif wr and not any(ok_of(o, e.res) is False for i, e in wr):
                r.ok('refused save leaves the index', False, 'a refused save writes to the index [%s]' % txt(o))
            elif not wr:
                cs = any(x == d or x == padd({}, d, -1) for x in eq)
                r.ok('next free slot accepted', not cs, 'the next free slot is refused [%s]' % txt(o))
        n or r.undec.append('save never succeeds')

    with r.section('load'):
        S = Slots(2)
        n = 0
        for o in r.outs(bodyre(r, X + r'PositionIndex as .*Index>::load$'), **OWN):
            if o.exit != 'ret':
                continue
            rd = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('read_exact', 'read') and onpdx(e)]
            if okret(o) is False:
                if in_range(S, o.conds) is True:
                    r.ok('stored entry found', any(ok_of(o, e.res) is False for i, e in rd), 'an existing entry is refused [%s]' % txt(o))
                continue
            n += 1
            q = in_range(S, o.conds)
            if q is None:
                r.undec.append('load: %s' % txt(o))
            elif not r.ok('slot below the length only', q, 'an entry is returned without comparing the slot with the length [%s]' % txt(o)):
                continue
            if not r.ok('one read', len(rd) == 1 and leaf(rd[0][1].name) == 'read_exact', 'load performs %s' % [leaf(e.name) for i, e in rd]):
                continue
            e = rd[0][1]
            r.ok('read failures reported', ok_of(o, e.res) is True, 'load returns an entry although the read failed [%s]' % txt(o))
            f = e.args[0]
            same('read at the slot', S.P(fld(f, 'seek_pos')), padd({(): HDR}, pmul(K, B)), 'the entry is read at %s, not at %s')
            rb, rlo, rn = bytes_of(S, e.args[1])
            if rn is not None:
                same('an entry is one entry long', rn, B, '%s bytes are read, not %s')
            dec = next((z for z in subterms(o.ret) if z.op == 'call' and leaf(z.a[0]) == 'decode'), None)
            if dec is None:
                r.undec.append('load: %s' % show(o.ret)[:100])
            else:
                db, dlo, dn = bytes_of(S, dec.a[1][0])
                r.ok('bytes decoded are the bytes read', db is rb and dlo == rlo and (dn is None or dn == rn), 'decoded from %s at %s, read into %s at %s' % (show(db)[:60], shp(dlo), show(rb)[:60], shp(rlo)))
        n or r.undec.append('load never succeeds')

    with r.section('truncate'):
        S = Slots(2)
        n = 0
        for o in r.outs(bodyre(r, X + r'PositionIndex::truncate_to_index$'), opaque=('set_len',), **OWN):
            if o.exit != 'ret':
                continue
            sl = [(i, e) for i, e in ecalls(o, 'set_len')]
            if sl:
                n += 1
                q = in_range(S, o.conds)
                if q is None:
                    r.undec.append('truncate: %s' % txt(o))
                else:
                    r.ok('never grows the index', q, 'the file is resized without comparing the slot with the length [%s]' % txt(o))
                same('keeps the entries up to the slot', S.P(sl[0][1].args[1]), padd({(): HDR}, pmul(padd(K, {(): 1}), B)), 'the file is cut to %s, not to %s')
                if okret(o) is True:
                    r.ok('failure reported', ok_of(o, sl[0][1].res) is True, 'truncation reports success although it failed')
            elif okret(o) is not False:
                ge, eq = ge0(S, o.conds)
                past = any(const_diff(padd(K, N, -1), f) or const_diff(padd(padd(K, {(): 1}), N, -1), f) for f in ge)
                r.ok('entries after the slot are cut', past, 'truncation keeps later entries [%s]' % txt(o))
        n or r.undec.append('truncate never cuts')
        for o in r.outs(bodyre(r, X + r'PositionIndex::truncate_all$'), opaque=('set_len',), **OWN):
            if o.exit == 'ret' and okret(o) is not False:
                sl = ecalls(o, 'set_len')
                if r.ok('truncate_all cuts', sl, 'truncate_all reports success without cutting the file'):
                    same('truncate_all keeps the header', S.P(sl[0][1].args[1]), {(): HDR}, 'the file is cut to %s, not to %s')

    with r.section('open'):
        n = 0
        S = Slots()
        for o in r.outs(bodyre(r, X + r'PositionIndex::open_pdx_file$'), opaque=('load_header', 'write_header', 'DataFile::open', 'fsync_directory', 'set_len'), sides=False):
            if okret(o) is not True or not ecalls(o, 'load_header'):
                continue
            n += 1
            sl = [(i, e) for i, e in ecalls(o, 'set_len') if 'File::set_len' in e.name]
            ge, eq = ge0(S, o.conds)
            al = padd(body, pmul(N, B), -1)
            aligned = any(x == al or x == padd({}, al, -1) for x in eq)
            if sl:
                ro = next((z for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'param' and param_of(z) == 4), None)
                r.ok('cut off when writable only', ro is None or not cond_of(o, ro, True), 'a read-only index is cut')
                same('cut to whole entries', S.P(sl[-1][1].args[1]), padd({(): HDR}, pmul(N, B)), 'the torn tail is cut to %s, not to %s')
                r.ok('cut reported', ok_of(o, sl[-1][1].res) is True, 'opening succeeds although the torn entry was not cut off')
            else:
                r.ok('torn entry never kept', aligned, 'an index with a torn last entry is opened as it is [%s]' % txt(o))
        n or r.undec.append('open')

    with r.section('entry encoding'):
        encs = bodies(r, r' as .*PosIndexValue>::encode$')
        for b in encs:
            ty = b.path.rsplit('::', 1)[0]
            d = next((x for x in bodies(r, r'PosIndexValue>::decode$') if x.path.rsplit('::', 1)[0] == ty), None)
            l = next((x for x in bodies(r, r'PosIndexValue>::buffer_len$') if x.path.rsplit('::', 1)[0] == ty), None)
            if d is None or l is None:
                r.undec.append('encoding of ' + ty)
                continue
            size = [strip(o.ret) for o in r.outs(l, sides=False) if o.exit == 'ret']
            size = size[0].a[0] if len(size) == 1 and is_const(size[0]) else None
            if size is None:
                r.undec.append('entry size of ' + ty)
                continue

            def place(g, n=8):
                return None if g is None else (g[0] or 0, size if g[1] is None else g[1])
            W = {}
            for o in r.outs(b, sides=False):
                if o.exit != 'ret':
                    continue
                for i, e in enumerate(o.events):
                    if e.k == 'call' and leaf(e.name) in ('copy_from_slice', 'clone_from_slice'):
                        v = strip(e.args[1])
                        dst = strip(e.args[0])
                        g = rng(dst) if dst.op == 'call' and leaf(dst.a[0]) == 'index_mut' else (0, None) if param_of(dst) == 2 else None
                        if v.op == 'call' and re.fullmatch(r'to_(le|be|ne)_bytes', leaf(v.a[0])) and g:
                            f = shpath(v.a[1][0]) if param_of(root(strip(v.a[1][0]))) == 1 else ('', 'checksum') if contains(v, lambda z: z.op == 'call' and leaf(z.a[0]) == 'finalize') else None
                            if f is None:
                                r.undec.append('encode: %s' % show(v)[:80])
                                continue
                            W.setdefault(f, set()).add(place(g) + (leaf(v.a[0])[3:5],))
                        else:
                            r.undec.append('encode: %s' % show(v)[:80])
            tot = 0
            for f, gs in W.items():
                r.ok('one place per part', len(gs) == 1, '%s of %s is written at %s' % (f, ty, sorted(gs)))
                tot += sum(g[1] - g[0] for g in gs)
            r.ok('parts fill the entry', tot == size, 'the parts of an entry take %d of %d bytes' % (tot, size))
            gl = sorted(g for gs in W.values() for g in gs)
            r.ok('parts do not overlap', all(a[1] <= c[0] for a, c in zip(gl, gl[1:])), 'parts of an entry overlap: %s' % gl)
            for o in r.outs(d, sides=False):
                if okret(o) is not True:
                    continue
                v = payload(o.ret, 'Ok')
                for f, gs in W.items():
                    x = v
                    if f[:1] == ('',):
                        at = [loaded(a) for a, b in eqs(o.conds) if loaded(a) and contains(b, lambda z: z.op == 'call' and leaf(z.a[0]) == 'finalize')]
                        r.ok('checksum verified', any(g in gs for g in at), 'an entry of %s is returned without verifying its checksum at %s [%s]' % (ty, sorted(gs), txt(o)))
                        continue
                    for k in f:
                        x = fld(x, k)
                    y = strip(x)
                    while y.op == 'cast':
                        y = y.a[1]
                    if y.op == 'call' and re.fullmatch(r'from_(le|be|ne)_bytes', leaf(y.a[0])):
                        g = place(src_any(y.a[1][0]))
                        if g is None:
                            r.undec.append('decode: %s' % show(y)[:80])
                        else:
                            r.ok('decoded where it is encoded', (g + (leaf(y.a[0])[5:7],)) in gs, 'part %s of %s is written at %s and read at %s %s' % ('.'.join(f), ty, sorted(gs), g, leaf(y.a[0])[5:7]))
                    else:
                        r.undec.append('decode: %s' % show(y)[:80])
        encs or r.undec.append('no entry encoding')

    with r.section('iteration'):
        S = Slots()
        for nm in ('iter', 'rev_iter'):
            for o in r.outs(bodyre(r, X + r'PositionIndex::%s$' % nm), **OWN):
                if okret(o) is not True:
                    continue
                rd = [(i, e) for i, e in enumerate(o.events) if e.k == 'call' and leaf(e.name) in ('read_exact', 'read') and onpdx(e)]
                if len(rd) != 1:
                    r.undec.append('%s: reads' % nm)
                    continue
                rb, rlo, rn = bytes_of(S, rd[0][1].args[1])
                ge, eq = ge0(S, o.conds)
                lenp = next((S.P(z) for c in o.conds for x in c[1:] if hasattr(x, 'op') for z in subterms(x) if z.op == 'param' and param_of(z) == 2), None)
                cands = [N] + ([lenp] if lenp else [])
                cnt = next((c for c in cands if rn == pmul(c, B)), None)
                mn = next((z for z in subterms(rd[0][1].args[1]) if z.op == 'call' and leaf(z.a[0]) == 'min' and len(z.a[1]) == 2), None)
                if cnt is None and mn is not None and rn == pmul(S.P(mn), B):
                    ab = [S.P(x) for x in mn.a[1]]
                    r.ok('never more than asked or stored', N in ab and any(param_of(strip(x)) == 2 for x in mn.a[1]), '%s reads %s entries' % (nm, show(mn)[:200]))
                    cnt, lenp = S.P(mn), None
                if cnt is None:
                    r.undec.append('%s reads %s' % (nm, shp(rn) if rn else None))
                    continue
                if lenp is not None:
                    other = lenp if cnt == N else N
                    r.ok('never more than asked or stored', any(const_diff(padd(other, cnt, -1), f) for f in ge), '%s reads %s entries although %s may be fewer [%s]' % (nm, shp(cnt), shp(other), txt(o)))
                seek = S.P(fld(rd[0][1].args[0], 'seek_pos'))
                same('%s reads its entries' % nm, seek, {(): HDR} if nm == 'iter' else padd(L, pmul(cnt, B), -1), nm + ' reads at %s, not at %s')
                it = payload(o.ret, 'Ok')
                if it.op == 'agg':
                    rev = strip(fld(it, 'reverse'))
                    if is_const(rev):
                        r.ok('direction', bool(rev.a[0]) == (nm != 'iter'), '%s walks in the wrong direction' % nm)
        S = Slots()
        for o in r.outs(bodyre(r, X + r'PositionIter as .*Iterator>::next$'), **OWN):
            if o.exit != 'ret':
                continue
            st = o.state.get(1, SELF)
            if cond_of(o, fld(SELF, 'done'), True):
                r.ok('ends', not contains(o.ret, lambda z: z.op == 'call' and leaf(z.a[0]) == 'decode'), 'an entry is returned after the last one')
                continue
            src = [e.args[1] for i, e in ecalls(o, 'copy_from_slice')] or [a for i, e in ecalls(o, 'decode') for a in e.args[:1]]
            if not src or not cond_of(o, fld(SELF, 'done'), False):
                r.undec.append('next: %s' % txt(o))
                continue
            pos = fld(SELF, 'pos')
            b, lo, n = bytes_of(S, src[0])
            same('entry at the position', lo, S.P(pos), 'the entry is taken at %s, not at %s')
            if n is not None:
                same('an entry is one entry long', n, B, 'the entry is %s bytes, not %s')
            fwd = cond_of(o, fld(SELF, 'reverse'), False)
            dn = strip(fld(st, 'done'))
            if dn.op == 'bin' and dn.a[0] in ('Ge', 'Gt', 'Le', 'Lt', 'Eq'):
                op, a, c = dn.a
                d = padd(S.P(a), S.P(c), -1) if op in ('Ge', 'Gt', 'Eq') else padd(S.P(c), S.P(a), -1)
                if op in ('Gt', 'Lt'):
                    d = padd(d, {(): -1})
                p = S.P(pos)
                if fwd:
                    good = d == padd(padd(p, B), {('len data',): 1}, -1) and op != 'Eq'
                else:
                    good = op == 'Eq' and d == p or op != 'Eq' and d in (padd(padd(B, p, -1), {(): -1}), padd({}, p, -1))
                r.ok('ends after the last entry', good, 'iteration %s ends when %s' % ('forward' if fwd else 'backward', show(dn)[:160]))
            elif is_const(dn):
                r.ok('ends after the last entry', False, 'iteration %s leaves done at %s' % ('forward' if fwd else 'backward', show(dn)))
            else:
                r.undec.append('next: done is %s' % show(dn)[:100])
            same('steps by one entry', S.P(fld(st, 'pos')), padd(S.P(pos), B, 1 if fwd else -1), 'the next position is %s, not %s')


def src_any(x):
    g = src_range(x)
    if g is not None:
        return g
    for _ in range(8):
        x = strip(x)
        if x.op == 'upd!' and leaf(x.a[1]) in ('copy_from_slice', 'clone_from_slice'):
            x = x.a[4]
        elif x.op == 'param':
            return (0, None)
        elif x.op == 'call' and leaf(x.a[0]) in ('try_into', 'unwrap', 'expect', 'as_ref', 'deref', 'to_vec') and x.a[1]:
            x = x.a[1][0]
        elif x.op in ('fld', 'as'):
            x = x.a[0]
        else:
            return None


def shpath(t):
    out = []
    t = strip(t)
    while t.op == 'fld':
        out.append(t.a[1])
        t = strip(t.a[0])
    return tuple(reversed(out))
