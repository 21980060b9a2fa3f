"""Byte contents and lengths of buffers and files as pieces of earlier contents; linear facts on a path."""
import itertools
from .terms import *
from .lib import view, is_full
from .arith import pkey

GROW = {'write_all', 'extend_from_slice', 'extend', 'append', 'put_slice'}
SAME = {'reserve', 'reserve_exact', 'shrink_to_fit', 'flush', 'sync_all', 'sync_data', 'seek', 'rewind', 'read_exact', 'read', 'metadata',
        'try_clone', 'by_ref', 'as_mut', 'index_mut', 'as_mut_slice', 'set_permissions', 'stream_position'}
_AT = {}


class Unread(Exception):
    """a construct the content model does not know"""


def padd(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        r[m] = r.get(m, 0) + k * v
    return {m: v for m, v in r.items() if v}


def _atom(key):
    return {(_AT.setdefault(key, (key[0], len(_AT))),): 1}


_INV = {}


class Model:
    """sizes: {location term: term of its length}; fields that are positive"""

    def __init__(self, sizes=None, positive=lambda t: False):
        self.sizes, self.positive = sizes or {}, positive
        self.sat = {}        # atom -> (kind, a, b)

    # ------------------------------------------------------------ integers
    def P(self, t):
        if is_const(t):
            return {(): int(t.a[0])} if t.a[0] else {}
        if t.op == 'cast':
            if t.a[0] in ('i8', 'i16', 'i32', 'u8', 'u16') and not is_const(t.a[1]) and t.a[1].op != 'discr':
                return {(('val', strip(t).id),): 1}         # may lose bits
            return self.P(t.a[1])
        if t.op == 'fld' and t.a[1] == '0':
            x = t.a[0]
            if x.op == 'agg':
                return self.P(fld(x, '0'))
            if x.op == 'as' and x.a[1] in ('Ok', 'Some') and x.a[0].op == 'call' and leaf(x.a[0].a[0]) in ('try_from', 'try_into', 'checked_add', 'checked_sub', 'checked_mul'):
                c = x.a[0]
                if leaf(c.a[0]).startswith('checked_'):
                    return self.P(mk('bin', leaf(c.a[0])[8:].capitalize(), *c.a[1][:2]))
                return self.P(c.a[1][0])
            if x.op == 'bin' and x.a[0].endswith('WithOverflow'):
                return self.P(mk('bin', x.a[0][:-12], x.a[1], x.a[2]))
        if t.op == 'bin':
            op, a, b = t.a
            if op in ('Add', 'Sub'):
                return padd(self.P(a), self.P(b), 1 if op == 'Add' else -1)
            if op == 'Mul':
                p, q = self.P(a), self.P(b)
                r = {}
                for k, v in p.items():
                    for k2, v2 in q.items():
                        m = tuple(sorted(k + k2, key=str))
                        r[m] = r.get(m, 0) + v * v2
                return {k: v for k, v in r.items() if v}
            return _atom((op, pkey(self.P(a)), pkey(self.P(b))))
        if t.op == 'len' or t.op == 'call' and leaf(t.a[0]) == 'len' and len(t.a[1]) == 1:
            return self.length(t.a[0] if t.op == 'len' else t.a[1][0])
        if t.op == 'call' and leaf(t.a[0]) in ('saturating_sub', 'min', 'max') and len(t.a[1]) == 2:
            k = leaf(t.a[0])
            a, b = self.P(t.a[1][0]), self.P(t.a[1][1])
            ks = (pkey(a), pkey(b)) if k == 'saturating_sub' else tuple(sorted((pkey(a), pkey(b)), key=str))
            p = _atom((k,) + ks)
            self.sat[list(p)[0]] = (k, a, b, t.a[1][1])
            return p
        if t.op == 'call' and leaf(t.a[0]) in ('from', 'into') and len(t.a[1]) == 1:
            return self.P(t.a[1][0])
        if t.op == 'call' and leaf(t.a[0]) in ('saturating_add', 'wrapping_add') and len(t.a[1]) == 2:
            return padd(self.P(t.a[1][0]), self.P(t.a[1][1]))
        t = strip(t)
        return {(('t', t.id),): 1}

    def eq(self, a, b):
        return pkey(a) == pkey(b)

    # ------------------------------------------------------------ contents
    def pieces(self, t):
        """[(base, lo, hi)] with hi None for the end of the base"""
        t = view(t)
        if t.op == 'upd!':
            n = leaf(t.a[1])
            rest = t.a[4:]
            if n in GROW and rest:
                return self.pieces(t.a[0]) + self.pieces(rest[0])
            if n == 'push' and rest:
                return self.pieces(t.a[0]) + [(mk('byte', rest[0]), {}, {(): 1})]
            if n == 'clear' or n == 'take' and 'mem' in t.a[1]:
                return []
            if n == 'drain' and rest and is_full(rest[0]):
                return []
            if n in ('truncate', 'set_len') and rest:
                return self.cut(self.pieces(t.a[0]), {}, self.P(rest[0]))
            if n == 'resize' and rest:
                return self.cut(self.pieces(t.a[0]), {}, self.P(rest[0]))
            if n == 'replace' and 'mem' in t.a[1] and rest:
                return self.pieces(rest[0])
            if n in SAME:
                return self.pieces(t.a[0])
            raise Unread(show(t)[:150])
        if t.op == 'call' and t.a[1]:
            n = leaf(t.a[0])
            if n in ('index', 'index_mut') and len(t.a[1]) == 2 and t.a[1][1].op == 'agg':
                lo, hi = self.range(t.a[1][1])
                ps = self.pieces(t.a[1][0])
                return self.cut(ps, lo, hi)
            if n in ('take', 'replace') and 'mem' in t.a[0]:
                return self.pieces(t.a[1][0])
            if n in ('new', 'with_capacity') and 'Vec' in t.a[0]:
                return []
        if t.op == 'call' and (leaf(t.a[0]) == 'default' or leaf(t.a[0]) == 'new' and 'Vec' in t.a[0]) and not t.a[1]:
            return []
        if t.op == 'fld' and str(t.a[1]) in ('0', '1'):
            h = strip(t.a[0])
            if h.op == 'call' and leaf(h.a[0]) in ('split_at', 'split_at_mut') and len(h.a[1]) == 2:
                ps, n = self.pieces(h.a[1][0]), self.P(h.a[1][1])
                return self.cut(ps, {}, n) if str(t.a[1]) == '0' else self.cut(ps, n, self.length(h.a[1][0]))
        if t.op == 'phi' or t.op == 'upd':
            raise Unread(show(t)[:150])
        return [(t, {}, None)]

    def range(self, a):
        n = leaf(a.a[0])
        fs = dict(a.a[2])
        lo = self.P(fs['start']) if 'start' in fs else {}
        hi = self.P(fs['end']) if 'end' in fs else None
        if n in ('RangeInclusive', 'RangeToInclusive') and hi is not None:
            hi = padd(hi, {(): 1})
        return lo, hi

    def plen(self, p):
        base, lo, hi = p
        if hi is None:
            hi = self.P(self.sizes[base]) if base in self.sizes else {(('len', strip(base).id),): 1}
        return padd(hi, lo, -1)

    def length(self, t):
        r = {}
        try:
            ps = self.pieces(t)
        except Unread:
            return {(('len', strip(t).id),): 1}
        for p in ps:
            r = padd(r, self.plen(p))
        return r

    def total(self, ps):
        r = {}
        for p in ps:
            r = padd(r, self.plen(p))
        return r

    def cut(self, ps, lo, hi):
        if len(ps) == 1 and not lo and hi is not None and ps[0][0].op != 'byte':
            b, l, h = ps[0]
            return [(b, l, padd(l, hi))]
        if len(ps) == 1 and ps[0][0].op != 'byte':
            b, l, h = ps[0]
            return [(b, padd(l, lo), h if hi is None else padd(l, hi))]
        sums = [{}]
        for q in ps:
            sums.append(padd(sums[-1], self.plen(q)))
        a = next((k for k, x in enumerate(sums) if self.eq(x, lo)), None)
        z = len(ps) if hi is None else next((k for k, x in enumerate(sums) if self.eq(x, hi)), None)
        if a is not None and z is not None and a <= z:
            return list(ps[a:z])                         # at piece boundaries
        return [(('cut', tuple(self.key(ps)), pkey(lo), None if hi is None else pkey(hi)), {}, self.plen_cut(ps, lo, hi))]

    def plen_cut(self, ps, lo, hi):
        return padd(self.total(ps) if hi is None else hi, lo, -1)

    def key(self, ps):
        """canonical form: adjacent pieces of one base are merged, empty ones dropped"""
        out = []
        for b, l, h in ps:
            e = self.plen((b, l, h))
            if not e:
                continue
            hh = padd(l, e)
            bk = b if isinstance(b, tuple) else strip(b).id
            if out and out[-1][0] == bk and self.eq(out[-1][2], l):
                out[-1][2] = hh
            else:
                out.append([bk, l, hh])
        return [(b, pkey(l), pkey(h)) for b, l, h in out]

    # ------------------------------------------------------------ linear facts
    def facts(self, conds):
        fs = []
        for c in conds:
            if c[0] == 'cmp' and c[1] in ('le', 'lt', 'eq', 'ne'):
                d = padd(self.P(c[3]), self.P(c[2]), -1)
                if c[1] == 'ne':
                    if is_const(c[3]) and not c[3].a[0] or is_const(c[2]) and not c[2].a[0]:
                        x = self.P(c[2]) if is_const(c[3]) else self.P(c[3])
                        fs.append(padd(x, {(): -1}))       # a length that is not zero
                    continue
                fs.append(padd(d, {(): -1}) if c[1] == 'lt' else d)
                if c[1] == 'eq':
                    fs.append({k: -v for k, v in d.items()})
            elif c[0] == 'is' and c[2] in ('Some', 'Ok') and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'checked_sub':
                a, b = strip(c[1]).a[1][:2]
                d = padd(self.P(a), self.P(b), -1)
                fs.append(d if c[3] else padd({(): -1}, d, -1))
            elif c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) == 'is_empty' and len(c[1].a[1]) == 1:
                x = self.length(c[1].a[1][0])
                fs.append({k: -v for k, v in x.items()} if c[2] else padd(x, {(): -1}))
        return fs

    def entails(self, conds, goal, depth=3):
        """goal >= 0 on every state with conds (sound, incomplete)"""
        base = self.facts(conds)
        ats = [(m, x) for m, x in self.sat.items()][:4]
        for cs in itertools.product((0, 1), repeat=len(ats)):
            fs = list(base)
            for (m, (k, a, b, bt)), c in zip(ats, cs):
                p, d = {m: 1}, padd(a, b, -1)
                neg = lambda x: {q: -v for q, v in x.items()}
                if k == 'saturating_sub':
                    e = padd(p, d, -1) if c else p
                    fs += [e, neg(e), d if c else neg(d)]
                    if not c and self.positive(bt):
                        fs.append(padd(b, {(): -1}))
                    if c and self.positive(bt):
                        fs.append(padd(padd(a, p, -1), {(): -1}))
                else:
                    e = padd(p, a if c else b, -1)
                    fs += [e, neg(e), neg(d) if c == (k == 'min') else d]
            fs = [f for f in fs if f]
            if not self._ent(fs, goal, depth) and not self._ent(fs, {(): -1}, 3):
                return False
        return True

    def _ent(self, fs, goal, depth):
        for k in range(depth + 1):
            for ch in itertools.combinations(fs, k):
                r = goal
                for f in ch:
                    r = padd(r, f, -1)
                if all(v >= 0 for v in r.values()):
                    return True
        return False

    def infeasible(self, conds):
        return self.entails(conds, {(): -1})
