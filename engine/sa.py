"""Interprocedural abstract interpretation over MIR facts.

For an entry function it builds an *exploded control-flow graph*: nodes are (call-chain, basic block,
partition) where the partition is the finite knowledge about which enum variant / boolean constant the
live locals hold (ESP-style property simulation); workspace callees, closures and awaited async bodies
are spliced in.  Locals carry value-numbering terms; differing terms are joined into opaque phis.
Nodes carry ordered events (calls, memory writes, drops, constructions); edges carry normalised
branch conditions.  No path is solved and nothing is executed.
"""
import heapq, json, re
from collections import deque
from .facts import path_match, norm_path
from .terms import *

MAXDEPTH = 14

# ------------------------------------------------------------------ per-body preparation
NOISE_MACROS = {'trace', 'debug', 'info', 'warn', 'error', 'event', 'debug_assert', 'debug_assert_eq',
                'debug_assert_ne', 'println', 'eprintln', 'print', 'dbg', 'trace_span', 'debug_span', 'info_span',
                'error_span', 'warn_span', 'span'}


def succs_of(x):
    k = x['k']
    if k == 'switch':
        return [b for _, b in x['arms']] + [x['else']]
    if 'to' in x:
        return [x['to']]
    return []


_FCMP = {'Lt': ('below', False), 'Gt': ('below', True), 'Le': ('at_most', False), 'Ge': ('at_most', True)}


class Prep:
    """CFG helpers for one body: liveness, noise skipping, unreachable arms."""

    def __init__(self, body):
        d = body.d
        self.d = d
        bbs = d['bbs']
        n = len(bbs)
        self.n = n
        self.succ = [[] for _ in range(n)]
        self.unreach = set()
        for i, b in enumerate(bbs):
            if b.get('c'):
                continue
            self.succ[i] = succs_of(b['x'])
            if b['x']['k'] == 'unreach' and not b['s']:
                self.unreach.add(i)
        self.pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                self.pred[s].append(i)
        self._rpo()
        self._noise()
        self._live()
        self.addr = set()
        for b in bbs:
            for s in b.get('s', ()):
                if 'r' in s and s['r'][0] == 'ref' and s['r'][1] in ('m', 'raw'):
                    p = s['r'][2]
                    if not any(e[0] == '*' for e in p[1]):
                        self.addr.add(p[0])
        self.disc_locals = set()
        for i, l in enumerate(d['locals']):
            self.disc_locals.add(i)

    def _rpo(self):
        self.rpo = {}
        seen = {0}
        out = []
        st = [(0, iter(self.succ[0]))]
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(x)
                st.pop()
        for i, x in enumerate(reversed(out)):
            self.rpo[x] = i

    def _noise(self):
        bbs = self.d['bbs']
        self.skip = {}
        noisy = set()
        for i, b in enumerate(bbs):
            if b.get('c'):
                continue
            m = b['x'].get('m')
            if m and any(x in NOISE_MACROS for x in m):
                noisy.add(i)
        if not noisy:
            return
        # ipdom over blocks that reach a return
        ret = [i for i, b in enumerate(bbs) if not b.get('c') and b['x']['k'] == 'ret']
        can = set(ret)
        st = list(ret)
        while st:
            x = st.pop()
            for p in self.pred[x]:
                if p not in can:
                    can.add(p)
                    st.append(p)
        for i in noisy:
            if bbs[i]['x']['k'] != 'switch' or i in self.skip:
                continue
            if any(m.startswith('~') for m in bbs[i]['x'].get('m', [])[:1]):
                continue
            # region: forward through blocks until a block all exits share
            ip = self._ipdom(i, can)
            if ip is not None:
                self.skip[i] = ip

    def _ipdom(self, h, can):
        # first block that every path from h (to return) passes: iterative intersection of reachable-without-x
        order = []
        seen = {h}
        q = deque([h])
        while q:
            x = q.popleft()
            order.append(x)
            for s in self.succ[x]:
                if s in can and s not in seen:
                    seen.add(s)
                    q.append(s)
        rets = [x for x in order if self.d['bbs'][x]['x']['k'] == 'ret']
        if not rets:
            return None
        for cnd in order[1:]:
            # does removing cnd disconnect h from all returns?
            seen2 = {h}
            st = [h]
            hit = False
            while st and not hit:
                x = st.pop()
                for s in self.succ[x]:
                    if s == cnd or s not in can or s in seen2:
                        continue
                    if self.d['bbs'][s]['x']['k'] == 'ret':
                        hit = True
                        break
                    seen2.add(s)
                    st.append(s)
            if not hit:
                return cnd
        return None

    def _live(self):
        bbs = self.d['bbs']
        use = [None] * self.n
        deff = [None] * self.n

        def op_locals(o, acc):
            p = o.get('cp') or o.get('mv')
            if p:
                acc.add(p[0])
                for e in p[1]:
                    if e[0] == 'i':
                        acc.add(e[1])

        def pl(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    acc.add(e[1])

        for i, b in enumerate(bbs):
            u, dd = set(), set()
            if not b.get('c'):
                def U(acc):
                    for x in acc:
                        if x not in dd:
                            u.add(x)
                for s in b['s']:
                    if 'sd' in s:
                        dd.add(s['sd'])
                        continue
                    acc = set()
                    r = s['r']
                    k = r[0]
                    if k in ('use', 'rep'):
                        op_locals(r[1], acc)
                    elif k in ('ref',):
                        pl(r[2], acc)
                    elif k == 'discr':
                        pl(r[1], acc)
                    elif k == 'cast':
                        op_locals(r[2], acc)
                    elif k == 'bin':
                        op_locals(r[2], acc)
                        op_locals(r[3], acc)
                    elif k == 'un':
                        op_locals(r[2], acc)
                    elif k == 'agg':
                        for o in r[3]:
                            op_locals(o, acc)
                    if s['d'][1]:
                        pl(s['d'], acc)
                    U(acc)
                    if not s['d'][1]:
                        dd.add(s['d'][0])
                x = b['x']
                acc = set()
                if x['k'] == 'switch':
                    op_locals(x['on'], acc)
                elif x['k'] == 'call':
                    op_locals(x['f'], acc)
                    for o in x['a']:
                        op_locals(o, acc)
                    if x['d'][1]:
                        pl(x['d'], acc)
                elif x['k'] == 'drop':
                    pl(x['p'], acc)
                elif x['k'] == 'assert':
                    op_locals(x['c'], acc)
                elif x['k'] == 'ret':
                    acc.add(0)
                U(acc)
                if x['k'] == 'call' and not x['d'][1]:
                    dd.add(x['d'][0])
            use[i], deff[i] = u, dd
        live_in = [set() for _ in range(self.n)]
        live_out = [set() for _ in range(self.n)]
        ch = True
        work = deque(range(self.n - 1, -1, -1))
        inq = set(work)
        while work:
            i = work.popleft()
            inq.discard(i)
            o = set()
            for s in self.succ[i]:
                o |= live_in[s]
            live_out[i] = o
            ni = use[i] | (o - deff[i])
            if ni != live_in[i]:
                live_in[i] = ni
                for p in self.pred[i]:
                    if p not in inq:
                        inq.add(p)
                        work.append(p)
        self.live_in, self.live_out = live_in, live_out


def prep(body):
    p = body._an.get('prep')
    if p is None:
        p = body._an['prep'] = Prep(body)
    return p


# ------------------------------------------------------------------ models
IDENT = {
    'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut#b', 'clone', 'to_owned', 'into_future', 'cloned', 'copied',
    'as_slice', 'as_mut_slice', 'as_str', 'as_bytes', 'to_vec', 'as_deref', 'as_deref_mut', 'into_boxed_slice',
    'into_vec', 'to_string#s', 'into_owned', 'into_inner#p', 'get_mut#p', 'as_path', 'to_path_buf', 'as_mut_str',
    'into_bytes', 'into_boxed_str', 'into_string', 'from_ref', 'into_iter#i', 'by_ref', 'get_ref', 'pin', 'black_box', 'to_ref',
}
_STD = ('core::', 'std::', 'alloc::')
_PRIM = re.compile(r'^(\[T\]|\[T;_\]|str|bool|char|[ui](8|16|32|64|128|size)|f32|f64)::')
IDENT_FULL = [
    'core::pin::Pin::new', 'core::pin::Pin::new_unchecked', 'alloc::boxed::Box::new', 'alloc::sync::Arc::new', 'alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new',
    'alloc::rc::Rc::new', 'alloc::boxed::Box::pin', 'alloc::borrow::Cow::into_owned', 'alloc::string::String::from',
    'alloc::str::to_string', 'core::convert::identity', 'core::mem::ManuallyDrop::new',
    'core::array::as_slice', 'core::pin::Pin::get_mut', 'core::pin::Pin::as_mut', 'core::pin::Pin::get_unchecked_mut',
    'core::pin::Pin::into_inner', 'core::iter::traits::iterator::Iterator::by_ref',
]
CONVERT = {'core::convert::Into::into', 'core::convert::From::from'}
LOCKS = {
    'std::sync::poison::mutex::Mutex::lock': 'std', 'std::sync::poison::rwlock::RwLock::read': 'std',
    'std::sync::poison::rwlock::RwLock::write': 'std', 'std::sync::mutex::Mutex::lock': 'std',
    'std::sync::Mutex::lock': 'std',
    'lock_api::mutex::Mutex::lock': 'pl', 'lock_api::rwlock::RwLock::read': 'pl', 'lock_api::rwlock::RwLock::write': 'pl',
    'tokio::sync::mutex::Mutex::lock': 'pl', 'tokio::sync::rwlock::RwLock::read': 'pl',
    'tokio::sync::rwlock::RwLock::write': 'pl', 'core::cell::RefCell::borrow_mut': 'pl', 'core::cell::RefCell::borrow': 'pl',
}
MOVED = mk('moved')


class Ev:
    __slots__ = ('k', 'name', 'decl', 'args', 'res', 'where', 'info', 'line')

    def __init__(self, k, name, args=(), res=None, where=None, decl=None, info=None, line=0):
        self.k, self.name, self.args, self.res = k, name, args, res
        self.where, self.decl, self.info, self.line = where, decl, info, line

    def __repr__(self):
        if self.k == 'call':
            return 'call %s(%s)' % (short(self.name), ', '.join(map(show, self.args)))
        if self.k == 'write':
            return 'write %s := %s' % (show(self.args[0]), show(self.args[1]))
        return '%s %s %s' % (self.k, self.name and short(self.name), ', '.join(map(show, self.args)))


class Node:
    __slots__ = ('key', 'env', 'ref', 'events', 'succ', 'exit', 'body', 'bb', 'ins', 'prio', 'visits', '_i')

    def __init__(self, key):
        self.key = key
        self.env = None
        self.ref = None
        self.events = []
        self.succ = []
        self.exit = None
        self.ins = {}
        self.visits = 0
        self._i = None


class Budget(Exception):
    pass


def ismatch(path, pats):
    return any(path_match(path, p) for p in pats)


class Graph:
    def __init__(self, facts, entry, opaque=(), inline=None, maxnodes=60000, args=None, maxdepth=MAXDEPTH, noinline_crates=(),
                 record_new=True, sides=True, own=()):
        self.F = facts
        self.own = tuple(own)      # parameters held by reference whose target is tracked as state of this function
        self.entry = entry if not isinstance(entry, str) else facts.one(entry)
        self.opaque = tuple(opaque)
        self.inline = inline
        self.maxnodes = maxnodes
        self.maxdepth = maxdepth
        self.noinline_crates = set(noinline_crates)
        self.nodes = {}
        self.frames = [None]
        self.frame_ix = {}
        self.inlined = set()
        self.opaque_hits = {}
        self.argterms = args
        self.record_new = record_new
        self.sides = sides
        self._run()

    # -------------------------------------------------------------- frames
    def frame(self, parent, bb, body, dest, cont, mode=None):
        k = (parent, bb, body.path, mode)
        ix = self.frame_ix.get(k)
        if ix is None:
            ix = len(self.frames)
            self.frame_ix[k] = ix
            depth = 0 if parent is None else self.frames[parent]['depth'] + 1
            chain = () if parent is None else self.frames[parent]['chain']
            self.frames.append({'parent': parent, 'bb': bb, 'body': body, 'dest': dest, 'cont': cont, 'depth': depth,
                                'chain': chain + (body.path,), 'mode': mode, 'prep': prep(body),
                                'prio': () if parent is None else self.frames[parent]['prio'] + (self.frames[parent]['prep'].rpo.get(bb[0], 0),)})
        return ix

    def _run(self):
        b = self.entry
        fr = self.frame(None, 0, b, None, None)
        env = {}
        d = b.d
        for i in range(1, d['argc'] + 1):
            l = d['locals'][i]
            nm = l.get('n') or 'arg%d' % i
            env[(fr, i)] = mk('param', i, nm)
        if self.argterms:
            for i, t in self.argterms.items():
                env[(fr, i)] = t
        if b.kind == 'Closure' and not (self.argterms and 1 in self.argterms):
            env[(fr, 1)] = mk('param', 1, '{env}')
        self.own = tuple(i for i in self.own if (fr, i) in env)
        for i in self.own:
            env[(fr, -i)] = env[(fr, i)]
            env[(fr, i)] = mk('lref', fr, -i, ())
        self.root = fr
        self.work = []
        self.inwork = set()
        self.seq = 0
        self.cur = 'entry'
        self.touched = set()
        self.entry_keys = [self._push(fr, 0, env, {})]
        self._commit()
        steps = 0
        while self.work:
            _, _, key = heapq.heappop(self.work)
            self.inwork.discard(key)
            steps += 1
            if steps > self.maxnodes * 20:
                raise Budget('%s: too many steps' % self.entry.path)
            node = self.nodes[key]
            self.cur = key
            for k, _ in node.succ:
                m = self.nodes[k]
                if key in m.ins:
                    del m.ins[key]
                    self.touched.add(k)
            self._process(node)
            self._commit()
        self.entry_node = self.nodes[self.entry_keys[0]]
        self._reach()

    def _reach(self):
        seen = {self.entry_node.key}
        st = [self.entry_node]
        while st:
            n = st.pop()
            for k, _ in n.succ:
                if k not in seen:
                    seen.add(k)
                    st.append(self.nodes[k])
        self.nodes = {k: n for k, n in self.nodes.items() if k in seen}

    # -------------------------------------------------------------- partition
    def _disc(self, t, d=0):
        o = t.op
        if o == 'agg':
            if t.a[1]:
                if d < 2 and len(t.a[2]) == 1:
                    x = self._disc(t.a[2][0][1], d + 1)
                    return (t.a[1], x) if x is not None else (t.a[1],)
                return (t.a[1],)
            if t.a[0] == 'tuple' and d < 2:
                xs = tuple(self._disc(v, d + 1) for _, v in t.a[2])
                if any(x is not None for x in xs):
                    return xs
            return None
        if o == 'c' and t.a[1] == 'bool':
            return t.a[0]
        if o == 'moved':
            return 'mv'
        if o == 'closure':
            return t.a[0]
        if o == 'guard':
            return 'guard'
        return None

    def _push(self, fr, bb, env, ref):
        f = self.frames[fr]
        p = f['prep']
        n = 0
        while bb in p.skip and n < 50:
            bb = p.skip[bb]
            n += 1
        live = p.live_in[bb]
        addr = p.addr
        e2 = {}
        disc = []
        for k, t in env.items():
            if k[0] == fr:
                l = k[1]
                if l not in live and l not in addr and l >= 0:
                    continue
                if t.op == 'moved' and l not in live:
                    continue
            e2[k] = t
            x = self._disc(t)
            if x is not None:
                if x == 'mv':
                    # only guards make moved-ness matter
                    if not self._guardty(k):
                        continue
                disc.append((k, x))
        key = (fr, bb, frozenset(disc))
        node = self.nodes.get(key)
        if node is None:
            if len(self.nodes) >= self.maxnodes:
                raise Budget('%s: exploded graph exceeds %d nodes' % (self.entry.path, self.maxnodes))
            node = Node(key)
            node.body = f['body']
            node.bb = bb
            node.prio = f['prio'] + (p.rpo.get(bb, 0),)
            self.nodes[key] = node
        src = self.cur
        node.ins.setdefault(src, []).append((e2, ref))
        self.touched.add(key)
        return key

    def _commit(self):
        """recompute the joined input of every touched node"""
        for key in self.touched:
            node = self.nodes[key]
            ins = [x for l in node.ins.values() for x in l]
            if not ins:
                continue
            if len(ins) == 1:
                env, ref = dict(ins[0][0]), dict(ins[0][1])
            else:
                bb = node.bb
                env = dict(ins[0][0])
                for e2, _ in ins[1:]:
                    for k, t in e2.items():
                        a = env.get(k)
                        if a is None:
                            env[k] = t
                        elif a is not t:
                            env[k] = self._join(a, t, k, (key[0], bb))
                ref = dict(ins[0][1])
                for _, r2 in ins[1:]:
                    for t in list(ref):
                        if r2.get(t) != ref[t]:
                            del ref[t]
            if node.env is None or env != node.env or ref != node.ref:
                node.visits += 1
                if node.visits > 60:
                    # force convergence: widen everything that still changes
                    if node.env is not None:
                        for k in env:
                            o = node.env.get(k)
                            if o is not None and o is not env[k]:
                                env[k] = mk('phi', (k, (key[0], node.bb), 0), self._lname(k))
                        ref = {}
                        if env == node.env and node.ref == {}:
                            continue
                    if node.visits > 400:
                        raise Budget('no convergence in ' + node.body.path)
                node.env, node.ref = env, ref
                self._enq(key)
        self.touched = set()

    def _guardty(self, k):
        return 'Guard' in self.frames[k[0]]['body'].d['locals'][k[1]]['tb']

    def _join(self, a, b, k, bb, d=0):
        if a is b:
            return a
        if a.op == 'phi' and a.a[0] == (k, bb, d):
            return a
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and d < 3 and \
                [n for n, _ in a.a[2]] == [n for n, _ in b.a[2]]:
            fs = []
            for (n, x), (_, y) in zip(a.a[2], b.a[2]):
                fs.append((n, self._join(x, y, (k, n), bb, d + 1)))
            return agg(a.a[0], a.a[1], fs)
        nm = self._lname(k)
        p = mk('phi', (k, bb, d), nm)
        self.phis.setdefault(p, set()).update(x for x in (a, b) if x is not p)
        return p

    phis = None

    def _lname(self, k):
        while isinstance(k[0], tuple):
            k = k[0]
        l = self.frames[k[0]]['body'].d['locals'][abs(k[1])]
        return l.get('n') or '_%d' % k[1]

    def _enq(self, key):
        if key not in self.inwork:
            self.inwork.add(key)
            self.seq = getattr(self, 'seq', 0) + 1
            heapq.heappush(self.work, (self.nodes[key].prio, self.seq, key))

    # -------------------------------------------------------------- places
    def _value(self, env, fr, local):
        t = env.get((fr, local))
        if t is None:
            return mk('undef', fr, local)
        return t

    def _loc(self, env, fr, place):
        """resolve to ('l', fr, local, path) or ('t', term)"""
        cur = ('l', fr, place[0], ())
        for e in place[1]:
            k = e[0]
            if cur[0] == 'l':
                if k == '*':
                    t = self._rd(env, cur)
                    cur = self._deref(t)
                elif k == 'f':
                    cur = ('l', cur[1], cur[2], cur[3] + (('f', e[2]),))
                elif k == 'd':
                    cur = ('l', cur[1], cur[2], cur[3] + (('d', e[2]),))
                elif k == 'i':
                    cur = ('l', cur[1], cur[2], cur[3] + (('i', self._value(env, fr, e[1])),))
                elif k == 'ci':
                    cur = ('l', cur[1], cur[2], cur[3] + (('i', const(e[1] if not e[2] else -e[1], 'usize')),))
                else:
                    cur = ('t', mk('slice', self._rd(env, cur), *[x for x in e[1:]]))
            else:
                t = cur[1]
                if k == '*':
                    cur = self._deref(t)
                elif k == 'f':
                    cur = ('t', fld(t, e[2]))
                elif k == 'd':
                    cur = ('t', dcast(t, e[2]))
                elif k == 'i':
                    cur = ('t', mk('idx', t, self._value(env, fr, e[1])))
                elif k == 'ci':
                    cur = ('t', mk('idx', t, const(e[1] if not e[2] else -e[1], 'usize')))
                else:
                    cur = ('t', mk('slice', t, *[x for x in e[1:]]))
        return cur

    def _deref(self, t):
        if t.op == 'lref':
            return ('l', t.a[0], t.a[1], t.a[2])
        if t.op == 'guard':
            return ('t', t.a[0])
        return ('t', t)

    def _rd(self, env, loc):
        if loc[0] == 't':
            return loc[1]
        t = self._value(env, loc[1], loc[2])
        for e in loc[3]:
            if e[0] == 'f':
                if t.op == 'lref':
                    t = self._rd(env, ('l',) + t.a)
                t = fld(t, e[1])
            elif e[0] == 'd':
                t = dcast(t, e[1])
            else:
                t = mk('idx', t, e[1])
        return t

    def _wr(self, env, loc, val, node, line):
        if loc[0] == 't':
            node.events.append(Ev('write', None, (loc[1], val), where=node.body, line=line))
            return
        _, fr, l, path = loc
        if path:
            base = self._value(env, fr, l)
            env[(fr, l)] = self._upd(base, path, val)
            node.events.append(Ev('lwrite', None, (self._rdpath(mk('local', self._lname((fr, l))), path), val), where=node.body,
                                  line=line, info=base))
        else:
            env[(fr, l)] = val

    def _rdpath(self, t, path):
        for e in path:
            t = fld(t, e[1]) if e[0] == 'f' else dcast(t, e[1]) if e[0] == 'd' else mk('idx', t, e[1])
        return t

    def _upd(self, base, path, val):
        if not path:
            return val
        e = path[0]
        if base.op == 'undef':
            base = agg('?', '', ())
        if e[0] == 'f':
            return upd(base, e[1], self._upd(fld(base, e[1]), path[1:], val))
        if e[0] == 'd':
            inner = dcast(base, e[1])
            if inner is base:
                return self._upd(base, path[1:], val)
            return mk('upd', base, 'variant ' + e[1], self._upd(inner, path[1:], val))
        return mk('upd', base, 'elem', val)

    # -------------------------------------------------------------- operands
    def _op(self, env, fr, o):
        p = o.get('cp')
        if p is None:
            p = o.get('mv')
            if p is not None:
                loc = self._loc(env, fr, p)
                t = self._rd(env, loc)
                if not p[1]:
                    self.moved.append((fr, p[0]))
                return t
            return self._const(o['c'])
        return self._rd(env, self._loc(env, fr, p))

    def _const(self, c):
        if 'decl' in c:
            return mk('fn', self.F.by_uid.get(c.get('fu')) or c.get('fn') or c['decl'], c['decl'], c.get('self', ''))
        if 'str' in c:
            return mk('str', c['str'])
        ty = c['ty']
        if 'v' in c:
            if 'txt' in c and ty in ('f64', 'f32'):
                return mk('c', c['txt'], ty)
            return const(int(c['v']), ty)
        if 'def' in c:
            # an associated/unevaluated const
            if 'txt' in c and not c['txt'].startswith(('<', 'Self')) and '::' not in c['txt'][:2]:
                return mk('c', c['txt'], ty)
            return mk('cdef', c['def'], ty)
        if ty == '()':
            return UNIT
        if ty.endswith('str') and c.get('txt', '').startswith('"'):
            try:
                return mk('str', json.loads(c['txt']))
            except ValueError:
                return mk('str', c['txt'][1:-1])
        x = _LIT.match(c.get('txt', ''))
        if x and x.group(2) == ty:
            return const(int(x.group(1)), ty)
        return mk('c', c.get('txt', '?'), ty)

    def _opty(self, node, o):
        c = o.get('c')
        if c is not None:
            return c.get('ty')
        p = o.get('cp') or o.get('mv')
        return node.body.d['locals'][p[0]]['ty'] if not p[1] else None

    def _rv(self, env, fr, r, node, line, dty):
        k = r[0]
        if k == 'use':
            return self._op(env, fr, r[1])
        if k == 'ref':
            loc = self._loc(env, fr, r[2])
            if r[1] in ('m', 'raw') and loc[0] == 'l':
                if loc[3] == ():
                    v = env.get((loc[1], loc[2]))
                    if v is not None and v.op == 'lref' and False:
                        return v
                return mk('lref', loc[1], loc[2], loc[3])
            return self._rd(env, loc)
        if k == 'bin':
            if r[1] in _FCMP and any(self._opty(node, o) in ('f64', 'f32') for o in r[2:4]):
                # comparisons of floating-point numbers have no complementary comparison
                n, sw = _FCMP[r[1]]
                x, y = self._op(env, fr, r[2]), self._op(env, fr, r[3])
                return call('f64::' + n, (y, x) if sw else (x, y))
            return binop(r[1], self._op(env, fr, r[2]), self._op(env, fr, r[3]))
        if k == 'un':
            return unop(r[1], self._op(env, fr, r[2]))
        if k == 'cast':
            t = self._op(env, fr, r[2])
            if r[1] in ('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype'):
                return t
            if is_const(t):
                return const(t.a[0], r[3])
            return mk('cast', r[3], t)
        if k == 'discr':
            t = self._rd(env, self._loc(env, fr, r[1]))
            vs = tuple(tuple(x) for x in r[3]) if len(r) > 3 else ()
            return mk('discr', t, r[2], vs)
        if k == 'agg':
            ops = [self._op(env, fr, o) for o in r[3]]
            if r[1] == 'closure':
                return mk('closure', self.F.by_uid.get(r[5], r[2]) if len(r) > 5 else r[2], tuple(zip(r[4], ops)))
            if r[1] in ('tuple', 'array', 'other'):
                if r[1] == 'tuple' and not ops:
                    return UNIT
                return agg(r[1], '', [(str(i), o) for i, o in enumerate(ops)])
            t = agg(r[1], r[2], list(zip(r[4], ops)))
            if self.record_new and not r[1].startswith(_STD):
                node.events.append(Ev('new', r[1], tuple(ops), t, node.body, info=r[2], line=line))
            return t
        if k == 'rep':
            return mk('rep', self._op(env, fr, r[1]), r[2])
        return mk('other', str(r[1])[:80])

    # -------------------------------------------------------------- block processing
    def _process(self, node):
        fr, bb, _ = node.key
        f = self.frames[fr]
        body = f['body']
        b = body.d['bbs'][bb]
        env = dict(node.env)
        ref = dict(node.ref)
        node.events = []
        node.succ = []
        node.exit = None
        for s in b.get('s', ()):
            if 'sd' in s:
                env.pop((fr, s['sd']), None)
                continue
            self.moved = []
            v = self._rv(env, fr, s['r'], node, s['l'], None)
            for m in self.moved:
                env[m] = MOVED
            self._wr(env, self._loc(env, fr, s['d']), v, node, s['l'])
        x = b['x']
        k = x['k']
        out = node.succ
        if k == 'goto' or k == 'yield':
            out.append((self._push(fr, x['to'], env, ref), None))
        elif k == 'switch':
            self._switch(node, fr, x, env, ref)
        elif k == 'ret':
            self._ret(node, fr, env, ref)
        elif k == 'drop':
            p = x['p']
            loc = self._loc(env, fr, p)
            t = self._rd(env, loc)
            if t.op not in ('moved', 'undef'):
                node.events.append(Ev('drop', None, (t,), where=body, line=x['l'],
                                      info=(body.d['locals'][p[0]]['tb'] if not p[1] else '')))
                if t.op in ('c', 'str') or body.d['locals'][p[0]]['tb'].startswith((CF, 'core::result', 'core::option')) and not p[1] and not contains(t, lambda z: z.op == 'guard'):
                    node.events.pop()
            out.append((self._push(fr, x['to'], env, ref), None))
        elif k == 'assert':
            self.moved = []
            self._op(env, fr, x['c'])
            out.append((self._push(fr, x['to'], env, ref), None))
        elif k == 'call':
            self._call(node, fr, x, env, ref)
        elif k == 'unreach':
            node.exit = ('unreach',)
        else:
            node.exit = ('end',)

    def _switch(self, node, fr, x, env, ref):
        self.moved = []
        t = self._op(env, fr, x['on'])
        out = node.succ
        unreach = self.frames[fr]['prep'].unreach
        if t.op == 'cast' and t.a[1].op == 'discr':
            t = t.a[1]
        if is_const(t):
            v = str(t.a[0])
            for a, tgt in x['arms']:
                if a == v:
                    out.append((self._push(fr, tgt, env, ref), None))
                    return
            out.append((self._push(fr, x['else'], env, ref), None))
            return
        if t.op == 'discr':
            base = t.a[0]
            names = dict(t.a[2])
            if base.op == 'agg' and base.a[1]:
                for a, tgt in x['arms']:
                    if names.get(a) == base.a[1]:
                        out.append((self._push(fr, tgt, env, ref), None))
                        return
                out.append((self._push(fr, x['else'], env, ref), None))
                return
            arms = [(names.get(a, '#' + a), tgt) for a, tgt in x['arms']]
            seen = [n for n, _ in arms]
            rest = [n for n in names.values() if n not in seen]
            known = ref.get(base)
            for n, tgt in arms + [(None, x['else'])]:
                if tgt in unreach:
                    continue
                if n is None:
                    if names and not rest:
                        continue
                    if len(rest) == 1:
                        n = rest[0]
                if n is not None:
                    c = isvar(base, n, True, t.a[1])
                    if c[0] == 'const':
                        if not c[1]:
                            continue
                        c = None
                    else:
                        kn = ref.get((c[1], c[2]))
                        if kn is not None and kn != c[3]:
                            continue
                    r2 = ref
                    if c is not None:
                        r2 = self._refine(ref, c)
                    out.append((self._push(fr, tgt, env, r2), c))
                else:
                    c = ('isin', base, tuple(sorted(seen)))
                    out.append((self._push(fr, tgt, env, ref), c))
            return
        if x['ty'] == 'bool':
            for a, tgt in x['arms'] + [[None, x['else']]]:
                pol = (a != '0') if a is not None else not any(z == '1' for z, _ in x['arms'])
                if a is None and len(x['arms']) == 2:
                    continue
                c = cond(t, pol)
                if c[0] == 'const':
                    if c[1]:
                        out.append((self._push(fr, tgt, env, ref), None))
                    continue
                kn = self._known(ref, c)
                if kn is False:
                    continue
                out.append((self._push(fr, tgt, env, self._refine(ref, c)), c))
            return
        for a, tgt in x['arms']:
            if tgt in unreach:
                continue
            out.append((self._push(fr, tgt, env, ref), cmpc('Eq', t, const(int(a), x['ty']))))
        if x['else'] not in unreach:
            out.append((self._push(fr, x['else'], env, ref), ('isin', t, tuple(a for a, _ in x['arms']))))

    def _refine(self, ref, c):
        r2 = dict(ref)
        if c[0] == 'is':
            r2[(c[1], c[2])] = c[3]
        elif c[0] == 'true':
            r2[(c[1],)] = c[2]
        elif c[0] == 'cmp':
            r2[(c[1], c[2], c[3])] = True
        return r2

    def _known(self, ref, c):
        if c[0] == 'is':
            v = ref.get((c[1], c[2]))
            return None if v is None else v == c[3]
        if c[0] == 'true':
            v = ref.get((c[1],))
            return None if v is None else v == c[2]
        if c[0] == 'cmp':
            if ref.get((c[1], c[2], c[3])):
                return True
            n = negc(c)
            if n[0] == 'cmp' and ref.get(n[1:]):
                return False
        return None

    def _ret(self, node, fr, env, ref):
        f = self.frames[fr]
        t = self._value(env, fr, 0)
        if t.op == 'undef':
            t = UNIT
        if f['parent'] is None:
            node.exit = ('ret', self._unrefd(env, t) if self.own else t, {i: env[(fr, -i)] for i in self.own})
            return
        # value escaping as lref into this frame's locals: resolve
        t = self._escape(env, fr, t)
        pf = f['parent']
        e2 = {k: v for k, v in env.items() if k[0] != fr}
        for k, v in list(e2.items()):
            if v.op == 'lref' and v.a[0] == fr:
                e2[k] = self._rd(env, ('l',) + v.a)
        mode = f['mode']
        if mode:
            t = self._post(mode, t)
        if f['cont'] is None:
            node.exit = ('end',)
            return
        if f['dest'] is not None:
            self._wr(e2, self._loc(e2, pf, f['dest']), t, node, 0)
        node.succ.append((self._push(pf, f['cont'], e2, ref), None))

    def _escape(self, env, fr, t):
        if t.op == 'lref' and t.a[0] == fr:
            return self._rd(env, ('l',) + t.a)
        if t.op == 'agg' and any(v.op == 'lref' and v.a[0] == fr for _, v in t.a[2]):
            return agg(t.a[0], t.a[1], [(n, self._escape(env, fr, v)) for n, v in t.a[2]])
        return t

    def _post(self, mode, t):
        m = mode[0]
        if m == 'ready':
            return agg(POLL, 'Ready', (('0', t),))
        if m == 'some':
            return some(t)
        if m == 'ok':
            return ok(t)
        if m == 'err':
            return err(t)
        if m == 'const':
            return mode[1]
        return t

    # -------------------------------------------------------------- calls
    def _finish(self, node, fr, x, env, ref, val, c=None):
        if 'to' not in x:
            if node.exit is None and not node.succ:
                node.exit = ('diverge',)
            return
        e2 = dict(env)
        self._wr(e2, self._loc(e2, fr, x['d']), val, node, x['l'])
        if c is not None:
            kn = self._known(ref, c)
            if kn is False:
                return
            ref = self._refine(ref, c)
        node.succ.append((self._push(fr, x['to'], e2, ref), c))

    def _unref(self, env, t):
        if t.op == 'lref':
            return self._unref(env, self._rd(env, ('l',) + t.a))
        if t.op == 'guard':
            return t.a[0]
        return t

    def _unrefd(self, env, t):
        """resolve local references inside aggregates for event arguments"""
        t = self._unref(env, t)
        if t.op == 'agg' and any(v.op in ('lref', 'guard', 'agg') for _, v in t.a[2]):
            return agg(t.a[0], t.a[1], [(n, self._unrefd(env, v)) for n, v in t.a[2]])
        return t

    def _call(self, node, fr, x, env, ref):
        self.moved = []
        ft = self._op(env, fr, x['f'])
        args = [self._op(env, fr, o) for o in x['a']]
        for m in self.moved:
            env[m] = MOVED
        fr_body = self.frames[fr]['body']
        macros = x.get('m', ())
        if ft.op == 'fn':
            decl = ft.a[1]
            name = ft.a[0]
        else:
            decl = name = '?indirect'
            if ft.op == 'closure':
                self._inline_closure(node, fr, x, env, ref, ft, args)
                return
        lf = leaf(decl)
        std = decl.startswith(_STD) or bool(_PRIM.match(decl))
        opq = ismatch(name, self.opaque) or ismatch(decl, self.opaque)

        # --- await
        if lf == 'poll' and decl.endswith('Future::poll') and any(m.startswith('~await') or 'await' in m for m in macros):
            fut = args[0]
            f0 = self._unref(env, fut)
            if f0.op == 'closure' and f0.a[0] in self.F.bodies and self._may_inline(fr, f0.a[0]):
                node.events.append(Ev('await', f0.a[0], (f0,), where=fr_body, line=x['l']))
                self._splice(node, fr, x, env, ref, self.F.bodies[f0.a[0]], [f0], mode=('ready',))
                return
            node.events.append(Ev('await', None, (f0,), where=fr_body, line=x['l']))
            if f0.op == 'lockfut':
                node.events.append(Ev('lock', f0.a[1], (f0.a[0],), where=fr_body, line=x['l']))
                f0 = mk('guard', f0.a[0], f0.a[1])
            self._finish(node, fr, x, env, ref, agg(POLL, 'Ready', (('0', f0),)))
            return
        # --- closures
        if lf in ('call_once', 'call_mut', 'call') and decl.startswith('core::ops::function'):
            cl = self._unref(env, args[0])
            if cl.op == 'closure':
                tup = args[1] if len(args) > 1 else UNIT
                a = [v for _, v in tup.a[2]] if tup.op == 'agg' else [tup]
                self._inline_closure(node, fr, x, env, ref, cl, a)
                return
            if cl.op == 'fn':
                name, decl = cl.a[0], cl.a[1]
                tup = args[1] if len(args) > 1 else UNIT
                args = [v for _, v in tup.a[2]] if tup.op == 'agg' else [tup]
                lf = leaf(decl)
                std = decl.startswith(_STD) or bool(_PRIM.match(decl))
                opq = ismatch(name, self.opaque) or ismatch(decl, self.opaque)
        if not opq:
            # --- identity-like
            if self._ident(decl, lf, std, args, x, name):
                v = args[0]
                if lf in ('deref', 'deref_mut'):
                    u = v
                    while u.op == 'lref':
                        w = self._rd(env, ('l',) + u.a)
                        if w.op in ('guard', 'lref'):
                            u = w
                        else:
                            break
                    if u.op == 'guard':
                        v = u.a[0]
                elif v.op == 'lref' and lf in ('clone', 'to_owned', 'cloned', 'copied', 'to_vec'):
                    v = self._unref(env, v)
                elif v.op == 'lref' and lf in ('as_mut', 'as_deref_mut', 'as_ref', 'as_deref'):
                    # Option<&mut T>: keep location of payload opaque but transparent
                    w = self._unref(env, v)
                    v = w
                self._finish(node, fr, x, env, ref, v)
                return
            if decl in LOCKS:
                path = self._unref(env, args[0])
                kind = lf
                if decl.startswith('tokio'):
                    self._finish(node, fr, x, env, ref, mk('lockfut', path, kind))
                    return
                node.events.append(Ev('lock', kind, (path,), where=fr_body, line=x['l']))
                g = mk('guard', path, kind)
                if LOCKS[decl] == 'std':
                    g = ok(g)
                self._finish(node, fr, x, env, ref, g)
                return
            if std and self._model(node, fr, x, env, ref, decl, lf, args):
                return
            if lf == 'default' and not args:
                m = re.match(r'<([ui](?:8|16|32|64|128|size)|bool) as core::default::Default>::default$', name)
                if m:
                    self._finish(node, fr, x, env, ref, mk('c', False if m.group(1) == 'bool' else 0, m.group(1)))
                    return
        # --- inline workspace bodies
        tgt = None
        if not opq:
            if name in self.F.bodies and self._may_inline(fr, name):
                tgt = self.F.bodies[name]
        if tgt is not None:
            self._splice(node, fr, x, env, ref, tgt, args)
            return
        # --- opaque call
        self.opaque_hits[name] = self.opaque_hits.get(name, 0) + 1
        eargs = tuple(self._unrefd(env, a) for a in args)
        site = None
        if any(a.op == 'lref' for a in args) or not args:
            site = (fr, node.bb)
        elif std and lf in ('next', 'pop', 'pop_front', 'recv', 'take', 'fetch_add', 'fetch_sub', 'load', 'with_capacity'):
            site = (fr, node.bb)
        res = call(self._cname(decl, name, ft), eargs, site)
        # higher-order: the callee may run closure arguments any number of times
        cls = [a for a in (self._unref(env, z) for z in args) if a.op == 'closure' and a.a[0] in self.F.bodies
               and self._may_inline(fr, a.a[0])]
        cls = [c for c in cls if self.F.bodies[c.a[0]].d.get('cor') is None]
        ev = Ev('call', name, eargs, res, fr_body, decl, (ft.a[2] if ft.op == 'fn' else '', tuple(args), x['f'].get('c', {}).get('ga', ())), x['l'])
        node.events.append(ev)
        env2 = dict(env)
        for i, a in enumerate(args):
            if a.op == 'lref':
                old = self._rd(env, ('l',) + a.a)
                self._wrq(env2, ('l',) + a.a, mk('upd!', old, self._cname(decl, name, ft), (fr, node.bb), i, *[z for j, z in enumerate(eargs) if j != i]))
        if not self.sides:
            # what a closure captured by mutable reference may have changed once the callee ran it
            for z in args:
                c_ = self._unref(env, z)
                for nm_, v_ in (c_.a[1] if c_.op == 'closure' else ()):
                    if v_.op == 'lref':
                        old = self._rd(env2, ('l',) + v_.a)
                        self._wrq(env2, ('l',) + v_.a, mk('upd!', old, self._cname(decl, name, ft), (fr, node.bb), nm_, c_))
        if cls and 'to' in x and self.sides:
            # side branch: run one closure body once with unknown elements, then rejoin
            cl = cls[0]
            b = self.F.bodies[cl.a[0]]
            src = [a for a in eargs if a.op != 'closure']
            base = src[0] if src else UNIT
            n = b.d['argc'] - 1
            if n == 1:
                pa = [mk('elem', base)]
            else:
                pa = [mk('elem', base, i) for i in range(n)]
            e3 = dict(env2)
            self._splice(node, fr, x, e3, ref, b, [self._rawclosure(args, cl, env)] + pa, mode=('const', res))
        self._finish(node, fr, x, env2, ref, res)

    def _rawclosure(self, args, cl, env):
        return cl

    def _cname(self, decl, name, ft):
        # canonical name for value numbering: resolved body if any
        return name

    def _wrq(self, env, loc, val):
        _, fr, l, path = loc
        if path:
            env[(fr, l)] = self._upd(self._value(env, fr, l), path, val)
        else:
            env[(fr, l)] = val

    def _ident(self, decl, lf, std, args, x, name):
        if len(args) < 1:
            return False
        if decl in IDENT_FULL:
            return True
        if decl == 'core::iter::traits::collect::IntoIterator::into_iter':
            return False
        if decl in CONVERT:
            ga = x['f'].get('c', {}).get('ga') if 'c' in x['f'] else None
            if ga and len(ga) == 2 and ga[0] == ga[1]:
                return True
            return False
        if len(args) == 1 and lf in IDENT:
            if std:
                return not (lf == 'borrow' and 'RefCell' in decl) and not (lf in ('as_mut', 'as_ref') and False)
            if lf == 'clone':
                return True
        if lf == 'clone' and decl == 'core::clone::Clone::clone':
            return True
        if decl == 'alloc::string::ToString::to_string' and x['f'].get('c', {}).get('self') in ('str', 'std::string::String'):
            return True
        return False

    def _may_inline(self, fr, path):
        b = self.F.bodies[path]
        f = self.frames[fr]
        if f['depth'] >= self.maxdepth:
            return False
        if path in f['chain']:
            return False
        d = b.d
        if d.get('derived') and d.get('trait', '').startswith(('core::fmt', 'core::cmp', 'core::clone', 'core::hash', 'serde')):
            return False
        tr = d.get('trait', '')
        if tr in ('core::fmt::Debug', 'core::fmt::Display', 'core::hash::Hash', 'core::cmp::PartialEq', 'core::cmp::Ord',
                  'core::cmp::PartialOrd', 'core::cmp::Eq'):
            return self.inline is not None and self.inline(path)
        if b.crate in self.noinline_crates:
            return False
        if ismatch(path, self.opaque):
            return False
        if self.inline is not None and not self.inline(path):
            return False
        if '__CALLSITE' in path:
            return False
        return True

    def _inline_closure(self, node, fr, x, env, ref, cl, args, mode=None):
        b = self.F.bodies.get(cl.a[0])
        if b is None or not self._may_inline(fr, cl.a[0]):
            eargs = tuple(self._unrefd(env, a) for a in args)
            res = call(cl.a[0], eargs)
            node.events.append(Ev('call', cl.a[0], eargs, res, self.frames[fr]['body'], cl.a[0], line=x['l']))
            self._finish(node, fr, x, env, ref, self._post(mode, res) if mode else res)
            return
        if b.d.get('cor') is not None and False:
            return
        self._splice(node, fr, x, env, ref, b, [cl] + list(args), mode)

    def _apply(self, node, fr, x, env, ref, fn, args, mode=None, c=None):
        """call a function value (closure / fn item / unknown), then post-process; optional edge condition c."""
        fn = self._unref(env, fn)
        if c is not None:
            kn = self._known(ref, c)
            if kn is False:
                return
            ref = self._refine(ref, c)
        if fn.op == 'closure' and fn.a[0] in self.F.bodies and self._may_inline(fr, fn.a[0]):
            self._splice(node, fr, x, env, ref, self.F.bodies[fn.a[0]], [fn] + list(args), mode, c)
            return
        if fn.op == 'fn' and fn.a[0] in self.F.bodies and self._may_inline(fr, fn.a[0]):
            self._splice(node, fr, x, env, ref, self.F.bodies[fn.a[0]], list(args), mode, c)
            return
        if fn.op == 'fn' and leaf(fn.a[1]) == '{ctor}':
            p = fn.a[1][:-len('::{ctor}')]
            en, v = p.rsplit('::', 1)
            r = agg(en, v, [(str(i), a) for i, a in enumerate(args)])
        elif fn.op == 'fn' and fn.a[1] in ('core::clone::Clone::clone', 'core::convert::AsRef::as_ref', 'core::ops::deref::Deref::deref'):
            r = args[0]
        else:
            nm = fn.a[0] if fn.op in ('fn', 'closure') else 'apply'
            r = call(nm, tuple(self._unrefd(env, a) for a in args) if fn.op in ('fn', 'closure') else (fn,) + tuple(args))
            node.events.append(Ev('call', nm, tuple(self._unrefd(env, a) for a in args), r, self.frames[fr]['body'],
                                  fn.a[1] if fn.op == 'fn' else nm, line=x['l']))
        if mode:
            r = self._post(mode, r)
        if 'to' in x:
            e2 = dict(env)
            self._wr(e2, self._loc(e2, fr, x['d']), r, node, x['l'])
            node.succ.append((self._push(fr, x['to'], e2, ref), c))

    def _splice(self, node, fr, x, env, ref, body, args, mode=None, c=None):
        self.inlined.add(body.path)
        dest = x['d']
        cont = x.get('to')
        nf = self.frame(fr, (node.bb, x.get('l')), body, dest, cont, mode)
        f = self.frames[fr]
        live = set(f['prep'].live_out[node.bb]) if cont is not None else set()
        addr = f['prep'].addr
        e2 = {}
        for k, v in env.items():
            if k[0] == fr and k[1] not in live and k[1] not in addr and k[1] >= 0:
                continue
            e2[k] = v
        d = body.d
        argc = d['argc']
        if body.kind == 'Closure' and len(args) - 1 != argc - 1 and len(args) > 1 and d.get('cor') is None:
            # closure taking a tuple pattern etc. is already by position; fall through
            pass
        for i in range(argc):
            if i < len(args):
                e2[(nf, i + 1)] = args[i]
            else:
                e2[(nf, i + 1)] = mk('opq', 'arg', body.path, i + 1)
        node.succ.append((self._push(nf, 0, e2, ref), c))

    # -------------------------------------------------------------- std models
    def _split(self, env, t):
        """variant of an Option/Result-like term: 'pos', 'neg' or None"""
        t = self._unref(env, t)
        if t.op == 'agg' and t.a[1]:
            return ('pos' if t.a[1] in ('Some', 'Ok', 'Continue') else 'neg'), t
        return None, t

    def _model(self, node, fr, x, env, ref, decl, lf, args):
        if lf == 'branch' and decl.endswith('Try::branch'):
            v, t = self._split(env, args[0])
            isopt = 'option::Option' in (x['f']['c'].get('ga') or [''])[0].split('<')[0].lower() if 'c' in x['f'] else False
            pos, neg = ('Some', 'None') if isopt else ('Ok', 'Err')
            if v != 'neg':
                c = None if v else isvar(t, pos)
                if c is not None and c[0] == 'const':
                    c = None
                self._finish(node, fr, x, env, ref, agg(CF, 'Continue', (('0', payload(t, pos)),)), c)
            if v != 'pos':
                c = None if v else isvar(t, pos, False)
                if c is not None and c[0] == 'const':
                    c = None
                res = NONE if isopt else err(payload(t, 'Err'))
                self._finish(node, fr, x, env, ref, agg(CF, 'Break', (('0', res),)), c)
            return True
        if lf == 'from_residual':
            t = self._unref(env, args[0])
            if t.op == 'agg':
                if t.a[1] == 'Err':
                    e = fld(t, '0')
                    if not (e.op == 'call' and leaf(e.a[0]) == 'from'):
                        ret = x['f']['c'].get('ga')
                        e2 = mk('call', 'From::from', (e,), None)
                        self._finish(node, fr, x, env, ref, err(e2))
                        return True
                self._finish(node, fr, x, env, ref, t)
                return True
            return False
        if lf == 'from_output':
            rt = (x['f']['c'].get('ga') or [''])[0]
            self._finish(node, fr, x, env, ref, some(args[0]) if rt.startswith('core::option') or 'option::Option' in rt.split('<')[0] else ok(args[0]))
            return True
        if lf in ('eq', 'ne') and decl.startswith('core::cmp::PartialEq') and len(args) == 2 and self._opteq(node, fr, x, env, ref, lf, args):
            return True
        isO = decl.startswith('core::option::Option')
        isR = decl.startswith('core::result::Result')
        if isO or isR:
            return self._optres(node, fr, x, env, ref, lf, args, isO)
        if decl in ('core::bool::then', 'core::bool::then_some', 'bool::then', 'bool::then_some'):
            c = cond(args[0])
            nc = cond(args[0], False)
            for cc, pos in ((c, True), (nc, False)):
                if cc[0] == 'const':
                    if not cc[1]:
                        continue
                    cc = None
                if pos:
                    if lf == 'then_some':
                        self._finish(node, fr, x, env, ref, some(args[1]), cc)
                    else:
                        self._apply(node, fr, x, env, ref, args[1], [], ('some',), cc)
                else:
                    self._finish(node, fr, x, env, ref, NONE, cc)
            return True
        if decl in ('core::mem::take', 'core::mem::replace'):
            src = args[0]
            loc = self._deref(src)
            old = self._rd(env, loc)
            new = args[1] if lf == 'replace' else call('Default::default', ())
            node.events.append(Ev('call', decl, (old,), old, self.frames[fr]['body'], decl, ('', tuple(args)), x['l']))
            self._wr(env, loc, new, node, x['l'])
            self._finish(node, fr, x, env, ref, old)
            return True
        if decl == 'core::mem::swap':
            la, lb = self._deref(args[0]), self._deref(args[1])
            a, b = self._rd(env, la), self._rd(env, lb)
            self._wr(env, la, b, node, x['l'])
            self._wr(env, lb, a, node, x['l'])
            self._finish(node, fr, x, env, ref, UNIT)
            return True
        if decl == 'core::mem::drop':
            t = self._unref(env, args[0]) if args[0].op != 'guard' else args[0]
            node.events.append(Ev('drop', None, (args[0],), where=self.frames[fr]['body'], line=x['l'], info='explicit'))
            self._finish(node, fr, x, env, ref, UNIT)
            return True
        if lf == 'not' and decl.endswith('Not::not'):
            self._finish(node, fr, x, env, ref, unop('Not', args[0]))
            return True
        if decl.startswith('core::ops::arith') or decl.startswith('core::ops::bit'):
            m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
                 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}.get(lf)
            if m:
                self._finish(node, fr, x, env, ref, binop(m, self._unref(env, args[0]), self._unref(env, args[1])))
                return True
            m = {'add_assign': 'Add', 'sub_assign': 'Sub', 'mul_assign': 'Mul'}.get(lf)
            if m:
                loc = self._deref(args[0])
                v = binop(m, self._rd(env, loc), self._unref(env, args[1]))
                self._wr(env, loc, v, node, x['l'])
                self._finish(node, fr, x, env, ref, UNIT)
                return True
        if lf == 'len' and len(args) == 1:
            t = self._unref(env, args[0])
            r = length(t)
            node.events.append(Ev('call', decl, (t,), r, self.frames[fr]['body'], decl, ('', tuple(args)), x['l']))
            self._finish(node, fr, x, env, ref, r)
            return True
        if decl == 'core::iter::traits::collect::IntoIterator::into_iter':
            t = self._unref(env, args[0])
            if t.op == 'call' and leaf(t.a[0]) in ITER_FNS:
                r = t
            else:
                r = call('iter', (t,))
            self._finish(node, fr, x, env, ref, r)
            return True
        if lf in ('iter', 'iter_mut', 'values', 'keys', 'values_mut', 'into_values', 'into_keys', 'drain') and len(args) <= 2:
            t = self._unref(env, args[0])
            nm = {'iter': 'iter', 'iter_mut': 'iter'}.get(lf, lf)
            r = call(nm, (t,) + tuple(args[1:]))
            if lf in ('drain',):
                return False
            self._finish(node, fr, x, env, ref, r)
            return True
        if lf == 'next' and decl.endswith('Iterator::next'):
            it = self._unref(env, args[0])
            while it.op == 'upd!':
                it = it.a[0]
            el = mk('elem', it)
            node.events.append(Ev('call', decl, (it,), el, self.frames[fr]['body'], decl, ('', tuple(args)), x['l']))
            src = mk('next', it, (fr, node.bb))
            # fresh element each time: no correlation between successive calls
            r2 = {k: v for k, v in ref.items() if not (isinstance(k[0], T) and contains(k[0], lambda z: z is src or z is el))}
            self._finish(node, fr, x, env, r2, some(el), isvar(src, 'Some'))
            self._finish(node, fr, x, env, r2, NONE, isvar(src, 'Some', False))
            return True
        return False

    def _default(self, ty):
        if re.match(r'[ui](8|16|32|64|128|size)$', ty):
            return mk('c', 0, ty)
        if ty == 'bool':
            return FALSE
        if ty.startswith('core::option::Option'):
            return NONE
        return call('Default::default', ())

    def _opteq(self, node, fr, x, env, ref, lf, args):
        """x == Some(v): a test of the variant, then a comparison of the payloads"""
        (va, a), (vb, b) = [self._split(env, z) for z in args]
        a, b = self._unrefd(env, a), self._unrefd(env, b)
        if vb is None:
            (va, a), (vb, b) = (vb, b), (va, a)
        if vb != 'pos' or b.a[0] != OPT or (va is not None and a.a[0] != OPT):
            return False
        c = None if va else isvar(a, 'Some')
        nc = None if va else isvar(a, 'Some', False)
        if va != 'neg':
            self._finish(node, fr, x, env, ref, call(lf, (self._unrefd(env, payload(a, 'Some')), self._unrefd(env, fld(b, '0')))), c)
        if va != 'pos':
            self._finish(node, fr, x, env, ref, FALSE if lf == 'eq' else TRUE, nc)
        return True

    def _optres(self, node, fr, x, env, ref, lf, args, isO):
        v, t = self._split(env, args[0])
        pos, neg = ('Some', 'None') if isO else ('Ok', 'Err')

        def cases():
            out = []
            if v != 'neg':
                c = None if v else isvar(t, pos)
                out.append((True, None if c is None or c[0] == 'const' else c))
            if v != 'pos':
                c = None if v else isvar(t, pos, False)
                out.append((False, None if c is None or c[0] == 'const' else c))
            return out

        p = payload(t, pos)
        n = None if isO else payload(t, 'Err')
        fin = lambda val, c: self._finish(node, fr, x, env, ref, val, c)
        ap = lambda f, a, m, c: self._apply(node, fr, x, env, ref, f, a, m, c)
        if lf in ('unwrap', 'expect'):
            if not v:
                node.events.append(Ev('unwrap', lf, (t,), where=self.frames[fr]['body'], line=x['l']))
            if v != 'neg':
                c = None if v else isvar(t, pos)
                fin(p, c if c is None or c[0] != 'const' else None)
            if v == 'neg':
                node.exit = ('diverge',)
            return True
        if lf in ('is_some', 'is_none', 'is_ok', 'is_err'):
            if v:
                b = (v == 'pos') == (lf in ('is_some', 'is_ok'))
                fin(TRUE if b else FALSE, None)
                return True
            fin(call(lf, (t,)), None)
            return True
        H = {'map', 'and_then', 'map_err', 'ok_or_else', 'ok_or', 'unwrap_or', 'unwrap_or_else', 'or_else', 'is_some_and',
             'is_ok_and', 'is_none_or', 'is_err_and', 'map_or', 'map_or_else', 'filter', 'ok', 'err', 'inspect', 'inspect_err',
             'unwrap_or_default', 'transpose', 'and', 'or', 'flatten'}
        if lf not in H:
            if lf == 'take' and isO:
                loc = self._deref(args[0])
                old = self._rd(env, loc)
                node.events.append(Ev('call', 'core::option::Option::take', (old,), old, self.frames[fr]['body'],
                                      'core::option::Option::take', ('', tuple(args)), x['l']))
                self._wr(env, loc, NONE, node, x['l'])
                fin(old if loc[0] == 'l' else mk('taken', old, (fr, node.bb)), None)
                return True
            if lf == 'insert' and isO and len(args) == 2:
                loc = self._deref(args[0])
                if loc[0] == 'l' and args[1].op != 'lref':
                    self._wr(env, loc, some(args[1]), node, x['l'])
                    fin(args[1], None)
                    return True
            return False
        if lf == 'transpose':
            def tr(q):
                vi = q.a[1] if q.op == 'agg' else None
                if isO:
                    return ok(some(fld(q, '0'))) if vi == 'Ok' else q if vi == 'Err' else call('transpose', (some(q),))
                return some(ok(fld(q, '0'))) if vi == 'Some' else NONE if vi == 'None' else call('transpose', (ok(q),))
            for posi, c in cases():
                fin(tr(p) if posi else (ok(NONE) if isO else some(err(n))), c)
            return True
        for posi, c in cases():
            if lf == 'map':
                if posi:
                    ap(args[1], [p], ('some',) if isO else ('ok',), c)
                else:
                    fin(NONE if isO else err(n), c)
            elif lf == 'and_then':
                if posi:
                    ap(args[1], [p], None, c)
                else:
                    fin(NONE if isO else err(n), c)
            elif lf == 'and':
                fin(args[1] if posi else (NONE if isO else err(n)), c)
            elif lf == 'or':
                fin((some(p) if isO else ok(p)) if posi else args[1], c)
            elif lf == 'map_err':
                if posi:
                    fin(ok(p), c)
                else:
                    ap(args[1], [n], ('err',), c)
            elif lf == 'ok_or_else':
                if posi:
                    fin(ok(p), c)
                else:
                    ap(args[1], [], ('err',), c)
            elif lf == 'ok_or':
                fin(ok(p) if posi else err(args[1]), c)
            elif lf == 'ok':
                fin(some(p) if posi else NONE, c)
            elif lf == 'err':
                fin(NONE if posi else some(n), c)
            elif lf == 'unwrap_or':
                fin(p if posi else args[1], c)
            elif lf == 'unwrap_or_default':
                fin(p if posi else self._default((x['f'].get('c', {}).get('ga') or [''])[0]), c)
            elif lf == 'unwrap_or_else':
                if posi:
                    fin(p, c)
                else:
                    ap(args[1], [] if isO else [n], None, c)
            elif lf == 'or_else':
                if posi:
                    fin(some(p) if isO else ok(p), c)
                else:
                    ap(args[1], [] if isO else [n], None, c)
            elif lf in ('is_some_and', 'is_ok_and'):
                if posi:
                    ap(args[1], [p], None, c)
                else:
                    fin(FALSE, c)
            elif lf == 'is_none_or':
                if posi:
                    ap(args[1], [p], None, c)
                else:
                    fin(TRUE, c)
            elif lf == 'is_err_and':
                if posi:
                    fin(FALSE, c)
                else:
                    ap(args[1], [n], None, c)
            elif lf == 'map_or':
                if posi:
                    ap(args[2], [p], None, c)
                else:
                    fin(args[1], c)
            elif lf == 'map_or_else':
                if posi:
                    ap(args[2], [p], None, c)
                else:
                    ap(args[1], [] if isO else [n], None, c)
            elif lf == 'filter':
                if posi:
                    r = call('filter', (t, args[1]))
                    fin(r, c)
                else:
                    fin(NONE, c)
            elif lf == 'inspect':
                if posi:
                    ap(args[1], [p], ('const', some(p) if isO else ok(p)), c)
                else:
                    fin(NONE if isO else err(n), c)
            elif lf == 'inspect_err':
                if posi:
                    fin(ok(p), c)
                else:
                    ap(args[1], [n], ('const', err(n)), c)
            elif lf == 'flatten':
                fin(p if posi else NONE, c)
        return True

    # -------------------------------------------------------------- queries
    def events(self, pred=None, kind=None):
        out = []
        for key, n in self.nodes.items():
            for i, e in enumerate(n.events):
                if (kind is None or e.k == kind) and (pred is None or pred(e)):
                    out.append((n, i, e))
        return out

    def calls(self, pat):
        return self.events(lambda e: e.k == 'call' and (path_match(e.name, pat) or (e.decl and path_match(e.decl, pat))))

    def exits(self):
        return [(n, n.exit[1]) for n in self.nodes.values() if n.exit and n.exit[0] == 'ret']

    def find_path(self, dst, avoid_ev=None, avoid_edge=None, src=None, dst_node=None):
        """A path from entry (or just after src=(node,i)) to an event satisfying dst(ev) or a node satisfying dst_node(node),
        without crossing an event for which avoid_ev holds nor an edge whose condition satisfies avoid_edge.
        Returns a list of (node, cond) or None."""
        start = src if src is not None else (self.entry_node, -1)
        prev = {}
        first = True
        q = deque([(start[0], start[1] + 1)])
        seen = set()
        while q:
            n, i0 = q.popleft()
            blocked = False
            for i in range(i0, len(n.events)):
                e = n.events[i]
                if dst is not None and dst(e):
                    return self._mkpath(prev, n), (n, i)
                if avoid_ev is not None and avoid_ev(e):
                    blocked = True
                    break
            if blocked:
                continue
            if dst_node is not None and dst_node(n):
                return self._mkpath(prev, n), (n, len(n.events))
            for k, c in n.succ:
                if k in seen:
                    continue
                if c is not None and avoid_edge is not None and avoid_edge(c):
                    continue
                seen.add(k)
                prev[k] = (n.key, c)
                q.append((self.nodes[k], 0))
        return None

    def _mkpath(self, prev, n):
        out = []
        k = n.key
        guard = 0
        while k in prev and guard < 100000:
            pk, c = prev[k]
            out.append((self.nodes[k], c))
            k = pk
            guard += 1
            if pk == self.entry_node.key:
                break
        out.reverse()
        return out

    def conds(self):
        s = {}
        for n in self.nodes.values():
            for k, c in n.succ:
                if c is not None:
                    s.setdefault(showc(c), []).append((n, k, c))
        return s


_LIT = re.compile(r'^(-?\d+)_([iu](?:8|16|32|64|128|size))$')
ITER_FNS = {'iter', 'values', 'keys', 'filter', 'map', 'rev', 'skip', 'take', 'zip', 'enumerate', 'chain', 'drain', 'cloned', 'copied',
            'filter_map', 'take_while', 'skip_while', 'step_by', 'range', 'into_values', 'into_keys', 'values_mut', 'flat_map', 'chunks',
            'windows', 'peekable', 'iter_mut', 'flatten', 'lines', 'chars', 'bytes', 'inspect', 'scan', 'map_while', 'chunks_exact',
            'raw_iter', 'skip_to', 'reverse_iter'}


def build(facts, entry, **kw):
    g = Graph.__new__(Graph)
    g.phis = {}
    g.__init__(facts, entry, **kw)
    return g


def dump(g, maxn=200):
    ids = {}
    for k in g.nodes:
        ids[k] = len(ids)
    for k, n in list(g.nodes.items())[:maxn]:
        print('N%d %s bb%d' % (ids[k], short(n.body.path), n.bb), [(g._lname(a), b) for a, b in k[2]])
        for e in n.events:
            print('     ', e)
        for s, c in n.succ:
            print('   -> N%d  [%s]' % (ids[s], showc(c)))
        if n.exit:
            print('   EXIT', n.exit[0], show(n.exit[1]) if len(n.exit) > 1 else '')


# ------------------------------------------------------------------ path-sensitive outcomes of small graphs
class Outcome:
    __slots__ = ('conds', 'ret', 'exit', 'path', 'events', 'pre', 'state')

    def before(self, i):
        """conditions met on the path before its i-th event"""
        return self.conds[:self.pre[i]]

    def __repr__(self):
        return '[%s] => %s' % (' & '.join(showc(c) for c in self.conds), show(self.ret) if self.ret is not None else self.exit)


def parts_eq(c):
    """equality of two tuples: the equalities of their components"""
    if c is None or c[0] != 'cmp' or c[1] != 'eq':
        return ()
    a, b = c[2], c[3]
    if a.op == b.op == 'agg' and a.a[0] == b.a[0] == 'tuple' and len(a.a[2]) == len(b.a[2]):
        out = []
        for (n, x), (_, y) in zip(a.a[2], b.a[2]):
            d = cmpc('Eq', x, y)
            out.append(d)
            out.extend(parts_eq(d))
        return tuple(out)
    return ()


class TooManyPaths(Exception):
    pass


def rebuild(t, fn, memo):
    """t with every subterm replaced by fn(subterm) where that is not None, re-normalised bottom-up"""
    r = memo.get(t.id)
    if r is not None:
        return r
    x = fn(t)
    if x is not None:
        memo[t.id] = x
        return x
    o, a = t.op, t.a
    rb = lambda z: rebuild(z, fn, memo)
    if o == 'agg':
        x = agg(a[0], a[1], [(n, rb(v)) for n, v in a[2]])
    elif o == 'closure':
        x = mk('closure', a[0], tuple((n, rb(v)) for n, v in a[1]))
    elif o == 'fld':
        x = fld(rb(a[0]), a[1])
    elif o == 'as':
        x = dcast(rb(a[0]), a[1])
    elif o == 'upd' and isinstance(a[1], str) and a[1] != 'elem' and not a[1].startswith('variant '):
        x = upd(rb(a[0]), a[1], rb(a[2]))
    elif o == 'bin':
        x = binop(a[0], rb(a[1]), rb(a[2]))
    elif o == 'un':
        x = unop(a[0], rb(a[1]))
    elif o == 'call':
        x = call(a[0], tuple(rb(z) for z in a[1]), a[2])
    elif o == 'cast':
        y = rb(a[1])
        x = const(y.a[0], a[0]) if is_const(y) else mk('cast', a[0], y)
    elif any(isinstance(z, T) for z in a):
        x = mk(o, *[rb(z) if isinstance(z, T) else z for z in a])
    else:
        x = t
    memo[t.id] = x
    return x


def recond(c, sub):
    k = c[0]
    if k == 'cmp':
        a, b = sub(c[2]), sub(c[3])
        op = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le'}[c[1]]
        r = binop(op, a, b)
        if is_const(r):
            return ('const', bool(r.a[0]))
        if a is b:
            return ('const', c[1] in ('eq', 'le'))
        for x, y in ((a, b), (b, a)):
            if op in ('Eq', 'Ne') and y.op == 'agg' and y.a[1] and not y.a[2]:
                return isvar(x, y.a[1], op == 'Eq', y.a[0])
        return cmpc(op, a, b)
    if k == 'is':
        return isvar(sub(c[1]), c[2], c[3])
    if k == 'true':
        return cond(sub(c[1]), c[2])
    if k == 'isin':
        t = sub(c[1])
        if t.op == 'agg' and t.a[1]:
            return ('const', t.a[1] not in c[2])
        return ('isin', t, c[2])
    return c


def outcomes(g, limit=3000, loops=1):
    """Every acyclic path (each edge at most `loops` times) from entry to an exit, with joins resolved along the path."""
    out = []
    count = [0]

    def resolve_at(path, upto, t, memo):
        """resolve phis in t as seen at path[upto]"""
        def fn(x):
            if x.op != 'phi':
                return None
            k, bb, d = x.a[0]
            for i in range(upto, 0, -1):
                n = path[i][0]
                if (n.key[0], n.bb) == bb:
                    pn, j = path[i - 1][0], path[i][1]
                    lst = n.ins.get(pn.key)
                    if not lst or j >= len(lst):
                        return None
                    root = k
                    names = []
                    while isinstance(root[0], tuple):
                        names.append(root[1])
                        root = root[0]
                    v = lst[j][0].get(root)
                    if v is None:
                        return mk('undef', *root)
                    for nm in reversed(names):
                        v = fld(v, nm)
                    if v is x:
                        continue
                    return resolve_at(path, i - 1, v, {})
            return None
        return rebuild(t, fn, memo)

    path = [(g.entry_node, 0, None, 0)]
    used = {}
    onpath = {g.entry_node.key: 1}

    def contradicts(conds, c):
        if c[0] == 'is' and c[1].op == 'next':
            return False
        n = negc(c)
        for d in conds:
            if n is not None and d == n:
                return True
            if c[0] == 'is' and d[0] == 'is' and c[1] is d[1] and c[3] and d[3] and c[2] != d[2]:
                return True
            if c[0] == 'isin' and d[0] == 'is' and d[3] and d[1] is c[1] and d[2] in c[2]:
                return True
            if d[0] == 'isin' and c[0] == 'is' and c[3] and d[1] is c[1] and c[2] in d[2]:
                return True
        return False

    def go(n, conds):
        if n.exit is not None and (n.exit[0] != 'unreach'):
            count[0] += 1
            if count[0] > limit:
                raise TooManyPaths(g.entry.path)
            o = Outcome()
            o.conds = tuple(conds)
            o.exit = n.exit[0]
            o.ret = resolve_at(path, len(path) - 1, n.exit[1], {}) if n.exit[0] == 'ret' else None
            o.state = {i: resolve_at(path, len(path) - 1, v, {}) for i, v in n.exit[2].items()} if n.exit[0] == 'ret' and len(n.exit) > 2 else {}
            o.path = [p[0] for p in path]
            evs, o.pre = [], []
            for i, p in enumerate(path):
                memo = {}
                for e in p[0].events:
                    e2 = Ev(e.k, e.name, tuple(resolve_at(path, i, a, memo) if isinstance(a, T) else a for a in e.args),
                            resolve_at(path, i, e.res, memo) if isinstance(e.res, T) else e.res, e.where, e.decl, e.info, e.line)
                    evs.append(e2)
                    o.pre.append(p[3])
            o.events = evs
            out.append(o)
        jcount = {}
        for si, (k, c) in enumerate(n.succ):
            j = jcount.get(k, 0)
            jcount[k] = j + 1
            ek = (n.key, si)
            back = onpath.get(k, 0) > 0
            if back and used.get(ek, 0) >= loops:
                continue
            m = g.nodes[k]
            cc = c
            if c is not None:
                memo = {}
                pos = len(path) - 1
                cc = recond(c, lambda t: resolve_at(path, pos, t, memo))
                if cc[0] == 'const':
                    if not cc[1]:
                        continue
                    cc = None
                elif contradicts(conds, cc):
                    continue
            if back:
                used[ek] = used.get(ek, 0) + 1
            onpath[k] = onpath.get(k, 0) + 1
            more = [x for x in (cc,) + parts_eq(cc) if x is not None and x[0] != 'const' and x not in conds]
            conds.extend(more)
            path.append((m, j, cc, len(conds)))
            go(m, conds)
            if more:
                del conds[-len(more):]
            path.pop()
            onpath[k] -= 1
            if back:
                used[ek] -= 1

    import sys as _s
    old = _s.getrecursionlimit()
    _s.setrecursionlimit(100000)
    try:
        go(g.entry_node, [])
    finally:
        _s.setrecursionlimit(old)
    return out
