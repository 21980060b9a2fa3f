"""Rule layer: obligations, path rules and decision tables over the exploded graphs, plus reporting."""
import contextlib, json, os, sys, time, traceback
from . import sa, comp as cp, arith
from .facts import Facts, MissingAnchor, path_match
from .pat import *
from .facts import path_match
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}


def check(pid, crates, **meta):
    def deco(fn):
        CHECKS[pid] = (fn, crates, meta)
        return fn
    return deco


def no_turn(o):
    """the path leaves a loop over a non-empty list literal without a turn"""
    pos, neg = set(), set()
    for c in o.conds:
        if c[0] == 'is' and c[1].op == 'next' and c[2] in ('Some', 'Ok'):
            (pos if c[3] else neg).add(c[1])
    for t in neg - pos:
        x = t.a[0]
        while x.op == 'call' and x.a[0] in ('iter', 'into_iter') and len(x.a[1]) == 1:
            x = x.a[1][0]
        if x.op == 'agg' and x.a[0] == 'array' and x.a[2]:
            return True
    return False


class Undecided(Exception):
    pass


class NotSingle(Exception):
    pass


class R:
    def __init__(self, pid, facts, broken=(), thorough=False):
        self.pid, self.F, self.broken, self.thorough = pid, facts, set(broken), thorough
        self.viol = []        # (key, message)
        self.obl = []         # (rule, instance, discharged)
        self.notes = []
        self.undec = []
        self.funcs = set()
        self._g = {}
        self._o = {}
        self.rule = 'setup'

    @contextlib.contextmanager
    def section(self, name):
        old, self.rule = self.rule, name
        try:
            yield
        except MissingAnchor as e:
            self.ok('anchor', False, 'anchor not found: %s' % e)
        except (sa.Budget, sa.TooManyPaths) as e:
            self.undec.append('%s: %r' % (name, e))
        except Exception as e:  # a construct the rules cannot read: no verdict on it, and said so
            self.undec.append('%s: %r %s' % (name, e, traceback.format_exc()))
        finally:
            self.rule = old

    # ---- building blocks
    def fn(self, pat):
        """The one definition an anchor names."""
        return self.F.one(pat)

    def graph(self, entry, **kw):
        b = entry if not isinstance(entry, str) else self.F.one(entry)
        k = (b.key, tuple(sorted((a, str(v)) for a, v in kw.items())))
        g = self._g.get(k)
        if g is None:
            g = self._g[k] = sa.build(self.F, b, **kw)
            self.funcs.add(b.path)
            self.funcs |= g.inlined
        return g

    def outs(self, entry, limit=3000, loops=1, **kw):
        g = entry if isinstance(entry, sa.Graph) else self.graph(entry, **kw)
        k = (id(g), limit, loops)
        if k not in self._o:
            self._o[k] = [o for o in sa.outcomes(g, limit, loops) if not no_turn(o)]
        return self._o[k]

    def rets(self, entry, **kw):
        return [o for o in self.outs(entry, **kw) if o.exit == 'ret']

    def observe(self, entry, args, **kw):
        """the single value a (branch-free up to panics) function returns when its parameters are bound to the given terms"""
        vs = self.observe_all(entry, args, **kw)
        if len(vs) != 1:
            raise NotSingle('%s returns %d different values' % (entry, len(vs)))
        return vs[0]

    def observe_all(self, entry, args, **kw):
        b = self.F.one(entry) if isinstance(entry, str) else entry
        g = sa.build(self.F, b, args=args or None, sides=False, **kw)
        self.funcs.add(b.path)
        self.funcs |= g.inlined
        return list({o.ret.id: o.ret for o in sa.outcomes(g) if o.exit == 'ret'}.values())

    def observe_one(self, entry, args, **kw):
        """like observe, but an Option lookup (map over get, cloned, ...) is reduced to the lookup"""
        b = self.F.one(entry)
        g = sa.build(self.F, b, args=args or None, sides=False, **kw)
        self.funcs.add(b.path)
        outs = [o for o in sa.outcomes(g) if o.exit == 'ret']
        vs = {}
        for o in outs:
            t = o.ret
            if t.op == 'agg' and t.a[1] == 'Some':
                x = fld(t, '0')
                while x.op in ('fld', 'as'):
                    x = x.a[0]
                t = x
            elif t.op == 'agg' and t.a[1] == 'None':
                continue
            vs[t.id] = t
        if len(vs) != 1:
            raise NotSingle('%s returns %d different values' % (entry, len(vs)))
        return list(vs.values())[0]

    # ---- comprehensions
    def ctx(self, **kw):
        return cp.Ctx(self.F, self.funcs, **kw)

    def comp(self, entry, ret=lambda t: t, **kw):
        """what the collection returned by entry holds: [Emit]"""
        return cp.comp(self.ctx(), self.outs(entry, sides=False, **kw), ret)

    def emits(self, t):
        return cp.emits(self.ctx(), t)

    def search(self, entry, **kw):
        return cp.search(self.ctx(), self.outs(entry, sides=False, **kw))

    def construct(self, path, variant=None, crate=None):
        """bodies with a construction of the given type"""
        out = []
        for b in self.bodies(crate):
            if b._d is None and path.rsplit('::', 1)[-1] not in b._line:
                continue
            for bb in b.d['bbs']:
                if bb.get('c'):
                    continue
                if any('r' in s and s['r'][0] == 'agg' and s['r'][1] not in ('closure', 'tuple', 'array', 'other')
                       and path_match(s['r'][1], path) and (variant is None or s['r'][2] == variant) for s in bb['s']):
                    out.append(b)
                    break
        return out

    def roots(self, bodies):
        """the public functions and trait methods through which the given bodies are reached (private helpers are replaced
        by their callers, closures by the function around them)"""
        work, seen, out = list(bodies), set(), []
        while work:
            b = work.pop()
            if b.path in seen:
                continue
            seen.add(b.path)
            if b.kind == 'Closure':
                p = b.path.rsplit('::{closure#', 1)[0]
                if p in self.F.bodies:
                    work.append(self.F.bodies[p])
                continue
            if b.kind not in ('Fn', 'AssocFn'):
                continue
            cs = [] if b.d.get('pub') or b.d.get('trait') else [c for c, _ in self.callers(b.path, b.crate)]
            if cs:
                work += cs
            else:
                out.append(b)
        return sorted(out, key=lambda b: b.path)

    # ---- reporting
    def ok(self, inst, cond, msg='', where=None):
        """one obligation: cond must hold"""
        self.obl.append((self.rule, inst, bool(cond)))
        if not cond:
            self.viol.append(('%s/%s' % (self.rule, inst), '%s%s' % (msg, (' at ' + where) if where else '')))
        return bool(cond)

    def where(self, node, ev=None):
        b = node.body
        return '%s (%s:%s)' % (b.path, b.d['file'], ev.line if ev is not None and ev.line else b.d.get('line', '?'))

    def pathtext(self, path):
        cs = []
        for n, c in path:
            if c is not None:
                s = showc(c)
                cs.append(s if len(s) < 160 else s[:157] + '...')
        return ' & '.join(cs[-12:]) or 'unconditional'

    # ---- path rules over big graphs
    def events(self, g, pred, floor=1, inst=''):
        evs = g.events(pred)
        if len(evs) < floor:
            self.ok(inst or 'sites', False, 'expected at least %d site(s) in %s, found %d' % (floor, g.entry.path, len(evs)))
        return evs

    def before(self, g, dst, through=None, edge=None, inst='', msg='', dst_node=None, src=None):
        """every path from entry to an event matching dst (or node dst_node) crosses an event `through` or an edge `edge`"""
        r = g.find_path(dst, avoid_ev=through, avoid_edge=edge, dst_node=dst_node, src=src)
        if r is None:
            return self.ok(inst, True)
        path, (n, i) = r
        ev = n.events[i] if i < len(n.events) else None
        return self.ok(inst, False, '%s [path: %s]' % (msg or 'unguarded path', self.pathtext(path)), self.where(n, ev))

    def all_before(self, g, dst, through=None, edge=None, inst='', msg='', floor=1, src=None):
        if not self.events(g, dst, floor, inst + '#sites'):
            return False
        return self.before(g, dst, through, edge, inst, msg, src=src)

    def exits_ok(self, g):
        """predicate for nodes that return something other than a literal Err/None/false"""
        def m(n):
            if not n.exit or n.exit[0] != 'ret':
                return False
            t = n.exit[1]
            return not (is_err(t))
        return m

    def need_before_success(self, g, through=None, edge=None, inst='', msg='', succ=None):
        """every path to a return that can be a success crosses `through`/`edge`"""
        if not [n for n in g.nodes.values() if (succ or self.exits_ok(g))(n)]:
            return self.ok(inst + '#exit', False, 'no success exit in %s' % g.entry.path)
        return self.before(g, None, through, edge, inst, msg, dst_node=succ or self.exits_ok(g))

    # ---- decision tables over small graphs
    def table(self, entry, rows, inst=None, ret=None, **kw):
        """rows: [(name, guard(outcome)->bool, want(outcome)->bool)].  Each returning outcome must match the guard of at least
        one row and satisfy every row whose guard it matches; each row must be matched by at least one outcome."""
        os_ = [o for o in self.outs(entry, **kw) if o.exit == 'ret']
        nm = inst or (entry if isinstance(entry, str) else entry.entry.path if isinstance(entry, sa.Graph) else entry.path)
        hit = set()
        good = True
        for o in os_:
            m = [r for r in rows if r[1](o)]
            if not m:
                good &= self.ok('%s: uncovered' % nm, False, 'outcome outside the specification: %s' % self.otext(o))
            for r in m:
                hit.add(r[0])
                if not r[2](o):
                    good &= self.ok('%s: %s' % (nm, r[0]), False, 'specified %s, but %s' % (r[0], self.otext(o)))
        for r in rows:
            if r[0] not in hit:
                good &= self.ok('%s: %s' % (nm, r[0]), False, 'no path implements this case')
            elif good:
                self.ok('%s: %s' % (nm, r[0]), True)
        return good

    def otext(self, o):
        s = ' & '.join(showc(c) for c in o.conds) or 'always'
        r = show(o.ret) if o.ret is not None else o.exit
        return '[%s] returns %s' % (s[-700:], r[:300])

    # ---- census over all bodies
    def bodies(self, crate=None):
        for b in self.F.bodies.values():
            if crate is None or b.crate == crate:
                yield b

    def callers(self, pat, crate=None):
        """(body, terminator) of every resolved direct call to pat (textual prefilter on the fact line)"""
        leaves = [p.rsplit('::', 1)[-1] for p in pat.split('|')]
        out = []
        for b in self.bodies(crate):
            if b._d is None and not any(l in b._line for l in leaves):
                continue
            for bb in b.d['bbs']:
                if bb.get('c'):
                    continue
                x = bb['x']
                if x['k'] == 'call' and 'c' in x['f']:
                    c = x['f']['c']
                    if any(path_match(c.get(k, ''), pat) for k in ('fn', 'decl') if c.get(k)):
                        out.append((b, x))
        return out


def has_cond(o, *ps):
    """outcome carries, for each predicate, a condition satisfying it"""
    return all(any(p(c) for c in o.conds) for p in ps)


def run(pid, tier, seed, ensure=True):
    t0 = time.time()
    fn, crates, meta = CHECKS[pid]
    broken, rebuilt, secs = [], [], 0.0
    log = ''
    if ensure:
        from . import collect
        info = collect.ensure(crates, force=tier == 'thorough')
        broken, rebuilt, secs, log = info.broken, info.rebuilt, info.secs, getattr(info, 'log', '')
    facts = Facts(crates)
    r = R(pid, facts, broken, tier == 'thorough')
    rules = meta.get('rules')
    try:
        fn(r)
    except MissingAnchor as e:
        r.ok('anchor', False, 'anchor not found: %s' % e)
    except (sa.Budget, sa.TooManyPaths) as e:
        r.undec.append('%s: %r' % (r.rule, e))
    except Exception as e:  # a construct the rules cannot read: no verdict on it, and said so
        r.undec.append('%s: %r\n%s' % (r.rule, e, traceback.format_exc()))
    if r.broken and r.viol:
        # the tree does not type-check: nothing to decide about what it would do
        r.notes.append('crates that do not type-check: %s; findings there withheld' % ', '.join(sorted(r.broken)))
        r.undec += [k for k, _ in r.viol]
        r.viol = []
    return finish(r, tier, seed, t0, rebuilt, secs, meta)


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                a, b = l[len('known: property='):].split(' ', 1)
                out[(a, b.split(' ## ')[0].strip())] = b
    return out


def finish(r, tier, seed, t0, rebuilt, secs, meta):
    ev = os.environ.get('TN_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kn = known()
    fresh = []
    seen = set()
    for k, m in r.viol:
        if (r.pid, k) in kn:
            if k not in seen:
                print('KNOWN-FINDING: property=%s %s' % (r.pid, kn[(r.pid, k)]))
            seen.add(k)
        else:
            fresh.append((k, m))
    byrule = {}
    for rule, inst, okk in r.obl:
        d = byrule.setdefault(rule, [0, 0])
        d[0] += 1
        d[1] += okk
    nodes = sum(len(g.nodes) for g in r._g.values())
    e = {
        'property': r.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
        'coverage': {
            'explanation': 'Static analysis of the resolved program: type-checked MIR of /repo is extracted by a rustc driver, '
                           'entry points are expanded over their workspace callees, closures and async bodies, and each rule below '
                           'is decided on every path of the resulting flow graph. ' + meta.get('note', ''),
            'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in byrule.items()},
            'obligations': len(r.obl), 'discharged': sum(o for _, _, o in r.obl),
            'entry_points': sorted({g.entry.path for g in r._g.values()}),
            'functions_analysed': len(r.funcs), 'flow_graph_nodes': nodes,
            'paths_enumerated': sum(len(v) for v in r._o.values()),
            'bodies_in_scope': len(r.F.bodies), 'crates': r.F.crates, 'reextracted': rebuilt, 'extract_s': round(secs, 1),
            'samples': ['%s: %s' % (a, b) for a, b, _ in r.obl[:400:max(1, len(r.obl) // 12 or 1)]],
            'undecided': r.undec, 'notes': r.notes,
        },
        'assumptions': ['library functions behave as documented; the type checker resolves calls as the build does'],
    }
    with open(os.path.join(ev, r.pid + '.json'), 'w') as f:
        json.dump(e, f, indent=1)
    if fresh:
        rp = os.path.join(ev, r.pid + '.report.txt')
        with open(rp, 'w') as f:
            for k, m in fresh:
                f.write('property %s\n  rule/instance: %s\n  %s\n' % (r.pid, k, m))
        shown = {}
        for k, m in fresh:
            shown.setdefault(k, []).append(m)
        for k, ms in list(shown.items())[:12]:
            print('  %s: %s%s' % (k, ms[0][:600], ' (and on %d more paths)' % (len(ms) - 1) if len(ms) > 1 else ''))
        print('VIOLATION property=%s replay=%s' % (r.pid, rp))
        return 1
    rp = os.path.join(ev, r.pid + '.report.txt')
    if os.path.exists(rp):
        os.remove(rp)
    for u in r.undec:
        print('  undecided: %s' % u)
    print('OK property=%s obligations=%d functions=%d nodes=%d undecided=%d %.1fs' % (
        r.pid, len(r.obl), len(r.funcs), nodes, len(r.undec), time.time() - t0))
    return 0
