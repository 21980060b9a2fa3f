"""Metric names (C29) and other small components."""
from .config import *

NAMES = ['tn_a', 'tn.a', 'tn_', 'tn.', 'tn.a_tn_', 'tna', 'tn', 'tn-a', 'TN_a', 'Tn.a', 'db.a', 'reth.a', 'reth_a', 'tnx_a', 'tn_reth.a', 'a.tn_', 'a_tn.', 'worker.tn.a', 't', '', ' tn_a', 'tn a', 'process.a', '_tn_']


def native(n):
    return n.startswith('tn_') or n.startswith('tn.')


def name_of(t):
    """is the term the name of the metric passed in?"""
    t = strip(t)
    while t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('name', 'as_str', 'as_ref', 'deref', 'clone', 'to_string', 'borrow', 'into_inner', 'as_bytes', 'to_owned'):
        t = strip(t.a[1][0])
    return t.op == 'param' and t.a[0] == 2


def sv(t, name):
    """the text a term stands for when the metric is called name; None when not known"""
    if name_of(t):
        return name
    s = lit_of(t)
    if s is not None:
        return s
    t = strip(t)
    if t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('name', 'as_str', 'as_ref', 'deref', 'from_parts', 'from', 'into', 'from_name', 'clone', 'to_string') and 'Arguments' not in t.a[0]:
        return sv(t.a[1][0], name)
    if t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'as':
        c = strip(t.a[0].a[0])
        if c.op == 'call' and leaf(c.a[0]) == 'strip_prefix' and len(c.a[1]) == 2:
            a, b = sv(c.a[1][0], name), lit_of(c.a[1][1])
            return a[len(b):] if a is not None and b is not None and a.startswith(b) else None
    v = strfn(t, name)
    if v is not None:
        return v
    try:
        out = ''
        for p in text_of(t):
            x = p[1] if p[0] == 'lit' else sv(p[2], name) if p[1] == 'display' and strip(p[2]) is not t else None
            if x is None:
                return None
            out += x
        return out
    except (NoText, UnicodeError):
        return None


def strfn(t, name):
    """the result of a text operation on known texts; None when not known"""
    if t.op == 'call' and leaf(t.a[0]) in ('new', 'with_capacity') and 'String' in t.a[0]:
        return ''
    if t.op == 'call' and leaf(t.a[0]) == 'as_bytes' and len(t.a[1]) == 1:
        return sv(t.a[1][0], name)
    if t.op in ('call', 'upd!'):
        fn = leaf(t.a[0] if t.op == 'call' else t.a[1])
        args = t.a[1] if t.op == 'call' else (t.a[0],) + tuple(t.a[4:])
        vs = [sv(a, name) for a in args] if args else []
        if vs and None not in vs:
            if t.op == 'upd!' and fn in ('push_str', 'push') and len(vs) == 2:
                return vs[0] + vs[1]
            one = {'to_ascii_lowercase': str.lower, 'to_lowercase': str.lower, 'to_ascii_uppercase': str.upper, 'to_uppercase': str.upper, 'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}
            if t.op == 'call' and len(vs) == 1 and fn in one:
                return one[fn](vs[0])
            if t.op == 'call' and len(vs) == 2 and fn in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and vs[1]:
                v = vs[0]
                while fn != 'trim_end_matches' and v.startswith(vs[1]):
                    v = v[len(vs[1]):]
                while fn != 'trim_start_matches' and v.endswith(vs[1]):
                    v = v[:-len(vs[1])]
                return v
            if t.op == 'call' and len(vs) == 3 and fn == 'replace':
                return vs[0].replace(vs[1], vs[2])
        if t.op == 'call' and fn == 'index' and len(args) == 2 and vs[0] is not None:
            rg = strip(args[1])
            if rg.op == 'agg' and 'Range' in rg.a[0]:
                fs = dict(rg.a[2])
                lo = nv(fs['start'], name) if 'start' in fs else 0
                hi = nv(fs['end'], name) if 'end' in fs else len(vs[0])
                if lo is not None and hi is not None and 'Inclusive' not in rg.a[0] and lo <= hi <= len(vs[0]):
                    return vs[0][lo:hi]
    return None


def nv(t, name):
    """the number a term about the name stands for; None when not known"""
    t = strip(t)
    n = amount(t)
    if isinstance(n, int) and not isinstance(n, bool):
        return n
    if t.op == 'call' and leaf(t.a[0]) == 'len' and len(t.a[1]) == 1:
        v = sv(t.a[1][0], name)
        return None if v is None else len(v)
    if t.op == 'idx':
        v, i = sv(t.a[0], name), nv(t.a[1], name) if hasattr(t.a[1], 'op') else int(t.a[1]) if str(t.a[1]).isdigit() else None
        return ord(v[i]) if v is not None and i is not None and 0 <= i < len(v) else None
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = nv(t.a[1], name), nv(t.a[2], name)
        return None if a is None or b is None else a + b if t.a[0] == 'Add' else a - b
    return None


def lit_of(t):
    t = strip(t)
    if t.op == 'str':
        return t.a[0]
    if t.op == 'c' and isinstance(t.a[0], int) and t.a[1] == 'char':
        return chr(t.a[0])
    if t.op == 'c' and isinstance(t.a[0], str) and t.a[0][:1] in "'\"b":
        try:
            v = ast.literal_eval(t.a[0])
            return v.decode() if isinstance(v, bytes) else v
        except (ValueError, SyntaxError, UnicodeError):
            return None
    return None


def sval(R, t, name):
    """truth of a term about the name; None when not known"""
    t = strip(t)
    if t.op == 'c' and t.a[1] == 'bool':
        return bool(t.a[0])
    if t.op == 'un' and t.a[0] == 'Not':
        v = sval(R, t.a[1], name)
        return None if v is None else not v
    if t.op == 'bin' and t.a[0] in ('BitOr', 'BitAnd'):
        a, b = sval(R, t.a[1], name), sval(R, t.a[2], name)
        return None if a is None or b is None else (a or b if t.a[0] == 'BitOr' else a and b)
    if t.op == 'call' and t.a[1]:
        n = leaf(t.a[0])
        if n == 'is_empty' and len(t.a[1]) == 1:
            v = sv(t.a[1][0], name)
            return None if v is None else v == ''
        if n in ('any', 'all') and len(t.a[1]) == 2:
            xs = items_of(t.a[1][0])
            if xs is None:
                return None
            vs = []
            for x in xs:
                if t.a[1][1].op == 'closure':
                    got = [sval(R, o.ret, name) for o in runs(R, t.a[1][1], [x]) if o.exit == 'ret' and False not in [scond(R, c, name) for c in o.conds]]
                    vs.append(got[0] if len(got) == 1 else None)
                else:
                    vs.append(None)
            if n == 'any':
                return True if True in vs else None if None in vs else False
            return False if False in vs else None if None in vs else True
        if len(t.a[1]) == 2 and n in ('starts_with', 'ends_with', 'contains', 'eq', 'strip_prefix'):
            a, b = t.a[1]
            if n == 'eq' and lit_of(a) is not None:
                a, b = b, a
            s = lit_of(b)
            name = sv(a, name)
            if name is None:
                return None
            if s is None:
                xs = items_of(b)
                if xs and n in ('starts_with', 'strip_prefix') and all(lit_of(x) is not None for x in xs):
                    return any(name.startswith(lit_of(x)) for x in xs)
                return None
            return {'starts_with': name.startswith(s), 'strip_prefix': name.startswith(s), 'ends_with': name.endswith(s), 'contains': s in name, 'eq': name == s}[n]
    return None


def scond(R, c, name):
    if c[0] == 'const':
        return c[1]
    if c[0] == 'true':
        v = sval(R, c[1], name)
        return None if v is None else v == c[2]
    if c[0] == 'is' and c[2] in ('Some', 'Ok'):
        v = sval(R, c[1], name)
        return None if v is None else v == c[3]
    if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            x = sv(a, name)
            if x is not None and lit_of(b) is not None:
                return (x == lit_of(b)) == (c[1] == 'eq')
    if c[0] == 'cmp':
        a, b = nv(c[2], name), nv(c[3], name)
        if a is not None and b is not None:
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b}.get(c[1])
    if c[0] == 'isin':
        a = nv(c[1], name)
        try:
            return None if a is None else a not in [v if isinstance(v, int) else int(v) if isinstance(v, str) else amount(v) for v in c[2]]
        except (TypeError, ValueError):
            return None
    return None


def labelled(c):
    """does a condition look at the labels of the metric?"""
    return any(hasattr(y, 'op') and contains(y, lambda z: z.op == 'call' and leaf(z.a[0]) == 'labels' and z.a[1] and param_of(z.a[1][0]) == 2) for y in c[1:])


@check('C29', ['tn_metrics'])
def c29(r):
    R = r.ctx()
    for m in ('describe_counter', 'describe_gauge', 'describe_histogram', 'register_counter', 'register_gauge', 'register_histogram'):
        with r.section(m):
            b = bodyre(r, r'<tn_metrics::recorder::TnPrefixRecorder as metrics::recorder::Recorder>::%s$' % m)
            outs = [o for o in r.outs(b, sides=False) if o.exit == 'ret']
            for nm in NAMES:
                taken, by_label = [], []
                for o in outs:
                    h = [scond(R, c, nm) for c in o.conds]
                    if False in h:
                        continue
                    if any(labelled(c) for c in o.conds):
                        by_label.append(o)
                        taken.append(o)
                        continue
                    if any(x is None and any(hasattr(y, 'op') and contains(y, lambda z: z.op == 'param' and z.a[0] == 2) for y in c[1:]) for c, x in zip(o.conds, h)):
                        r.undec.append('%s: condition %s' % (m, [showc(c)[:80] for c, x in zip(o.conds, h) if x is None][0]))
                        continue
                    taken.append(o)
                for o in taken:
                    fw = [e for i, e in enumerate(o.events) if e.k == 'call' and 'Recorder>::' in e.name and 'TnPrefix' not in e.name]
                    if not r.ok('forwarded once', len(fw) == 1, '%s of "%s" is forwarded %d times' % (m, nm, len(fw))):
                        continue
                    e = fw[0]
                    r.ok('kind kept', leaf(e.name) == m, '%s is forwarded as %s' % (m, leaf(e.name)))
                    r.ok('to the registry', field_path(e.args[0])[-1:] == ['inner'], '%s is forwarded to %s' % (m, show(e.args[0])[:60]))
                    k = strip(e.args[1])
                    same_ = k.op == 'param' and k.a[0] == 2
                    if native(nm):
                        if same_:
                            r.ok('native names pass through', True)
                            continue
                    elif same_:
                        r.ok('other names get the prefix', False, '%s of "%s" passes the name through without prefix' % (m, nm))
                        continue
                    # a new name
                    labels = None
                    if k.op == 'call' and leaf(k.a[0]) in ('from_parts', 'from_static_parts', 'from_static_labels') and len(k.a[1]) == 2:
                        kt, labels = k.a[1]
                    elif k.op == 'call' and leaf(k.a[0]) in ('from', 'from_name', 'into', 'from_const_str', 'new') and k.a[1]:
                        kt = k.a[1][0]
                    elif k.op == 'call' and leaf(k.a[0]) == 'with_extra_labels':
                        r.undec.append('%s: name %s' % (m, show(k)[:80]))
                        continue
                    else:
                        kt = k
                    got = sv(kt, nm)
                    if got is None:
                        r.undec.append('%s: name %s' % (m, show(kt)[:80]))
                        continue
                    r.ok('native names pass through' if native(nm) else 'other names get the prefix', got == (nm if native(nm) else 'reth.' + nm), '%s of "%s" is renamed to "%s"' % (m, nm, got))
                    if m.startswith('register'):
                        while labels is not None and strip(labels).op == 'call' and leaf(strip(labels).a[0]) == 'labels' and strip(strip(labels).a[1][0]).op == 'call' and leaf(strip(strip(labels).a[1][0]).a[0]) == 'from_parts':
                            labels = strip(strip(labels).a[1][0]).a[1][1]
                        lb = strip(labels) if labels is not None else None
                        while lb is not None and lb.op == 'call' and lb.a[1] and leaf(lb.a[0]) in ('cloned', 'copied', 'into_iter', 'iter', 'collect', 'to_vec', 'clone'):
                            lb = strip(lb.a[1][0])
                        good = lb is not None and (lb.op == 'call' and leaf(lb.a[0]) == 'labels' and lb.a[1] and param_of(lb.a[1][0]) == 2)
                        bad = lb is None or lb.op in ('agg', 'c', 'str', 'cdef') or lb.op == 'call' and leaf(lb.a[0]) in ('new', 'empty', 'default', 'take', 'skip', 'filter')
                        if not good and not bad:
                            r.undec.append('%s: labels %s' % (m, show(lb)[:80]))
                        else:
                            r.ok('labels kept', good, '%s loses the labels of "%s"' % (m, nm))
                    rest = [param_of(a) for a in e.args[2:]]
                for o in taken:
                    for e in [e for e in o.events if e.k == 'call' and 'Recorder>::' in e.name and 'TnPrefix' not in e.name]:
                        want = [3, 4] if m.startswith('describe') else [3]
                        r.ok('unit, description and metadata kept', [param_of(a) for a in e.args[2:]] == want, '%s forwards %s' % (m, ', '.join(show(a)[:40] for a in e.args[2:])))
                        if m.startswith('register'):
                            r.ok('the registered handle is returned', o.ret is not None and (o.ret is e.res or strip(o.ret) is strip(e.res)), '%s answers %s' % (m, show(o.ret)[:60]))
    with r.section('installation'):
        n = 0
        for o in r.outs(bodyre(r, r'tn_metrics::recorder::install_recorder$'), sides=False):
            st = [e for i, e in ecalls(o, 'set_global_recorder')]
            if o.exit != 'ret' or not st or okret(o) is not True:
                continue
            n += 1
            g = strip(st[-1].args[0])
            r.ok('the prefixing recorder is installed', 'TnPrefixRecorder' in show(g)[:60] or g.op == 'agg' and 'TnPrefixRecorder' in g.a[0], 'the recorder installed is %s' % show(g)[:80])
            r.ok('installation failure reported', ok_of(o, st[-1].res) is True, 'install_recorder succeeds although no recorder was installed')
            hs = [e for i, e in ecalls(o, 'handle')]
            r.ok('the handle renders the installed registry', hs and all(show(e.args[0]) == show(fld(g, 'inner')) for e in hs), 'the handle is of another registry')
        n or r.undec.append('installation')
