"""C41: headers."""
from engine.rules import *
from engine.lib import *
from checks.certs import lastf, root_of, might_ok, digest_of

HD = 'tn_types::primary::header::'
FIELDS = ['author', 'round', 'epoch', 'created_at', 'payload', 'parents', 'latest_execution_block', 'seed_signature']


def nreads(t):
    """how many values were read from the sequence before this one; t a value decoded by next_element"""
    while t.op in ('fld', 'as'):
        t = t.a[0]
    if t.op != 'call' or leaf(t.a[0]) != 'next_element':
        return None
    n, s = 0, t.a[1][0]
    while s.op == 'upd!':
        if leaf(s.a[1]) == 'next_element':
            n += 1
        s = s.a[0]
    return n


def hash_input(t):
    """the encoded value a digest term was hashed from"""
    t = view(strip(t))
    while t.op in ('fld', 'as', 'agg', 'call', 'cast'):
        if t.op == 'agg':
            if len(t.a[2]) != 1:
                return None
            t = t.a[2][0][1]
        elif t.op == 'call':
            if leaf(t.a[0]) == 'encode':
                return view(t.a[1][0])
            if leaf(t.a[0]) not in ('finalize', 'into', 'from', 'as_bytes', 'hash', 'to_bytes', 'as_ref'):
                return None
            t = t.a[1][0]
            ups = []
            while t.op == 'upd!':
                if leaf(t.a[1]) == 'update':
                    ups.append(t.a[4])
                t = t.a[0]
            if ups:
                if len(ups) != 1:
                    return None
                t = view(ups[0])
        else:
            t = t.a[0]
    return None


@check('C41', ['tn_types'], note='Every constructor of a header, its encoding and decoding, and every path of its validation are read.')
def c41(r):
    with r.section('validate'):
        b = r.fn(HD + 'Header::validate')
        cap = None
        for o in r.rets(b, sides=False):
            kinds = {}
            for c in o.conds:
                k = ckind(r, c)
                if k is None:
                    if not (c[0] == 'is' and show(c[1]).startswith('next(')):
                        r.undec.append('validate: condition %s' % showc(c)[:200])
                    continue
                kinds[k[0]] = k[1]
            if might_ok(o):
                if o.ret.op != 'agg':
                    r.undec.append('validate returns %s' % show(o.ret)[:200])
                for k, what in (('epoch', 'its epoch may differ from that of the committee'), ('parents', 'it may name more parents than there are members'),
                                ('batches', 'it may name more batches than permitted'), ('author', 'its author may not be a member')):
                    r.ok('valid: %s' % k, kinds.get(k) is True, 'a header passes although %s: %s' % (what, r.otext(o)))
                loop = any(c[0] == 'is' and c[2] == 'Ok' and c[3] and show(c[1]).startswith('next(') for c in o.conds)
                done = any(c[0] == 'is' and c[2] == 'Ok' and not c[3] and show(c[1]).startswith('next(') for c in o.conds)
                fine = kinds.get('workers') is True or (done and (not loop or kinds.get('worker') is True))
                part = [leaf(x.a[0]) for c in o.conds if c[0] == 'is' and show(c[1]).startswith('next(') for x in subterms(c[1])
                        if x.op == 'call' and leaf(x.a[0]) in ('skip', 'take', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map')]
                r.ok('valid: every batch', not part, 'only some batches of the payload (%s) are checked: %s' % (part, r.otext(o)))
                r.ok('valid: workers', fine, 'a header passes although its payload may name an unknown worker: %s' % r.otext(o))
            else:
                r.ok('rejected for a reason', any(v is False for v in kinds.values()), 'a well-formed header is rejected: %s' % r.otext(o))
    with r.section('constructed'):
        bs = r.construct(HD + 'HeaderInner', crate='tn_types')
        r.ok('census', len(bs) >= 3, 'constructors of headers: %s' % [x.path for x in bs])
        for b in bs:
            if b.d.get('trait', '') == 'core::clone::Clone' or b.path.endswith('::clone'):
                continue
            for o in r.rets(b, sides=False, opaque=('codec::encode',)):
                for t in subterms(o.ret):
                    if t.op == 'agg' and path_match(t.a[0], HD + 'HeaderInner') or t.op == 'upd' and False:
                        break
                else:
                    if not is_err(o.ret):
                        r.undec.append('%s returns %s' % (b.path, show(o.ret)[:150]))
                    continue
                t = top(o.ret)
                if t is None:
                    if not is_err(o.ret):
                        r.undec.append('%s returns %s' % (b.path, show(o.ret)[:150]))
                    continue
                x = hash_input(fld(t, 'digest'))
                if x is None:
                    d = strip(fld(t, 'digest'))
                    known = not any(y.op == 'call' and leaf(y.a[0]) in ('finalize', 'hash', 'encode', 'digest') for y in subterms(d))
                    r.ok('digest computed: %s' % leaf(b.path), not known, '%s gives a header the digest %s' % (b.path, show(d)[:150]))
                    if not known:
                        r.undec.append('%s: digest %s' % (b.path, show(d)[:200]))
                    continue
                while x.op == 'agg' and not path_match(x.a[0], HD + 'HeaderInner') and len(x.a[2]) == 1:
                    x = x.a[2][0][1]
                for n in FIELDS:
                    r.ok('%s: digest covers %s' % (leaf(b.path), n), strip(fld(x, n)) is strip(fld(t, n)),
                         '%s: the digest is computed over %s = %s but the header has %s' % (b.path, n, show(fld(x, n))[:80], show(fld(t, n))[:80]))
    with r.section('encoding'):
        for b in r.bodies('tn_types'):
            if not (b.path.endswith('Serialize>::serialize') and (HD + 'HeaderRef' in b.path or HD + 'Header as' in b.path)):
                continue
            for o in r.rets(b, sides=False):
                t = strip(o.ret)
                if t.op != 'call' or leaf(t.a[0]) != 'end':
                    if not is_err(t):
                        r.undec.append('%s returns %s' % (b.path, show(t)[:200]))
                    continue
                fs, x = [], t.a[1][0]
                while x.op == 'upd!':
                    if leaf(x.a[1]) in ('serialize_field', 'serialize_element'):
                        fs.insert(0, x.a[4:])
                    x = x.a[0]
                got = [lastf(y[-1]) if not (view(y[-1]).op == 'agg') else lastf(view(y[-1]).a[2][0][1]) for y in fs]
                who = 'HeaderRef' if 'HeaderRef' in b.path else 'Header'
                r.ok('%s: every field' % who, got == FIELDS, 'the encoding of a header holds %s' % got)
                r.ok('%s: own fields' % who, all(root_of(view(y[-1]).a[2][0][1] if view(y[-1]).op == 'agg' else y[-1]) == 1 for y in fs), 'the encoding holds values other than the header\'s')
        vs = [b for b in r.bodies('tn_types') if b.path.endswith('visit_seq') and 'HeaderVisitor' in b.path]
        r.ok('decode: anchor', bool(vs), 'the decoder of headers was not found')
        for b in vs:
            n_ok = 0
            for o in r.rets(b, sides=False, opaque=('codec::encode',)):
                if is_err(o.ret):
                    continue
                t = top(o.ret)
                if t is None:
                    r.undec.append('decode returns %s' % show(o.ret)[:200])
                    continue
                n_ok += 1
                for i, n in enumerate(FIELDS):
                    r.ok('decode: %s' % n, nreads(strip(fld(t, n))) == i, 'field %s of a decoded header is %s, not the value number %d of the encoding' % (n, show(fld(t, n))[:120], i))
            r.ok('decode: possible', n_ok > 0, 'no header ever decodes')
    with r.section('accessors'):
        for n in FIELDS + ['digest']:
            try:
                bs = [b for b in r.bodies('tn_types') if b.path == HD + 'Header::' + n]
            except MissingAnchor:
                bs = []
            for b in bs:
                for o in r.rets(b, sides=False):
                    t = strip(o.ret)
                    if t.op == 'agg' and t.a[1] == 'Some':
                        t = fld(t, '0')
                    if is_none(t):
                        continue
                    r.ok(n, lastf(t) == n and root_of(t) == 1, 'Header::%s returns %s' % (n, show(t)[:120]))


def top(t):
    t = strip(t)
    while t.op == 'agg' and not path_match(t.a[0], HD + 'HeaderInner'):
        if t.a[1] == 'Err' or len(t.a[2]) != 1:
            return None
        t = t.a[2][0][1]
    if t.op == 'call' and leaf(t.a[0]) in ('new', 'from') and t.a[1]:
        return top(t.a[1][0])
    return t if t.op == 'agg' else None


def ckind(r, c):
    """(which requirement, whether this condition says it is met)"""
    if c[0] == 'cmp':
        a, b = strip(c[2]), strip(c[3])
        fa, fb = fset(a), fset(b)
        if 'epoch' in fa and 'epoch' in fb and c[1] in ('eq', 'ne') and {root_of(a), root_of(b)} == {1, 2}:
            return 'epoch', c[1] == 'eq'
        if 'parents' in fa and ('authorities' in fb or 'size' in fb or 'authorities_by_id' in fb):      # parents <(=) size : met ; parents < size also accepted only as met-if
            if c[1] not in ('le', 'lt'):
                return None
            return 'parents', all(isize(b, n) is not None and isize(b, n) - (c[1] == 'lt') <= n for n in range(1, 12))
        if 'parents' in fb and ('authorities' in fa or 'size' in fa or 'authorities_by_id' in fa):
            if c[1] not in ('le', 'lt'):
                return None
            return 'parents', False if all(isize(a, n) is not None and isize(a, n) + (c[1] == 'lt') > n for n in range(1, 12)) else None
        if 'payload' in fa and 'len' in fa and b.op == 'c' and c[1] in ('le', 'lt'):
            v = b.a[0] - (c[1] == 'lt')
            return 'batches', v <= 10
        if 'payload' in fb and 'len' in fb and a.op == 'c' and c[1] in ('le', 'lt'):
            v = a.a[0] + (c[1] == 'lt')
            return ('batches', False) if v == 11 else ('batches', None)
        w, k, left = (a, b, True) if 'payload' in fa else (b, a, False)
        if 'payload' in fset(w) and ('number_of_workers' in fset(k) or k.op == 'c'):
            nw = nworkers(r)
            if c[1] == 'eq' and k.op == 'c' and nw == 1:
                return ('worker', True) if k.a[0] == 0 else None
            if c[1] == 'ne' and k.op == 'c' and nw == 1:
                return ('worker', False) if k.a[0] == 0 else None
            if left and c[1] in ('lt', 'le'):
                lim = k.a[0] + (c[1] == 'le') if k.op == 'c' else nw + (c[1] == 'le')
                return 'worker', lim <= nw
            if not left and c[1] in ('lt', 'le'):
                lim = k.a[0] + (c[1] == 'lt') if k.op == 'c' else nw + (c[1] == 'lt')
                return ('worker', False) if lim >= nw else ('worker', None)
    if c[0] == 'is' and c[2] in ('Ok', 'Some'):
        t = c[1]
        if t.op == 'call' and leaf(t.a[0]) in ('get', 'authority') and len(t.a[1]) == 2 and root_of(t.a[1][0]) == 2 and \
                lastf(t.a[1][1]) == 'author' and root_of(t.a[1][1]) == 1:
            return 'author', c[3]
    if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('contains_key', 'is_member', 'is_authority') and lastf(c[1].a[1][1]) == 'author':
        return 'author', c[2]
    if c[0] == 'true' and c[1].op == 'call' and leaf(c[1].a[0]) in ('all', 'any') and 'payload' in fset(c[1]):
        k = c[1].a[1][1]
        if k.op == 'closure':
            from engine import comp as cp
            x = mk('elem', c[1].a[1][0])
            verdict = []
            for cs, v in cp.apply(r.ctx(), k, (x,)):
                ks = [ckind(r, y) for y in cs] if v.op == 'c' else [ckind(r, cond(v))]
                ks = [y for y in ks if y]
                if len(ks) != 1:
                    return None
                val = bool(v.a[0]) if v.op == 'c' else True
                verdict.append((ks[0][1], val))
            good_when = leaf(c[1].a[0]) == 'all'
            if all((m is True) == (val == good_when) for m, val in verdict):
                return 'workers', c[2] == good_when
    return None


def isize(t, n):
    t = strip(t)
    if t.op == 'cast':
        return isize(t.a[1], n)
    if t.op == 'c':
        return t.a[0]
    if t.op == 'call' and leaf(t.a[0]) in ('len', 'size'):
        return n
    if t.op == 'bin':
        a, b = isize(t.a[1], n), isize(t.a[2], n)
        if a is None or b is None:
            return None
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b, 'Div': a // b if b else None}.get(t.a[0])
    return None


def fset(t):
    return {leaf(x.a[0]) for x in subterms(t) if x.op == 'call'} | {x.a[1] for x in subterms(t) if x.op == 'fld'}


def nworkers(r):
    vs = {o.ret.a[0] for o in r.rets(r.fn('committee::Committee::number_of_workers'), sides=False) if o.ret.op == 'c'}
    return vs.pop() if len(vs) == 1 else 1
