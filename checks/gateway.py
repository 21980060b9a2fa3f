"""Worker gateway: rejections (C32), gauges and configuration (C33)."""
from .config import *

ERR = r'worker_gateway::error::'
MAPOPS = ('GatewayError::code', 'GatewayError::status', 'GatewayError::reason', 'GatewayError::message')
PROXY = ('forward', 'error_response', 'error_response_with_id', 'screen_raw_transaction', 'first_ready_rpc_url', 'reject_body', 'RequestInFlight::enter', 'record_forwarded', 'resolve_upstreams')
CONTRACT = {
    'NoUpstreamReady': (503, -32000, 'no_upstream_ready'), 'UpstreamUnreachable': (502, -32001, 'upstream_unreachable'),
    'UpstreamTimeout': (504, -32002, 'upstream_timeout'), 'RequestTooLarge': (413, -32003, 'request_too_large'),
    'LoopDetected': (508, -32004, 'loop_detected'), 'RequestTimeout': (408, -32005, 'request_timeout'),
    'RateLimited': (429, -32006, 'rate_limited'), 'InvalidTransaction': (400, -32007, 'invalid_transaction'),
    'UnsupportedTransactionType': (400, -32008, 'unsupported_transaction_type'), 'UnreadableBody': (400, -32600, 'unreadable_body')}


def table(r, name):
    """{variant: constant} of a mapping over the rejection kinds"""
    out = {}
    for o in r.outs(bodyre(r, ERR + r'GatewayError::%s$' % name), sides=False):
        if o.exit != 'ret':
            continue
        vs = [c[2] for c in o.conds if c[0] == 'is' and param_of(strip(c[1])) == 1 and c[3]]
        if not vs:
            no = set(x for c in o.conds if c[0] == 'isin' and param_of(strip(c[1])) == 1 for x in c[2]) | set(c[2] for c in o.conds if c[0] == 'is' and param_of(strip(c[1])) == 1 and not c[3])
            vs = [v for v in CONTRACT if v not in no]
            if not no and o.conds:
                r.undec.append('%s: %s' % (name, txt(o, 100)))
                continue
        t = strip(o.ret)
        while t.op in ('fld', 'agg', 'cast', 'call') and not (t.op == 'fld'):
            if t.op == 'agg' and len(t.a[2]) == 1:
                t = t.a[2][0][1]
            elif t.op == 'cast':
                t = t.a[1]
            elif t.op == 'call' and leaf(t.a[0]) in ('from', 'into', 'new_unchecked', 'unwrap') and t.a[1]:
                t = t.a[1][0]
            else:
                break
            t = strip(t)
        v = t.a[0] if t.op in ('c', 'str') else None
        if v is None:
            r.undec.append('%s of %s: %s' % (name, vs, show(o.ret)[:60]))
            continue
        if isinstance(v, int) and name == 'code' and v >= 2 ** 31:
            v -= 2 ** 32
        for x in vs:
            out.setdefault(x, []).append(v)
    return out


def jsonmap(t):
    """{key: value term} of a JSON object built by insertions"""
    t = jsonval(t)
    if t.op == 'agg' and t.a[1] == 'Object':
        t = strip(t.a[2][0][1])
    d = {}
    while t.op == 'upd!' and leaf(t.a[1]) == 'insert' and len(t.a) >= 6:
        k = peelstr(t.a[4])
        if k is None:
            return None
        d.setdefault(k, t.a[5])
        t = strip(t.a[0])
    return d if t.op == 'call' and leaf(t.a[0]) in ('new', 'default', 'with_capacity') else None


def peelstr(t):
    t = strip(t)
    while t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('from', 'into', 'to_string', 'to_owned', 'String'):
        t = strip(t.a[1][0])
    return t.a[0] if t.op == 'str' else None


def jsonval(t):
    t = strip(t)
    while True:
        if t.op == 'fld' and t.a[0].op == 'as':
            t = strip(t.a[0].a[0])
        elif t.op == 'payload':
            t = strip(t.a[0])
        elif t.op == 'call' and t.a[1] and leaf(t.a[0]) in ('to_value', 'from', 'into', 'clone'):
            t = strip(t.a[1][0])
        elif t.op == 'agg' and t.a[1] in ('String', 'Number') and len(t.a[2]) == 1:
            t = strip(t.a[2][0][1])
        else:
            return t


def isnull(t):
    """JSON null, written out or as the default of a value"""
    t = strip(t)
    return t.op == 'agg' and t.a[1] == 'Null' or t.op == 'call' and not t.a[1] and leaf(t.a[0]) == 'default'


def ofself(t, name, p=1):
    t = jsonval(t)
    return t.op == 'call' and t.a[0].endswith('GatewayError::' + name) and param_of(t.a[1][0]) == p


def metric_events(o, lo=0):
    """[(operation, metric name, amount, labels)] on outcome o, in order"""
    out, key, label = [], None, []
    for e in o.events:
        if e.k != 'call':
            continue
        n = leaf(e.name)
        if 'metrics' in e.name and n in ('from_name', 'from_parts', 'from_static_labels', 'from_static_name', 'from_static_parts', 'from'):
            key = peelstr(e.args[0]) if e.args else None
        elif 'label' in e.name.lower() and n in ('new', 'from_static_parts'):
            label = [peelstr(e.args[0]), e.args[1]] if len(e.args) == 2 else []
        elif re.search(r'metrics::handles::(Gauge|Counter|Histogram)::', e.name) and n in ('increment', 'decrement', 'set', 'absolute', 'record'):
            out.append((n, key, e.args[1] if len(e.args) > 1 else None, label))
            label = []
    return out


@check('C32', ['worker_gateway'])
def c32(r):
    R = r.ctx()
    with r.section('contract'):
        for i, name in enumerate(('status', 'code', 'reason')):
            t = table(r, name)
            for v, want in CONTRACT.items():
                got = t.get(v)
                if not got:
                    r.undec.append('%s of %s' % (name, v))
                    continue
                r.ok('%s of each rejection' % name, got == [want[i]] or set(got) == {want[i]}, 'the %s of %s is %s' % (name, v, ', '.join(map(str, got))))
            if name != 'status':
                vals = [x for xs in t.values() for x in set(xs)]
                r.ok('%ss are distinct' % name, len(vals) == len(set(vals)), 'two kinds of rejection share a %s' % name)
    with r.section('response'):
        n = 0
        outs = r.outs(bodyre(r, ERR + 'error_response_with_id$'), sides=False, opaque=MAPOPS + ('record_rejection',))
        for o in outs:
            if o.exit != 'ret':
                continue
            n += 1
            rec = [e for i, e in ecalls(o, 'record_rejection')]
            r.ok('counted once', len(rec) == 1, 'a rejection is counted %d times' % len(rec))
            for e in rec:
                r.ok('counted under its reason', ofself(e.args[0], 'reason'), 'a rejection is counted as %s' % show(e.args[0])[:80])
            ser = [e for i, e in ecalls(o, 'to_string', 'to_vec')]
            ok = ok_of(o, ser[-1].res) if ser else None
            if ser and ok is not False:
                d = jsonmap(ser[-1].args[0])
                if d is None:
                    r.undec.append('body: %s' % show(ser[-1].args[0])[:100])
                else:
                    idt = jsonval(d['id']) if 'id' in d else None
                    r.ok('the id is echoed', idt is not None and idt.op == 'fld' and param_of(strip(idt.a[0])) == 2, 'the response carries the id %s' % (show(d['id'])[:60] if 'id' in d else 'of nothing'))
                    r.ok('protocol version', 'jsonrpc' in d and peelstr(jsonval(d['jsonrpc'])) == '2.0', 'the response lacks "jsonrpc": "2.0"')
                    e_ = jsonmap(d['error']) if 'error' in d else {}
                    if e_ is None:
                        r.undec.append('error object %s' % show(d['error'])[:80])
                    else:
                        r.ok('the code of the rejection', 'code' in e_ and ofself(e_['code'], 'code'), 'the response carries the code %s' % (show(e_['code'])[:60] if 'code' in e_ else '-'))
                        r.ok('the message of the rejection', 'message' in e_ and ofself(e_['message'], 'message'), 'the response carries no message of its rejection')
                    r.ok('no result beside the error', 'result' not in d, 'an error response carries a result')
            st = [e for e in o.events if e.k == 'write' and any(ofself(a, 'status') for a in e.args)] + [e for i, e in ecalls(o, 'status') if e.name.endswith('Builder::status') and ofself(e.args[1], 'status')]
            w = [e for e in o.events if e.k == 'write' and 'status_mut' in show(e.args[0])] + [e for i, e in ecalls(o, 'status') if e.name.endswith('Builder::status')]
            if not st and not w and any('from_parts' in e.name or leaf(e.name) == 'into_response' for e in o.events if e.k == 'call'):
                r.undec.append('status of the response')
            else:
                r.ok('the status of the rejection', len(st) >= 1 and (not w or w[-1] in st), 'the response does not carry the status of its rejection')
        n or r.undec.append('error_response_with_id')
        for o in r.outs(bodyre(r, ERR + 'error_response$'), sides=False, opaque=('error_response_with_id', 'RequestId::recover')):
            if o.exit != 'ret':
                continue
            t = strip(o.ret)
            good = t.op == 'call' and leaf(t.a[0]) == 'error_response_with_id' and param_of(t.a[1][0]) == 1
            i = strip(t.a[1][1]) if good else None
            r.ok('an unparsed body yields its own id', good and i.op == 'call' and leaf(i.a[0]) == 'recover' and param_of(i.a[1][0]) == 2, 'error_response answers %s' % show(t)[:100])
        for b, x in r.callers('telemetry::record_rejection'):
            r.ok('counted only by the response', 'error_response_with_id' in b.path, '%s counts a rejection of its own' % b.path)
    with r.section('telemetry'):
        for o in r.outs(bodyre(r, r'worker_gateway::telemetry::record_rejection$'), sides=False):
            ev = metric_events(o)
            for nm in ('tn_worker_gateway_requests_total', 'tn_worker_gateway_rejections_total'):
                k = [x for x in ev if x[1] == nm]
                r.ok('rejection counters', len(k) == 1 and k[0][0] == 'increment' and is_const(strip(k[0][2])) and strip(k[0][2]).a[0] == 1, '%s is changed %s by one rejection' % (nm, k and '%d times or by another amount' % len(k) or 'never'))
            k = [x for x in ev if x[1] == 'tn_worker_gateway_rejections_total' and x[3]]
            if k:
                r.ok('labelled with the reason', k[0][3][0] == 'reason' and param_of(k[0][3][1]) == 1, 'the rejection counter is labelled %s = %s' % (k[0][3][0], show(k[0][3][1])[:40]))
    with r.section('id'):
        for o in r.outs(bodyre(r, ERR + r'RequestId::from_request$'), sides=False):
            if o.exit != 'ret':
                continue
            v = strip(fld(o.ret, '0'))
            g = [e for i, e in ecalls(o, 'get')]
            if any(peelstr(e.args[1]) != 'id' for e in g):
                r.ok('the parsed id', False, 'the id is read from the member %s' % [peelstr(e.args[1]) for e in g])
                continue
            got = [e for e in g if ok_of(o, e.res) is True]
            if isnull(v):
                r.ok('null only without an id', not got, 'a request with an id is answered null')
            elif got and contains(v, lambda z: z is strip(got[-1].res)):
                r.ok('the parsed id', True)
            else:
                r.undec.append('from_request: %s' % show(v)[:80])
        for o in r.outs(bodyre(r, ERR + r'RequestId::recover$'), sides=False, opaque=()):
            if o.exit != 'ret':
                continue
            v = strip(fld(o.ret, '0'))
            p = [e for e in o.events if e.k == 'call' and e.name.startswith('serde_json') and leaf(e.name).startswith('from_')]
            if not p:
                r.undec.append('recover: %s' % txt(o, 80))
                continue
            r.ok('the whole body is one value', leaf(p[0].name) in ('from_slice', 'from_str') and len(p) == 1, 'recover parses with %s' % leaf(p[0].name))
            a = strip(p[0].args[0])
            while a.op == 'call' and leaf(a.a[0]) in ('from_utf8', 'as_ref', 'deref') or a.op == 'fld' and a.a[0].op == 'as' or a.op == 'payload':
                a = strip(a.a[1][0]) if a.op == 'call' else strip(a.a[0].a[0]) if a.op == 'fld' else strip(a.a[0])
            if param_of(a) == 1:
                r.ok('the whole body is parsed', True)
            else:
                r.ok('the whole body is parsed', False, 'recover parses %s' % show(p[0].args[0])[:80])
            ok, src = ok_of(o, p[0].res), p[0].res
            if 'Deserializer::' in p[0].name:
                # parsed by hand: a value, then the end of the input
                ds = [e for e in o.events if e.k == 'call' and leaf(e.name).startswith('deserialize')]
                en = [e for e in o.events if e.k == 'call' and leaf(e.name) == 'end' and 'Deserializer' in e.name]
                if not ds:
                    r.undec.append('recover: %s' % txt(o, 80))
                    continue
                src = ds[0].res
                oks = [ok_of(o, e.res) for e in ds + en]
                ok = False if False in oks else None if None in oks else True
                if ok is True and not isnull(v):
                    r.ok('no trailing bytes', bool(en), 'recover answers an id without looking at what follows it')
            if isnull(v):
                r.ok('null only for what is not one request', ok is False, 'recover answers null for a parsed request (%s)' % txt(o, 120))
            elif v.op == 'fld' and v.a[1] == '0' and contains(v, lambda z: z is strip(src)):
                r.ok('the id of the body', ok is True, 'recover reads an id from a failed parse')
            else:
                r.undec.append('recover: %s' % show(v)[:80])
        for o in r.outs(bodyre(r, r'<' + ERR + r'IdMember as .*Deserialize.*>::deserialize$'), sides=False):
            if o.exit != 'ret':
                continue
            f = leaf(strip(o.ret).a[0]) if strip(o.ret).op == 'call' else None
            if f in ('deserialize_map', 'deserialize_any'):
                r.ok('only an object has an id', True)
            elif f and f.startswith('deserialize_'):
                r.ok('only an object has an id', False, 'the body is read with %s' % f)
            else:
                r.undec.append('IdMember: %s' % show(o.ret)[:80])
        for b in bodies(r, r'<' + ERR + r'IdMemberVisitor as .*>::visit_\w+$'):
            r.ok('only an object has an id', b.path.endswith('visit_map'), 'the id visitor accepts %s' % b.path.split('::')[-1])
        b = bodyre(r, r'<' + ERR + r'IdMemberVisitor as .*>::visit_map$')
        members(r, R, b)
    with r.section('proxy'):
        n = 0
        for o in r.outs(bodyre(r, r'worker_gateway::proxy::proxy::\{closure#0\}$'), sides=False, opaque=PROXY):
            if o.exit != 'ret':
                continue
            n += 1
            fw = [(i, e) for i, e in ecalls(o, 'forward')]
            rej = [(i, e) for i, e in ecalls(o, 'error_response', 'error_response_with_id', 'reject_body')]
            rf = [(i, e) for i, e in ecalls(o, 'record_forwarded')]
            r.ok('answered once', len(rej) + len(rf) == 1, 'a request is counted %d times as rejected and %d times as forwarded' % (len(rej), len(rf)))
            r.ok('forwarded at most once', len(fw) <= 1, 'a request is forwarded %d times' % len(fw))
            hop = [c for c in o.conds if c[0] == 'true' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'contains_key']
            if fw:
                r.ok('a looping request is not forwarded', any(not c[2] for c in hop), 'a request is forwarded without looking for the hop marker')
                sc = [e for i, e in ecalls(o, 'screen_raw_transaction')]
                r.ok('a rejected transaction is not forwarded', bool(sc) and ok_of(o, sc[0].res) is False, 'a request is forwarded without screening its transaction')
                rd = [e for i, e in ecalls(o, 'first_ready_rpc_url')]
                r.ok('forwarded to a ready worker', bool(rd) and ok_of(o, rd[0].res) is True and any(contains(strip(a), lambda z: z is strip(rd[0].res)) for a in fw[0][1].args), 'a request is forwarded to a worker that is not known to be ready')
                okf = ok_of(o, fw[0][1].res)
                r.ok('a failed forward is a rejection', (okf is True) == bool(rf), 'a %s forward is %s' % ('failed' if okf is False else 'successful', 'counted as forwarded' if rf else 'answered as a rejection'))
            elif rf:
                r.ok('only forwarded requests are counted so', False, 'a request that was not forwarded is counted as forwarded')
        n or r.undec.append('proxy')


def members(r, R, b):
    """the visitor keeps the last id and ignores the other members"""
    outs = [o for o in r.outs(b, sides=False, loops=2) if o.exit == 'ret']
    tf = [e for o in outs for i, e in ecalls(o, 'try_fold', 'fold', 'try_for_each')]
    if tf:
        e = tf[0]
        if leaf(e.name) != 'try_fold':
            r.undec.append('visit_map: ' + leaf(e.name))
            return
        src = strip(e.args[0])
        init = strip(e.args[1])
        r.ok('no id is null', isnull(init), 'a request without id is answered %s' % show(init)[:40])
        if not (src.op == 'call' and leaf(src.a[0]) == 'from_fn' and strip(src.a[1][0]).op == 'closure'):
            r.undec.append('visit_map: members of %s' % show(src)[:80])
            return
        for o in runs(R, src.a[1][0], []):
            walk(r, o)
        acc, m = mk('c', 'acc', 'acc'), mk('c', 'member', 'member')
        for cs, v in apply(R, e.args[2], [acc, m]):
            v = strip(v)
            isok = [c[3] == (c[2] == 'Ok') for c in cs if c[0] == 'is' and strip(c[1]) is m]
            some = [c[3] == (c[2] in ('Some', 'Ok')) for c in cs if c[0] == 'is' and strip(c[1]) is not m]
            if v.op == 'agg' and v.a[1] == 'Ok':
                x = strip(payload(v, 'Ok'))
                if isok == [True] and some == [True]:
                    r.ok('the last id is kept', contains(x, lambda z: z is m) and not contains(x, lambda z: z is acc), 'a repeated id does not replace the earlier one')
                elif isok == [True] and some == [False]:
                    r.ok('other members leave the id', x is acc, 'another member changes the id to %s' % show(x)[:60])
                elif isok and not isok[0]:
                    r.ok('a malformed body has no id', False, 'a malformed member is ignored')
                elif x is acc or contains(x, lambda z: z is m):
                    r.ok('the last id is kept', False, 'the id kept does not depend on the member: %s (%s)' % (show(x)[:60], ' & '.join(map(showc, cs))[:120]))
                else:
                    r.undec.append('visit_map: fold %s' % show(x)[:60])
            elif v.op == 'agg' and v.a[1] in ('Err', 'Break'):
                r.ok('a well-formed body is read to its end', isok == [False], 'reading stops at a well-formed member')
            else:
                r.undec.append('visit_map: fold %s' % show(v)[:60])
        for o in outs:
            res = ok_of(o, [x for i, x in ecalls(o, 'try_fold')][0].res)
            k = okret(o)
            if k is None:
                r.undec.append('visit_map: %s' % show(o.ret)[:60])
            else:
                r.ok('a malformed body has no id', k == res or res is None, 'a body whose members cannot be read has an id')
        return
    n = 0
    for o in outs:
        ks = [e for i, e in ecalls(o, 'next_key', 'next_entry')]
        if not ks:
            r.undec.append('visit_map: %s' % txt(o, 100))
            return
        n += 1
        walk(r, o, loop=True)
    n or r.undec.append('visit_map')


def walk(r, o, loop=False):
    """a run over the members: reads of keys and values, and what is answered"""
    last, got_end, err = None, False, False
    seq = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('next_key', 'next_value', 'next_entry')]
    for i, e in enumerate(seq):
        if leaf(e.name) == 'next_entry':
            r.undec.append('members read as entries')
            return
        if leaf(e.name) == 'next_value':
            prev = seq[i - 1] if i else None
            if prev is None or leaf(prev.name) != 'next_key':
                r.undec.append('a value read without its key')
                return
            okv = [c[3] == (c[2] == 'Ok') for c in o.conds if c[0] == 'is' and strip(c[1]) is strip(e.res)]
            isid = None
            for c in o.conds:
                xs = None
                if c[0] == 'cmp' and c[1] in ('eq', 'ne'):
                    xs, pol = (strip(c[2]), strip(c[3])), c[1] == 'eq'
                elif c[0] == 'true' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) in ('eq', 'ne'):
                    xs, pol = tuple(strip(x) for x in strip(c[1]).a[1]), c[2] == (leaf(strip(c[1]).a[0]) == 'eq')
                if xs and any(x.op == 'str' for x in xs) and any(contains(x, lambda z: z is strip(prev.res)) for x in xs):
                    name = next(x.a[0] for x in xs if x.op == 'str')
                    if name == 'id':
                        isid = pol
                    else:
                        r.ok('the id is the member named id', False, 'the member "%s" is looked for' % name)
            if isid:
                last = e
            elif isid is None:
                r.undec.append('a member read without looking at its name')
            if okv == [False]:
                err = True
    t = strip(o.ret)
    if loop:
        v = t
        if t.op == 'agg' and t.a[1] == 'Ok':
            v = strip(fld(payload(t, 'Ok'), '0')) if True else v
            r.ok('a malformed body has no id', not err, 'a member that cannot be read is ignored')
            ends = [c for c in o.conds if c[0] == 'is' and contains(strip(c[1]), lambda z: z is strip(seq[-1].res))]
            r.ok('a body is read to its end', leaf(seq[-1].name) == 'next_key', 'reading stops before the end of the body')
            if last is None:
                r.ok('no id is null', isnull(v), 'a request without id is answered %s' % show(v)[:40])
            else:
                r.ok('the last id is kept', contains(v, lambda z: z is strip(last.res)) and not any(contains(v, lambda z: z is strip(x.res)) for x in seq if x is not last and leaf(x.name) == 'next_value' and x.res is not None and strip(x.res) is not strip(last.res)), 'the id answered is not that of the last member named id')
        return
    # one step of from_fn: None at the end, Some(Err) on failure, Some(Ok(Some(id) | None))
    if t.op == 'agg' and t.a[1] == 'None':
        r.ok('a body is read to its end', not any(leaf(e.name) == 'next_value' for e in seq), 'reading stops before the end of the body')
        r.ok('a malformed body has no id', not any(c[0] == 'is' and c[3] != (c[2] == 'Ok') and any(strip(c[1]) is strip(e.res) for e in seq) for c in o.conds), 'a member that cannot be read ends the body')
        return
    if not (t.op == 'agg' and t.a[1] == 'Some'):
        r.undec.append('members: %s' % show(t)[:80])
        return
    x = strip(payload(t, 'Some'))
    if x.op == 'agg' and x.a[1] == 'Ok':
        y = strip(payload(x, 'Ok'))
        r.ok('a malformed body has no id', not err, 'a member that cannot be read is ignored')
        if y.op == 'agg' and y.a[1] == 'Some':
            r.ok('the id is the member named id', last is not None and contains(y, lambda z: z is strip(last.res)), 'the value of another member is taken for the id')
        elif y.op == 'agg' and y.a[1] == 'None':
            r.ok('the id is found', last is None, 'the value of the id is dropped')
        else:
            r.undec.append('members: %s' % show(y)[:80])
    elif x.op == 'agg' and x.a[1] == 'Err':
        r.ok('a malformed body has no id', True)
    else:
        r.undec.append('members: %s' % show(x)[:80])


GAUGE = 'tn_worker_gateway_inflight_requests'


@check('C33', ['worker_gateway'])
def c33(r):
    R = r.ctx()
    T_ = r'worker_gateway::telemetry::'
    with r.section('guard'):
        series = {}
        for what, pat, up in (('enter', T_ + r'RequestInFlight::enter$', True), ('drop', r'<' + T_ + r'RequestInFlight as core::ops::drop::Drop>::drop$', False)):
            bs = bodies(r, pat)
            if not r.ok('the guard has an end', bool(bs), 'the in-flight guard has no %s' % what):
                continue
            for o in r.outs(bs[0], sides=False):
                if o.exit not in ('ret',):
                    continue
                ev = [x for x in metric_events(o) if x[1] == GAUGE]
                amounts = []
                for n, k, a, l in ev:
                    a = strip(a)
                    v = fnum(R, a, {})
                    amounts.append((n, v))
                series.setdefault(what, set()).update((l[0], show(l[1])) if l else () for n, k, a, l in ev)
                series[what] |= {('static', re.sub(r'alloc\d+', 'alloc', show(e.args[1]))) for e in o.events if e.k == 'call' and 'metrics::key' in e.name and leaf(e.name) in ('from_static_labels', 'from_static_parts') and len(e.args) == 2 and peelstr(e.args[0]) == GAUGE}
                moving = [strip(a) for n, k, a, l in ev if fnum(R, strip(a), {}) is None and contains(strip(a), lambda z: z.op == 'call' and leaf(z.a[0]) in ('elapsed', 'now', 'as_secs_f64', 'as_secs', 'len', 'random', 'duration_since', 'as_millis'))]
                if moving:
                    r.ok('one up, one down', False, '%s changes the in-flight gauge by %s' % (what, show(moving[0])[:80]))
                    continue
                net = sum((v if n == 'increment' else -v) for n, v in amounts) if all(v is not None and n in ('increment', 'decrement') for n, v in amounts) else None
                if net is None:
                    r.ok('one up, one down', not any(n == 'set' for n, v in amounts), '%s sets the gauge' % what) if any(n == 'set' for n, v in amounts) else r.undec.append('%s: amounts %s' % (what, amounts))
                else:
                    r.ok('one up, one down', net == (1.0 if up else -1.0), '%s changes the in-flight gauge by %g (%s)' % (what, net, txt(o, 80)))
        if len(series) == 2:
            r.ok('the gauge that went up comes down', series['enter'] == series['drop'], 'the gauge is raised with labels %s and lowered with %s' % (sorted(map(str, series['enter'])), sorted(map(str, series['drop']))))
        def within(path, seen=()):
            if 'RequestInFlight' in path:
                return True
            if path in seen:
                return True
            cs = [b for b, x in r.callers('::'.join(path.split('::')[-2:]).split('::{')[0])]
            return bool(cs) and all(within(b.path, seen + (path,)) for b in cs)
        for b, x in r.callers('Gauge::increment') + r.callers('Gauge::decrement'):
            r.ok('only the guard counts requests in flight', within(b.path), '%s changes a gauge outside its guard' % b.path)
        for b, x in r.callers('mem::forget') + r.callers('ManuallyDrop::new') + r.callers('Box::leak'):
            r.ok('the guard is not forgotten', 'RequestInFlight' not in str(x) and 'RequestInFlight' not in b.path, '%s forgets a guard' % b.path)
        made = set()
        for b in bodies(r, r'<?worker_gateway::'):
            for o in (r.outs(b, sides=False, opaque=PROXY) if 'RequestInFlight' in str(b.d)[:200000] and not b.path.endswith('::drop') else ()):
                for e in o.events:
                    if e.k == 'new' and 'RequestInFlight' in str(e.name):
                        made.add(b.path)
        for p in made:
            r.ok('a guard is made by entering', p.endswith('RequestInFlight::enter'), '%s makes a guard without counting' % p)
        made or r.undec.append('the guard is made nowhere')
        cl = [b for b in bodies(r, r'<.*RequestInFlight as core::clone::Clone>::clone')]
        r.ok('a guard is not copied', not cl, 'the guard can be cloned: one increment, several decrements')
    with r.section('request'):
        n = 0
        for o in r.outs(bodyre(r, r'worker_gateway::proxy::proxy::\{closure#0\}$'), sides=False, opaque=PROXY):
            if o.exit != 'ret':
                continue
            n += 1
            en = [(i, e) for i, e in ecalls(o, 'enter') if 'RequestInFlight' in e.name]
            if not r.ok('a request is counted', len(en) == 1, 'a request is counted in flight %d times' % len(en)):
                continue
            i, e = en[0]
            work = [j for j, x in enumerate(o.events) if x.k == 'await' or x.k == 'call' and leaf(x.name) in ('forward', 'error_response', 'error_response_with_id', 'reject_body', 'screen_raw_transaction')]
            r.ok('counted from the start', not work or i < min(work), 'work is done before the request is counted')
            dr = [j for j, x in enumerate(o.events) if x.k == 'drop' and x.args and strip(x.args[0]) is strip(e.res)]
            moved = [x for x in o.events[i + 1:] if x.k in ('call', 'new') and any(contains(strip(a), lambda z: z is strip(e.res)) for a in x.args)]
            if moved and not dr:
                r.undec.append('the guard is moved to %s' % moved[0].name)
                continue
            r.ok('counted to the end', bool(dr) and (not work or max(dr) > max(work)), 'the guard is released before the request ends')
        n or r.undec.append('proxy')
    with r.section('configuration'):
        n = 0
        for o in r.outs(bodyre(r, r'worker_gateway::config::GatewayConfig::load$'), sides=False, opaque=('load_from_path', 'load_from_path_or_default')):
            if o.exit != 'ret':
                continue
            n += 1
            ld = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('load_from_path', 'load_from_path_or_default')]
            if not ld:
                rd = [e for e in o.events if e.k == 'call' and leaf(e.name) in ('read_to_string', 'read', 'open', 'from_str', 'from_reader', 'from_slice')]
                dflt = strip(o.ret)
                if okret(o) and any(z.op == 'call' and leaf(z.a[0]) == 'default' for z in subterms(o.ret)):
                    r.ok('no defaults', False, 'a gateway configuration is replaced by defaults (%s)' % txt(o, 120))
                elif okret(o) is False or rd and all(ok_of(o, e.res) is not False for e in rd):
                    r.ok('no defaults', True)
                else:
                    r.ok('no defaults', okret(o) is not True, 'a configuration that cannot be read is accepted (%s)' % txt(o, 120))
                continue
            e = ld[-1]
            r.ok('a missing file is an error', leaf(e.name) == 'load_from_path', 'a missing configuration is replaced by defaults')
            r.ok('the file given is read', param_of(e.args[0]) == 1, 'the configuration is read from %s' % show(e.args[0])[:60])
            f = strip(e.args[1]) if len(e.args) > 1 else None
            r.ok('read as YAML', f is None or 'YAML' in show(f), 'the configuration is read as %s' % show(e.args[1])[:40])
            ok, rt = ok_of(o, e.res), okret(o)
            if ok is False:
                r.ok('a malformed file is an error', rt is False, 'a configuration that cannot be read is replaced by %s' % show(o.ret)[:80])
            elif ok is True and rt is not None:
                r.ok('the configuration read is used', rt and contains(strip(o.ret), lambda z: z is strip(e.res)), 'load answers %s' % show(o.ret)[:80])
            elif strip(o.ret) is not strip(e.res):
                r.undec.append('load: %s' % show(o.ret)[:80])
        n or r.undec.append('load')
        n = 0
        for o in r.outs(bodyre(r, r'worker_gateway::cli::Cli::resolve_upstreams$'), sides=False, opaque=('GatewayConfig::load',)):
            if o.exit != 'ret':
                continue
            ld = [e for i, e in ecalls(o, 'load')]
            for e in ld:
                n += 1
                if ok_of(o, e.res) is False:
                    r.ok('start fails on a bad configuration', okret(o) is False, 'a configuration that cannot be loaded is replaced by %s' % show(o.ret)[:80])
        n or r.undec.append('resolve_upstreams')
        m = 0
        for o in r.outs(bodyre(r, r'worker_gateway::cli::Cli::into_settings$'), sides=False, opaque=PROXY):
            if o.exit != 'ret' or okret(o) is False:
                continue
            e = [e for i, e in ecalls(o, 'resolve_upstreams')]
            if not e:
                continue
            m += 1
            em = [c for c in o.conds if c[0] == 'true' and strip(c[1]).op == 'call' and leaf(strip(c[1]).a[0]) == 'is_empty' or c[0] == 'cmp' and any(strip(x).op == 'call' and leaf(strip(x).a[0]) == 'len' for x in c[2:])]
            em = [c for c in em if any(isinstance(x, T) and contains(strip(x), lambda z: z is strip(e[0].res)) for x in c[1:])]
            r.ok('an empty configuration is an error', any(c[0] == 'true' and not c[2] or c[0] == 'cmp' and c[1] in ('ne', 'lt', 'le') for c in em), 'the gateway starts without any upstream worker')
        m or r.undec.append('configuration resolved')
