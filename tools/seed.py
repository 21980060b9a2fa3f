#!/usr/bin/env python3
"""seed.py new ID < spec : make /verif/seeded/ID from edits + demo.   seed.py check ID... : confirm in a scratch copy (/tmp/sv).
spec: 'property: C..', 'needs: ..', 'breaks: ..', 'pkg: tn-types', 'dir: crates/types' or 'file: <module the demo is appended to>',
then edit blocks as for mut.py, then a line '=== demo.rs' and the demo."""
import json, os, re, subprocess, sys, shutil
import edit
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SV = '/tmp/sv'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    os.makedirs(SV, exist_ok=True)
    if not os.path.exists(SV + '/repo'):
        sh('cp -a /repo %s/repo' % SV)
    sh('cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % SV)
    if not os.path.exists(SV + '/ws'):
        os.makedirs(SV + '/ws')
        s = open('/opt/vp/ws/mkws.py').read().replace('"/repo", "/opt/vp/ws"', '"%s/repo", "%s/ws"' % (SV, SV))
        s = s.replace('/opt/vp/ws', SV + '/ws')
        open(SV + '/ws/mkws.py', 'w').write(s)
        sh('cp -a /opt/vp/ws/Cargo.lock /opt/vp/ws/Cargo.toml %s/ws/; cp -a /opt/vp/target %s/target' % (SV, SV))


def new(i):
    txt = sys.stdin.read()
    head, demo = txt.split('=== demo.rs\n', 1)
    meta = dict(re.findall(r'^(property|needs|breaks|pkg|dir|file): (.*)$', head, re.M))
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    scratch()
    cur = None
    for m in re.finditer(r'(?:^(\S+)\n)?<<<\n(.*?)\n===\n(.*?)\n?>>>', head, re.S | re.M):
        cur = m.group(1) or cur
        p = SV + '/repo/' + cur
        s = open(p).read()
        s2, cnt = edit.replace(s, m.group(2), m.group(3))
        if cnt != 1:
            sys.exit('NO MATCH (%d): %s' % (cnt, m.group(2)[:100]))
        open(p, 'w').write(s2)
    open(d + '/patch.diff', 'w').write(sh('git -C %s/repo diff' % SV).stdout)
    open(d + '/demo.rs', 'w').write(demo)
    t = open(V + '/tools/' + ('demo_template_inner.sh' if 'file' in meta else 'demo_template.sh')).read()
    t = t.replace('@DIR@', meta.get('dir', '')).replace('@FILE@', meta.get('file', '')).replace('@PKG@', meta['pkg'])
    open(d + '/demo.sh', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    check(i)


def env():
    return 'export SEED_WS=%s/ws SEED_TARGET=%s/target; . /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; ' % (SV, SV, SV)


def check(i):
    d = V + '/seeded/' + i
    scratch()
    r = sh(env() + 'python3 %s/ws/mkws.py && cd %s/repo && bash %s/demo.sh' % (SV, SV, d), executable='/bin/bash')
    c = r.returncode
    if c:
        print(r.stdout[-2500:])
    a = sh('git -C %s/repo apply %s/patch.diff' % (SV, d))
    if a.returncode:
        print(i, 'PATCH DOES NOT APPLY', a.stdout); return
    b = sh(env() + 'python3 %s/ws/mkws.py && cd %s/ws && cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % (SV, SV), executable='/bin/bash')
    open('/tmp/sv/test.log', 'w').write(b.stdout)
    sh('python3 /opt/vp/results.py /tmp/sv/out.json cargo:/tmp/sv/test.log')
    o = json.load(open('/tmp/sv/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    passed = set(o.get('passed', []))
    want = set(base.get('passed', base.get('stable', [])))
    lost = sorted(want - passed)
    m = sh(env() + 'cd %s/repo && bash %s/demo.sh' % (SV, d), executable='/bin/bash')
    ok = c == 0 and m.returncode != 0 and not lost and want and 'test result: FAILED' in m.stdout
    print('%s %s: clean=%d patched=%d lost=%s%s' % (i, 'OK' if ok else 'BAD', c, m.returncode, lost[:5], '' if 'test result: FAILED' in m.stdout else ' (demo did not run)'))
    if not ok and c == 0:
        print((m.stdout if m.returncode else b.stdout)[-1500:])
    sh('git -C %s/repo checkout -q -- .' % SV)


if sys.argv[1] == 'new':
    new(sys.argv[2])
else:
    for i in sys.argv[2:]:
        check(i)
