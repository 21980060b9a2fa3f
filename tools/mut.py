#!/usr/bin/env python3
"""mut.py: apply textual edits to /repo, run checks, undo.  stdin: blocks 'FILE\\n<<<\\nold\\n===\\nnew\\n>>>' ; args: property ids.
A block '<<<..>>>&' is applied together with the next one."""
import re, subprocess, sys, time
import os
import edit
MR, MB = os.environ.get('MUT_DIR', '/tmp/mr') + '/repo', os.environ.get('MUT_DIR', '/tmp/mr') + '/build'
if not os.path.exists(MB):
    os.makedirs(os.path.dirname(MR), exist_ok=True)
    subprocess.run('cp -a /repo %s; cp -a /verif/build %s; rm -rf %s/ws %s/target' % (MR, MB, MB, MB), shell=True)
subprocess.run('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % MR, shell=True)
os.environ.update(TN_REPO=MR, TN_BUILD=MB, FACTS_DIR=MB + '/facts', TN_EVIDENCE=MB + '/evidence')
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
full = '-v' in sys.argv
txt = sys.stdin.read()
cur = None
subprocess.run(['git', '-C', MR, 'checkout', '-q', '--', '.'])
saved = {}
for m in re.finditer(r'(?:^(\S+)\n)?<<<\n(.*?)\n===\n(.*?)\n?>>>(&?)', txt, re.S | re.M):
    if m.group(1):
        cur = m.group(1)
    p = MR + '/' + cur
    s = open(p).read()
    s2, cnt = edit.replace(s, m.group(2), m.group(3))
    if cnt != 1:
        print('NO MATCH (%d):' % cnt, m.group(2)[:100]); continue
    saved.setdefault(p, s)
    open(p, 'w').write(s2)
    if m.group(4):
        continue
    try:
        out = []
        for i in ids:
            t = time.time()
            r = subprocess.run(['python3', '/verif/check.py', i], stdout=subprocess.PIPE, text=True)
            ls = r.stdout.splitlines()
            v = [x for x in ls if x.startswith('VIOLATION')]
            u = [x for x in ls if 'undecided:' in x]
            if v:
                out.append('%s! (%s)' % (i, ls[0].strip()[:150 if not full else 400]))
            if u:
                out.append('%s? %s' % (i, u[0][:200]))
            if r.returncode not in (0, 1):
                out.append('%s CRASH' % i)
            if not v and not u and 'OK property' not in r.stdout:
                out.append('%s ??? %s' % (i, r.stdout[-200:]))
        print('----', m.group(3)[:90].replace('\n', ' | '), '\n      =>', ' ; '.join(out) or 'quiet')
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)
        saved = {}
subprocess.run(['git', '-C', MR, 'status', '--short'])
