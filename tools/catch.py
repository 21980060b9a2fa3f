#!/usr/bin/env python3
"""catch.py [ID...]: apply each planted bug to /repo, run its property's check (and with -a all checks), undo."""
import json, os, subprocess, sys
MR, MB = os.environ.get('MUT_DIR', '/tmp/mr') + '/repo', os.environ.get('MUT_DIR', '/tmp/mr') + '/build'
if not os.path.exists(MB):
    os.makedirs(os.path.dirname(MR), exist_ok=True)
    subprocess.run('cp -a /repo %s; cp -a /verif/build %s; rm -rf %s/ws %s/target' % (MR, MB, MB, MB), shell=True)
subprocess.run('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % MR, shell=True)
os.environ.update(TN_REPO=MR, TN_BUILD=MB, FACTS_DIR=MB + '/facts', TN_EVIDENCE=MB + '/evidence')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
n = 0
for i in ids:
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    a = subprocess.run(['git', '-C', MR, 'apply', d + '/patch.diff'])
    if a.returncode:
        print(i, 'patch does not apply'); continue
    try:
        r = subprocess.run(['python3', V + '/check.py', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = 'VIOLATION property=' + p in r.stdout and r.returncode == 1
        n += hit
        print(i, p, 'caught' if hit else 'MISSED', r.stdout.splitlines()[0][:160] if r.stdout else '')
    finally:
        subprocess.run(['git', '-C', MR, 'checkout', '-q', '--', '.'])
print('%d of %d' % (n, len(ids)))
