#!/usr/bin/env python3
"""dump.py FN CRATES [opaque,..] [--all] [--ev]: unique outcomes of a function (development aid)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.facts import *
from engine import sa
from engine.terms import *
a = [x for x in sys.argv[1:] if not x.startswith('--')]
F = Facts(a[1].split(','))
kw = {}
if len(a) > 2 and a[2]:
    kw['opaque'] = tuple(a[2].split(','))
for b in F.find(a[0]):
    g = sa.build(F, b, **kw)
    print('==', b.path, len(g.nodes))
    seen = {}
    for o in sa.outcomes(g):
        if o.exit != 'ret' and '--all' not in sys.argv:
            continue
        s = '[%s] => %s' % (' & '.join(showc(c) for c in o.conds), show(o.ret) if o.ret is not None else o.exit)
        if '--ev' in sys.argv:
            s += ''.join('\n      %r' % e for e in o.events)
        if s not in seen:
            seen[s] = 1
            print('  ', o.exit, s[:6000])
