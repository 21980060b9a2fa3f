import sys; sys.path.insert(0,'/verif')
import collections
from engine.facts import *
F=Facts(sys.argv[1].split(','))
c=collections.Counter()
for b in F.bodies.values():
    for bb in b.d['bbs']:
        if 'x' not in bb: continue
        if bb['x']['k']=='call' and 'c' in bb['x']['f']:
            q=bb['x']['f']['c']
            if 'via' in q: c[q['via'],q['decl'], q.get('fn','')[:100]]+=1
            elif q.get('decl','').endswith(('::into','::try_into','::parse')): c['NO',q['decl'],q.get('fn')]+=1
for k,v in c.most_common(30): print(v,k)
