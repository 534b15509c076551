import json
from collections import Counter
v=json.load(open('/verif/evidence/P01.violation.json'))
def d(x):
    if isinstance(x,list):
        if x and all(isinstance(i,int) for i in x): return ''.join(map(chr,x))
        return [d(i) for i in x]
    if isinstance(x,dict): return {k:d(y) for k,y in x.items()}
    return x
c=Counter()
for e in v:
    w=json.loads(e['spec'].replace('\\"','"')) if 'harness' not in e['spec'] else print(e['spec']) or {'want':{'step':1}}['want']; k=w['step']
    op=e['event']['ops'][k-1]; ob=e['event']['obs'][k-1]
    key=(op['op'],op.get('how'), ob['fail'][:40])
    c[key]+=1
    if c[key]<3: print(key, d(op), d(ob), d(w))
print(c)
