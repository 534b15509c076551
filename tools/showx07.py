import json,collections,sys
v=json.load(open('/verif/evidence/X07.violation.json'))
per=int(sys.argv[1]) if len(sys.argv)>1 else 1
c=collections.Counter()
for x in v:
    f=x['event']['fail']; k=f[:45]
    c[k]+=1
    if c[k]<=per and len(c)<9:
        print('----',f[:250]); print(x['spec'], x['event']['obs'])
        for s in x['replay']['steps']: print((s.get('schema') or s.get('data','')[70:] or s.get('shapemap') or '')[:400])
for k,n in c.most_common(12): print(n,k)
