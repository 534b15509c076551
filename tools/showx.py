"""summary of a violation file: showx.py FILE [examples per group]"""
import json,collections,sys,re
v=json.load(open(sys.argv[1]))
per=int(sys.argv[2]) if len(sys.argv)>2 else 1
c=collections.Counter()
for x in v:
    f=x['event'].get('fail') or ''; k=x['part'][:6]+'|'+re.sub(r'\d+','N',f)[:70]
    c[k]+=1
    if c[k]<=per and len(c)<9:
        print('----',f[:700]); print(str(x['spec'])[:200], str(x['event'].get('obs'))[:200])
        for s in x['replay']['steps']: print({k: (str(w)[:600]) for k,w in s.items()})
        for s in x['replay'].get('answer',{}).get('out',[]): print('   ', str(s)[:800])
for k,n in c.most_common(25): print(n,k)
