import json,collections,re
v=json.load(open('/verif/evidence/G03.violation.json'))
c=collections.Counter(); ex={}
for x in v:
    w=json.loads(x['spec'])['want'] if isinstance(x['spec'],str) else x['spec']
    k=w.split(' <<')[0]
    c[k]+=1; ex.setdefault(k,[]).append((w,x['event']))
print(c)
for k,l in ex.items():
    for w,e in l[:7]:
        m=re.search(r'<<(\d+), (\d+)>>',w)
        if not m: print(w,e['fail'][:300]); continue
        i,j=int(m[1])-1,int(m[2])-1
        f=lambda i:(''.join(map(chr,e['lits'][e['term'][i]-1]['s'])),e['lits'][e['term'][i]-1]['dt'],e['lits'][e['term'][i]-1]['lang'],e['form'][i],e['kind'][i])
        if k=='terms':
            g=lambda i:(''.join(map(chr,e['lits'][i]['s'])),e['lits'][i]['dt'])
            print(w,g(i),g(j),e['tcmp'][i][j],e['teq'][i][j]); continue
        print(w,f(i),f(j),'cmp',e['cmp'][i][j],'eq',e['eq'][i][j],'lt',e['lt'][i][j],'tot',e['total'][i][j],e['total'][j][i])
