#!/usr/bin/env python3
"""debug helper: show violations of a SHACL check: shows.py ID [n] [component|fail substring]"""
import json, sys, re, os
from collections import Counter
f = f'/verif/evidence/{sys.argv[1]}.violation.json'
if not os.path.exists(f): sys.exit()
v = json.load(open(f)); lim = int(sys.argv[2]) if len(sys.argv) > 2 else 6; flt = sys.argv[3] if len(sys.argv) > 3 else ''
def wantset(s):
    return {tuple(t) for t in (json.loads(s) if isinstance(s, str) else s)['want']}
cnt = Counter()
def desc(x):
    e = x['event']; w = wantset(x['spec']); out = []; tags = set()
    ref = None
    for i, r in enumerate(e['runs']):
        if r['fail']: tags.add('F ' + r['fail'][:100]); out.append(('run', i, 'FAIL', r['fail'])); continue
        o = {tuple(t) for t in r['res']}
        base = w
        for t in o - base: tags.add('extra ' + t[3]); out.append(('run', i, 'EXTRA', t))
        for t in base - o: tags.add('missing ' + t[3]); out.append(('run', i, 'MISSING', t))
        if r['conforms'] != (not base): tags.add('conforms')
    return tags, out
L = []
for x in v:
    t, o = desc(x)
    for y in t: cnt[y] += 1
    if not flt or any(flt in y for y in t): L.append((len(json.dumps(x['replay'])), x, o))
print(len(v)); 
for k, n in cnt.most_common(14): print(n, k)
L.sort(key=lambda a: a[0])
for _, x, o in L[:lim]:
    print('-----')
    for s in x['replay'][0]['steps']:
        for k in ('data', 'shapes'):
            if k in s: print(s[k].replace('http://www.w3.org/2001/XMLSchema#','xsd:').replace('http://www.w3.org/1999/02/22-rdf-syntax-ns#type','a').replace('http://e/',''), '..')
    for y in o[:8]:
        if y[2] != 'FAIL':
            t = y[3]; n = lambda i: ''.join(map(chr, x['event']['nodes'][i-1]['s'])) + '/' + x['event']['nodes'][i-1]['t'] if 0 < i <= len(x['event']['nodes']) else str(i)
            print(y[0], y[1], y[2], n(t[0]), t[1], '->', n(t[2]), t[3:], )
        else: print(y)
