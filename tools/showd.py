#!/usr/bin/env python3
"""debug helper: per-pair discrepancies of a typing check whose shapes are single triple constraints"""
import json, sys, re
from collections import Counter, defaultdict
sys.path.insert(0, "/verif")
v = json.load(open(f'/verif/evidence/{sys.argv[1]}.violation.json')); lim = int(sys.argv[2]) if len(sys.argv) > 2 else 40
fails = Counter(); rows = defaultdict(list)
for x in v:
    e = x["event"]
    if e["fail"]:
        m = re.sub(r"\d+", "N", e["fail"])[:110]
        fails[m] += 1
        if fails[m] <= 2: print("FAIL", e["fail"][:600]); print([s.get("schema") or s.get("data") for s in x["replay"]["steps"]][:2] if len(sys.argv)>3 else "")
        continue
    want = {tuple(p) for p in json.loads(x["spec"])["want"]}
    text = [s["schema"] for s in x["replay"]["steps"] if "schema" in s][0]
    sh = {int(re.match(r"<http://e/S(\d+)>", l).group(1)): l for l in text.splitlines() if l.startswith("<http://e/S")}
    data = [s["data"] for s in x["replay"]["steps"] if "data" in s][0]
    obj = {}
    for l in data.split(" .\n"):
        m = re.match(r"<http://e/v(\d+)> <http://e/p> (.*)", l, re.S)
        if m: obj[int(m.group(1)) + 1] = m.group(2)
    for n, l, b in e["obs"]:
        if b != ((n, l) in want):
            rows[sh[l]].append((obj.get(n), "got", b))
print(fails.most_common(20))
print(len(rows))
for k in sorted(rows, key=len)[:lim]:
    print(k.replace("http://www.w3.org/2001/XMLSchema#", "xsd:")); 
    for o in rows[k][:4]: print("      ", str(o).replace("http://www.w3.org/2001/XMLSchema#", "xsd:"))
