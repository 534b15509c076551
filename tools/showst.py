"""shows violations of G01: python3 tools/showst.py [n] [filter]"""
import json, sys
v = json.load(open("/verif/evidence/%s.violation.json" % (sys.argv[3] if len(sys.argv) > 3 else "G01")))
n = int(sys.argv[1]) if len(sys.argv) > 1 else 3
flt = sys.argv[2] if len(sys.argv) > 2 else ""
from collections import Counter
cnt = Counter(); shown = 0
v.sort(key=lambda x: len(x["event"]["ops"]))
for x in v:
    w = json.loads(x["spec"])["want"]
    k = w["step"] if isinstance(w, dict) else "?"
    ev = x["event"]
    op = ev["ops"][k-1]; o = ev["obs"][k-1] if k <= len(ev["obs"]) else None
    key = op["op"] + ":" + (o["fail"][:100] if o and o["fail"] else "wrong")
    cnt[key] += 1
    if flt in key and shown < n:
        shown += 1
        print("=" * 60, key)
        steps = (x["replay"] or {}).get("steps", [])
        for s in [s for s in steps if s.get("op") != "x"][:k + 2]:
            print("  ", json.dumps(s)[:400])
        print("  OBS", json.dumps(o)[:400]); print("  WANT", json.dumps(w)[:600], json.dumps(op))
print(cnt.most_common(30))
