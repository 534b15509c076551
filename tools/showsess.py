"""violations of a session check: showsess.py ID [n] [filter]"""
import json, sys
from collections import Counter
v = json.load(open("/verif/evidence/%s.violation.json" % sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 3
flt = sys.argv[3] if len(sys.argv) > 3 else ""
cnt = Counter(); shown = []
def show(run, k, rec):
    for i, s in enumerate(rec[:k]):
        if s["step"]["op"] != "snapshot" or i == k - 1:
            print("   %d" % (i + 1), json.dumps(s["step"], ensure_ascii=False)[:330], "=>", json.dumps(s["answer"], ensure_ascii=False)[:160 if i < k - 1 else 1500])
for x in v:
    w = json.loads(x["spec"])["want"]
    ev = x["event"]; rec = x["replay"]["runs"]
    if "run" in w:
        op = ev["runs"][w["run"] - 1]["ops"][w["step"] - 1]["op"]
        key = op + ": " + str(w["why"])[:80]; size = w["step"]
    else:
        key = "state: " + ",".join(sorted(w["keys"])); size = w["one"][1] + w["two"][1]
    cnt[key] += 1
    if flt in key:
        shown.append((size, key, w, rec, ev))
for size, key, w, rec, ev in sorted(shown, key=lambda t: t[0])[:n]:
    print("=" * 70, key)
    if "run" in w:
        show(w["run"], w["step"], rec[w["run"] - 1]); print("  WANT", json.dumps(w, ensure_ascii=False)[:800])
        o = ev["runs"][w["run"] - 1]["obs"]
        if w["step"] <= len(o): print("  OBS", json.dumps({k: z for k, z in o[w["step"] - 1].items() if k != "snap"}, ensure_ascii=False)[:800])
    else:
        a = None
        for i, k in (w["one"], w["two"]):
            print(" -- run", i, "step", k); show(i, k, rec[i - 1])
        s = [rec[i - 1][k - 1]["answer"] for i, k in (w["one"], w["two"])]
        for key in w["keys"]:
            for q in s:
                q = q.get("ok", q) if isinstance(q, dict) else q
                print("  ", key, ":", json.dumps(q.get(key) if isinstance(q, dict) else q, ensure_ascii=False)[:600])
print(cnt.most_common(40))
