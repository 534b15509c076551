"""summary of an N01 violation file"""
import json, collections, sys, re
v = json.load(open(sys.argv[1])); pat = sys.argv[2] if len(sys.argv) > 2 else None
c = collections.Counter()
for x in v:
    k = re.sub(r"http://e/(\S*?)(:? )", r"<>\2", str(x["spec"])); k = re.sub(r"\d+", "N", k)[:150]
    c[k] += 1
    if pat and pat in k and c[k] == 1:
        print(x["spec"][:200], json.dumps(x["event"]["cfg"]))
        for s in x["replay"][:1]:
            print(s["steps"][0]["schema"]); print({a: b for a, b in s["steps"][0].items() if a != "schema"})
for k, n in c.most_common(30):
    print(n, k)
