"""Helpers to author planted bugs (used from the tools/plants_*.py scripts): diff against /repo's HEAD in a scratch clone."""
import json, os, subprocess
E = "/tmp/plant/edit"
SHEX_DEMO = r'''#!/bin/bash
# validates with the rudof command built in the current directory and compares the verdicts
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cat > "$D/s.shex" <<'EOS'
%s
EOS
cat > "$D/d.ttl" <<'EOS'
%s
EOS
echo '%s' > "$D/m.sm"
timeout 120 ./target/debug/rudof shex-validate -s "$D/s.shex" -m "$D/m.sm" "$D/d.ttl" -r json > "$D/out" 2> "$D/err"
python3 - "$D/out" > "$D/got" <<'EOS'
import json, sys
try:
    rows = json.load(open(sys.argv[1]))
except ValueError:
    rows = []
print("\n".join(sorted(f"{r['node']} {r['shape']} {r['status']}".replace("http://e/", ":") for r in rows)))
EOS
sort > "$D/want" <<'EOS'
%s
EOS
diff "$D/want" "$D/got"
'''
def sync():
    subprocess.run(["git", "fetch", "-q", "origin"], cwd=E, check=True)
    subprocess.run(["git", "checkout", "-q", "-f", subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()], cwd=E, check=True)
    subprocess.run(["git", "clean", "-qfd"], cwd=E, check=True)
def plant(id, prop, edits, needs, breaks, demo, files=None):
    sync()
    for f, old, new in edits:
        p = f"{E}/{f}"; t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=E, capture_output=True, text=True).stdout)
    open(d + "/demo.sh", "w").write(demo)
    for n, t in (files or {}).items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("planted", id)
def shex_demo(schema, data, smap, want):
    return SHEX_DEMO % (schema.strip(), data.strip(), smap, "\n".join(want))
