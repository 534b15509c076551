"""plant.py ID... : for each /verif/seeded/ID, in /tmp/plant: build with the patch, stable tests, demo (must fail), the property's check (should catch)"""
import json, os, subprocess, sys, time
R, V = "/tmp/plant/repo", "/tmp/plant/verif"
def sh(cmd, cwd, log, t=1500):
    try:
        with open(log, "w") as o:
            return subprocess.run(cmd, cwd=cwd, stdout=o, stderr=subprocess.STDOUT, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return "timeout"
base = json.load(open('/opt/vp/BASELINE.json'))["stable"]
nocheck = "--nocheck" in sys.argv; onlycheck = "--onlycheck" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = f"/verif/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]; out = [i, prop]
    subprocess.run(["git", "checkout", "-q", "-f", "."], cwd=R)
    if subprocess.run(["git", "apply", d + "/patch.diff"], cwd=R).returncode: print(i, "DOES NOT APPLY"); continue
    try:
        if not onlycheck:
            rc = sh(["bash", "/tmp/plant/vp/build.sh"], R, f"/tmp/plant/{i}.build.log")
            if rc: print(i, "BUILD FAILS", rc); continue
            sh(["bash", "/tmp/plant/vp/test.sh", f"/tmp/plant/{i}.json"], R, f"/tmp/plant/{i}.test.log")
            t = set(json.load(open(f"/tmp/plant/{i}.json"))["passed"]); miss = [x for x in base if x not in t]
            out.append(f"tests missing {len(miss)} {miss[:5]}")
            out.append(f"demo rc {sh(['bash', d + '/demo.sh'], R, f'/tmp/plant/{i}.demo.log', 300)} (want nonzero)")
        if not nocheck:
            t0 = time.time(); rc = sh(["python3", "run.py", prop, "quick"], V, f"/tmp/plant/{i}.check.log", 900)
            out.append(f"check rc {rc} ({time.time()-t0:.0f}s) {'CAUGHT' if rc == 1 else 'MISSED'}")
    finally:
        subprocess.run(["git", "checkout", "-q", "-f", "."], cwd=R)
    print(*out, sep=" | ", flush=True)
