"""mutate.py FILE [ID...]: FILE defines M = [(id, property, path, old, new)...]; each is applied in /tmp/plant/repo and the property's quick check is run.
A probe of the checks' sensitivity (no tests, no demo); survivors are looked at and, where they break the property, made into planted bugs."""
import runpy, subprocess, sys, time
R, V = "/tmp/plant/repo", "/tmp/plant/verif"
for id, prop, path, old, new in runpy.run_path(sys.argv[1])["M"]:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    subprocess.run(["git", "checkout", "-q", "-f", "."], cwd=R)
    t = open(f"{R}/{path}").read()
    if t.count(old) != 1: print(id, "| BAD EDIT", t.count(old), flush=True); continue
    open(f"{R}/{path}", "w").write(t.replace(old, new))
    t0 = time.time()
    try:
        with open(f"/tmp/mut/{id}.log", "w") as o:
            rc = subprocess.run(["python3", "run.py", prop, "quick"], cwd=V, stdout=o, stderr=subprocess.STDOUT, timeout=900).returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    print(id, "|", prop, "|", {0: "SURVIVED", 1: "caught"}.get(rc, f"rc {rc}"), f"| {time.time()-t0:.0f}s", flush=True)
subprocess.run(["git", "checkout", "-q", "-f", "."], cwd=R)
