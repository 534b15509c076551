"""build /repo, run its tests, compare with the baseline"""
import json,subprocess,sys
subprocess.run(["bash","/opt/vp/build.sh"],stdout=open("/tmp/b.log","w"),stderr=subprocess.STDOUT,cwd="/repo",check=True)
subprocess.run(["bash","/opt/vp/test.sh","/tmp/t.json"],stdout=open("/tmp/tt.log","w"),stderr=subprocess.STDOUT,cwd="/repo")
b=json.load(open('/opt/vp/BASELINE.json'))["stable"]; t=json.load(open('/tmp/t.json'))
miss=[x for x in b if x not in set(t["passed"])]
print(len(b),"stable; missing:",miss[:10]); sys.exit(bool(miss))
