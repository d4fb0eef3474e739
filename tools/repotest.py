#!/usr/bin/env python3
# runs the repository's tests and lists stable ones that do not pass
import json, subprocess, sys
if "--no-run" not in sys.argv:
    subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, check=True)
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/t.json"], stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/t.json"))
bad = [x for x in b["stable"] if x not in t["passed"]]
print(len(b["stable"]), "stable,", len(bad), "not passing:", bad[:20])
