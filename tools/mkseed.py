#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS WHAT FILE<<old>>new pairs via stdin json: {"edits":[[file,old,new],...],"demo":"rust"}: builds /verif/seeded/ID from edits (dev helper)"""
import sys, json, os, subprocess, shutil
spec = json.load(sys.stdin)
i = spec["id"]; d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
W = "/tmp/sb/repo"
subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=W, check=True)
for f, old, new in spec["edits"]:
    p = W + "/" + f; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True, check=True).stdout
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.rs", "w").write(spec["demo"])
if "demo_sh" in spec:
    open(d + "/demo.sh", "w").write(spec["demo_sh"])
else:
    shutil.copy("/verif/tools/demo/demo.sh", d + "/demo.sh")
    shutil.copy("/verif/tools/demo/common.rs", d + "/common.rs")
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(d + "/meta.json", "w"), indent=1)
subprocess.run("git checkout -q -- .", shell=True, cwd=W)
print(diff)
