"""mkseed.py ID PROPERTY: make seeded/ID from the edits in the scratch clone /tmp/w/seed and /tmp/w/demo.py; needs/breaks on stdin."""
import json, os, shutil, subprocess, sys
sid, pid = sys.argv[1:3]
txt = sys.stdin.read().strip().split("\n---\n")
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
S = "/tmp/w/seed"
with open(d + "/patch.diff", "w") as f:
    f.write(subprocess.check_output(["git", "-C", S, "diff"], text=True))
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
shutil.copy("/tmp/w/demo.py", d)
L = "/verif/tools/seedlib/"
shutil.copy(L + "demolib.py", d)
shutil.copy("/verif/lib/gen.py", d)
os.makedirs(d, exist_ok=True)
src = open("/tmp/w/demo.py").read()
if "partitioner()" in src:
    shutil.copy("/verif/harness/metis/metis.h", d)
for f in os.listdir("/tmp/w/files") if os.path.isdir("/tmp/w/files") else []:
    shutil.move("/tmp/w/files/" + f, d)
with open(d + "/demo.sh", "w") as f:
    f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": pid, "needs": txt[0].strip(), "what_it_breaks": txt[1].strip()}, open(d + "/meta.json", "w"), indent=1)
r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
print(sid, "applies" if r.returncode == 0 else "DOES NOT APPLY")
os.remove("/tmp/w/demo.py")
