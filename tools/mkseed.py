#!/usr/bin/env python3
"""mkseed.py ID PROPERTY "DIRS" "NEEDS" "BREAKS": package the change in /tmp/wt (copy of /repo) and /tmp/demo.cpp
as a seeded bug, after checking that the demonstration passes on /repo and fails on /tmp/wt."""
import json, os, shutil, subprocess, sys
V = "/verif"
sid, prop, dirs, needs, breaks = sys.argv[1:6]
wt = os.environ.get("WT", "/tmp/wt")
d = f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(f"{d}/patch.diff", "w").write(diff)
shutil.copy(os.environ.get("DEMO", "/tmp/demo.cpp"), f"{d}/demo.cpp")
t = open(f"{V}/tools/demo_template.sh").read().replace("@DIRS@", dirs)
open(f"{d}/demo.sh", "w").write(t)
os.chmod(f"{d}/demo.sh", 0o755)
subprocess.run(["tar", "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-C", V, "-czf", f"{d}/support.tgz", "stubs",
                "harness/common.h", "harness/dealer.h", "harness/parties.h", "harness/probe_engine.h", "harness/tls_scheduler.h"], check=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
def run(cwd):
    p = subprocess.run(["bash", f"{d}/demo.sh"], cwd=cwd, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-1500:]
a = run("/repo"); b = run(wt)
print("repo:", a[0], a[1][-600:]); print("bug:", b[0], b[1][-600:])
ok = a[0] == 0 and b[0] not in (0, 3)
print("OK" if ok else "NOT GOOD"); sys.exit(not ok)
