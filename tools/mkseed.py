#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks' 'srcs' [flags] : turn a scratch-tree diff (/tmp/mut) and /tmp/mut.cpp into seeded/ID and confirm it."""
import json, os, shutil, subprocess, sys
V = "/verif"
sid, prop, needs, breaks, srcs = sys.argv[1:6]
flags = sys.argv[6] if len(sys.argv) > 6 else ""
libs = sys.argv[7] if len(sys.argv) > 7 else ""
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/mut", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /tmp/mut"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for f in ("loguru.hpp", "defines.hpp"):
    shutil.copy(V + "/tools/demo/" + f, d)
shutil.copy("/tmp/mut.cpp", d + "/demo.cpp")
t = open(V + "/tools/demo/demo.sh").read().replace("@SRCS@", srcs).replace("@FLAGS@", flags).replace("@LIBS@", libs)
open(d + "/demo.sh", "w").write(t)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/mut", capture_output=True, text=True)
print("unchanged rc", a.returncode, a.stdout[-300:], a.stderr[-800:])
print("patched rc", b.returncode, b.stdout[-300:], b.stderr[-300:])
ok = a.returncode == 0 and b.returncode not in (0, 9)
print("OK" if ok else "NOT USABLE")
e = dict(os.environ, VERIF_REPO="/tmp/mut", VERIF_SHOW="2", VERIF_WIDTH="200")
if ok and "--nocheck" not in sys.argv:
    c = subprocess.run(["python3", "check.py", prop], cwd=V, env=e, capture_output=True, text=True)
    print("check rc", c.returncode, c.stdout[-900:])
