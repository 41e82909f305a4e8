#!/usr/bin/env python3
"""mkseed.py <id> : takes the uncommitted change of /repo as a planted bug: copies the demo kit to seeded/<id>, writes patch.diff.
The case is in /verif/tools/cases/<id>.py, with META = (property, needs, what_it_breaks)."""
import importlib.util, json, os, shutil, subprocess, sys
V = "/verif"
i = sys.argv[1]
d = os.path.join(V, "seeded", i)
os.makedirs(d, exist_ok=True)
if len(sys.argv) < 3:
    p = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    assert p.strip()
    open(os.path.join(d, "patch.diff"), "w").write(p)
for f in ("ctl.h", "explore.cc", "build.sh"):
    shutil.copy(os.path.join(V, "harness", f), d)
for f in ("kit.py", "demo.sh"):
    shutil.copy(os.path.join(V, "tools", "demokit", f), d)
os.chmod(os.path.join(d, "demo.sh"), 0o755)
c = os.path.join(V, "tools", "cases", i + ".py")
shutil.copy(c, os.path.join(d, "case.py"))
sp = importlib.util.spec_from_file_location("case", c)
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
json.dump({"property": m.META[0], "needs": m.META[1], "what_it_breaks": m.META[2]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
