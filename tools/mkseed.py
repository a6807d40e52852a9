"""mkseed.py ID PROPERTY demo.py [extra.cpp] -- needs -- breaks : takes the change in /repo's working tree as a planted bug.
Confirms: builds, stable tests pass, demo 1 with and 0 without the change; then reports what the check says."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
V = Path(__file__).resolve().parent.parent
R = Path("/repo")
a = sys.argv[1:]
i = a.index("--")
files, rest = a[:i], a[i + 1:]
j = rest.index("--")
needs, breaks = " ".join(rest[:j]), " ".join(rest[j + 1:])
sid, prop, demo, *extra = files
d = V / "seeded" / sid
patch = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
assert patch, "no change in /repo"
shutil.rmtree(d, ignore_errors=True)
d.mkdir(parents=True)
(d / "patch.diff").write_text(patch)
shutil.copy(demo, d / "demo.py")
for e in extra:
    shutil.copy(e, d)
text = Path(demo).read_text()
if "kit" in text:
    shutil.copy(V / "tools/demokit/kit.py", d)
if "native" in text:
    shutil.copytree(V / "shim/include", d / "include")
    shutil.copy(V / "shim/src/objscip.cpp", d)
    shutil.copy(V / "tools/demokit/nospy.cpp", d)
(d / "demo.sh").write_text('#!/bin/sh\nexec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"\n')
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")


def demo_rc():
    t = time.time()
    r = subprocess.run(["bash", str(d / "demo.sh")], cwd=R, capture_output=True, text=True)
    print("  demo rc", r.returncode, f"{time.time() - t:.0f}s", (r.stdout + r.stderr)[-400:].strip().replace("\n", " | "))
    return r.returncode


ok = True
b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed-t.json"], capture_output=True, text=True)
res = json.loads(Path("/tmp/seed-t.json").read_text())
base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
print("build", b.returncode, "tests", str(t.stdout + t.stderr).strip().splitlines()[-1:])
stable = base.get("stable") or base.get("passed") or base
ok &= b.returncode == 0 and not set(stable) - set(res["passed"])
rc1 = demo_rc()
c = subprocess.run(["/opt/vp/venv/bin/python", "run.py", prop], cwd=V, capture_output=True, text=True)
print("  check rc", c.returncode, [x for x in c.stdout.splitlines() if "VIOLATION" in x or "part" in x][:3])
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
rc0 = demo_rc()
print("KEEP" if rc0 == 0 and rc1 != 0 and ok else "REJECT", sid, "caught" if c.returncode == 1 else "MISSED")
