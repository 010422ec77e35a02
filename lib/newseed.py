#!/usr/bin/env python3
"""newseed.py <seed id>: takes the uncommitted change in /tmp/seedwt (a worktree copy of /repo) as
seeded/<id>/patch.diff, then confirms it: build, stable tests, demo passes without and fails with it.
Expects seeded/<id>/demo.sh and meta.json to exist."""
import json
import os
import subprocess
import sys

sid = sys.argv[1]
WT = "/tmp/seedwt"
D = f"/verif/seeded/{sid}"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if "--patch-only" not in sys.argv:
    diff = sh(f"git -C {WT} diff").stdout
    assert diff, "no change"
    open(f"{D}/patch.diff", "w").write(diff)
    sh(f"git -C {WT} checkout -- .")
os.chmod(f"{D}/demo.sh", 0o755)
json.load(open(f"{D}/meta.json"))
assert sh("git -C /repo status --short").stdout == ""
r = sh(f"bash {D}/demo.sh", cwd="/repo")
print("demo on clean tree:", r.returncode, r.stdout[-300:] if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-1500:])
a = sh(f"git -C /repo apply {D}/patch.diff")
assert a.returncode == 0, a.stderr
try:
    b = sh("bash /opt/vp/build.sh")
    print("build:", b.returncode)
    t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    print("tests:", t.returncode, open("/tmp/seedtest.json").read()[:300])
    r = sh(f"bash {D}/demo.sh", cwd="/repo")
    print("demo with bug:", r.returncode, (r.stdout + r.stderr)[-600:])
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
