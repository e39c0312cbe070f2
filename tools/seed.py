#!/usr/bin/env python3
"""seed.py ID [--notest]: turns the uncommitted edits of /tmp/seed/repo into seeded/ID/patch.diff and confirms it: the
existing tests pass with it, demo.sh fails with it and passes without it. Works in a private mount of the scratch copy
over /repo. seeded/ID/{demo.sh,meta.json} must exist."""
import os, subprocess, sys
S = "/tmp/seed/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, ns=False, cwd=S):
    if ns: c = ["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (S, c)]
    else: c = ["bash", "-c", c]
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
sid = sys.argv[1]; d = os.path.join(V, "seeded", sid)
diff = sh("git diff").stdout
if diff.strip(): open(d + "/patch.diff", "w").write(diff)
sh("git checkout -q -- . && git fetch -q --depth 1 %s 2>/dev/null; true" % "/nonexistent")
def build(): return sh("bash /opt/vp/build.sh > /tmp/seed/build.log 2>&1", True).returncode == 0
def demo(): return sh("timeout 300 bash %s/demo.sh" % d, True)
ok = build(); r0 = demo(); good = ok and r0.returncode == 0
print(sid, "clean: build", ok, "demo", r0.returncode)
if r0.returncode: print(r0.stdout[-1500:])
a = sh("git apply %s/patch.diff" % d); print(a.stdout, end="")
ok = build(); r1 = demo(); print(sid, "patched: build", ok, "demo", r1.returncode, r1.stdout[-300:])
good &= ok and r1.returncode != 0 and a.returncode == 0
if not ok: print(sh("grep -E 'error|Error' /tmp/seed/build.log | head").stdout)
elif "--notest" not in sys.argv:
    sh("bash /opt/vp/test.sh /tmp/seed/out.json", True)
    r = sh("python3 %s/tools/cmp_tests.py /tmp/seed/out.json" % V); print(r.stdout[-500:]); good &= r.returncode == 0
sh("git checkout -q -- ."); build()
print(sid, "GOOD" if good else "NOT GOOD"); sys.exit(0 if good else 1)
