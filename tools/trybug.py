#!/usr/bin/env python3
"""trybug.py ID [CHECK...]: apply seeded/ID to /repo, build, run demo, stable tests and the checks, undo."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
bid = sys.argv[1]
d = "%s/seeded/%s" % (V, bid)
prop = json.load(open(d + "/meta.json"))["property"]
checks = sys.argv[2:] or [prop]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode, r.stdout[-1500:]
def demo():
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); return r.returncode, r.stdout[-600:]
if "--fast" not in checks:
    print("build0", build()[0]); print("demo0", *demo())
checks = [c for c in checks if c != "--fast"]
r = sh("git -C /repo apply %s/patch.diff" % d)
if r.returncode: sys.exit(r.stdout)
try:
    b = build(); print("build1", b[0], b[1] if b[0] else "")
    print("demo1", *demo())
    sh("bash /opt/vp/test.sh /tmp/t.json")
    t = json.load(open("/tmp/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(t.get("passed", []))
    print("tests missing:", [x for x in base if x not in passed])
    for c in checks:
        r = sh("python3 %s/check.py %s" % (V, c), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        print("check", c, "exit", r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines() if "VIOL" in l or r.returncode > 1)[-1500:])
finally:
    sh("git -C /repo checkout -- ."); build()
