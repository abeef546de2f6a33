#!/usr/bin/env python3
"""seed.py ID...: confirm planted bugs in a scratch copy (builds, passes the stable tests, demo 0 / nonzero)."""
import sys, os, subprocess, json, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SCRATCH", "/tmp/seedrepo")
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable"))
    for i in sys.argv[1:]:
        d = "%s/seeded/%s" % (R, i)
        sh("rm -rf %s; cp -a /repo %s; cd %s && git checkout -q -- ." % (S, S, S))
        r0 = sh("cd %s && bash %s/demo.sh" % (S, d))
        a = sh("cd %s && git apply %s/patch.diff" % (S, d))
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stderr[:300]); continue
        r1 = sh("cd %s && bash %s/demo.sh" % (S, d))
        if r0.returncode != 0 or r1.returncode == 0:
            print(i, "DEMO clean %d patched %d" % (r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-500:], (r1.stdout + r1.stderr)[-500:]); continue
        if "--nobuild" in os.environ.get("SEEDOPT", ""):
            print(i, "demo ok"); continue
        # build and test, with /repo replaced by the scratch copy in a private mount namespace
        t = sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh /tmp/seed_out_%s.json'" % (S, i))
        try:
            o = json.load(open("/tmp/seed_out_%s.json" % i))
            p = set(o["passed"])
            miss = base - p
            print(i, "demo ok; tests:", "pass" if not miss else "FAIL %s" % sorted(miss)[:5], t.stdout[-300:] if miss else "")
        except Exception as x:
            print(i, "test run failed", x, (t.stdout + t.stderr)[-800:])
    sh("rm -rf %s" % S)
main()
