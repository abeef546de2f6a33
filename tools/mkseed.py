#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' needs breaks < demo.cpp  (several FILE/old/new: separate with a line '====' in env EDITS)"""
import sys, os, subprocess, json, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, edits, needs, breaks, demo):
    d = "%s/seeded/%s" % (R, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    out = ""
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, l in byfile.items():
        s = open("/repo/" + f).read()
        o = s
        for old, new in l:
            assert s.count(old) == 1, (id, f, old, s.count(old))
            s = s.replace(old, new)
        for side, txt in (("a", o), ("b", s)):
            p = "%s/%s/%s" % (t, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(txt)
    r = subprocess.run("cd %s && git diff --no-index a b" % t, shell=True, capture_output=True, text=True)
    out = r.stdout.replace("a/a/", "a/").replace("b/b/", "b/").replace("a/b/", "a/")
    # git diff --no-index prints a/a/src.. b/b/src..
    open(d + "/patch.diff", "w").write(out)
    shutil.rmtree(t)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    shutil.copy(R + "/tools/demo.sh", d + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
