#!/usr/bin/env python3
"""mk.py ID PROPERTY FILE  (reads edits from stdin-evaluated python: list of (file, old, new)); builds, tests, runs demo both ways"""
import sys, subprocess, os, json, shutil
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def make(id, prop, needs, breaks, edits, demo, extra={}, tests=True):
    tests = tests and not os.environ.get("VP_NOTESTS")
    sr = "/tmp/sr_" + id
    sh("rm -rf %s; cp -a /repo %s; cd %s && git fetch -q %s && git reset -q --hard FETCH_HEAD" % (sr, sr, sr, os.environ.get("VP_REPO", "/repo")))
    d = os.environ.get("VP_SEEDED", "/verif/seeded") + "/" + id
    build = lambda: sh(sh("cat /opt/vp/build.sh").stdout.replace("/repo", sr), cwd=sr, executable="/bin/bash")
    b = build()
    os.makedirs(d, exist_ok=True)
    for n, t in extra.items(): open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=sr)
    print(id, "demo clean rc", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
    for f, a, b in edits:
        p = os.path.join(sr, f); s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = sh("git diff", cwd=sr).stdout
    open(d + "/patch.diff", "w").write(diff)
    b = build()
    print(id, "build rc", b.returncode, (b.stdout + b.stderr)[-300:] if b.returncode else "")
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=sr)
    print(id, "demo patched rc", r.returncode, (r.stdout + r.stderr)[-300:])
    if tests:
        t = sh("cat /opt/vp/test.sh").stdout.replace("/repo", sr)
        open("/tmp/sd/t_%s.sh" % id, "w").write(t)
        sh("bash /tmp/sd/t_%s.sh /tmp/sd/o_%s.json" % (id, id), cwd=sr)
        o = json.load(open("/tmp/sd/o_%s.json" % id)); base = json.load(open("/opt/vp/BASELINE.json"))
        print(id, "tests missing:", [x for x in base["stable"] if x not in o["passed"]])
    sh("rm -rf " + sr)
