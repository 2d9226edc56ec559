#!/usr/bin/env python3
"""Validates planted bugs:  seedcheck.py [--no-tests] [--no-check] ID...
For each: applies seeded/ID/patch.diff in /repo, builds, runs the stable tests, the demo (must fail) and the
property's check (must report), then undoes it, builds, runs the demo (must pass)."""
import json, os, subprocess, sys, re
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for sid in args:
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(sid, "PATCH DOES NOT APPLY", r.stdout); continue
    res = []
    try:
        if "--no-tests" not in opts:
            r = sh("bash /opt/vp/build.sh")
            res.append("build=%d" % r.returncode)
            if r.returncode: print(r.stdout[-1500:])
            sh("bash /opt/vp/test.sh /tmp/seedout.json")
            o = json.load(open("/tmp/seedout.json"))
            bad = [t for t in stable if t not in set(o["passed"])]
            res.append("stable_failed=%d" % len(bad))
            if bad: print("   ", bad[:6])
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        res.append("demo_with=%d" % r.returncode)
        if "--show" in opts: print(r.stdout[-800:])
        if "--no-check" not in opts:
            r = sh("python3 run.py %s" % meta["property"], cwd=V, timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check=%d %s" % (r.returncode, v[:1]))
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    res.append("demo_without=%d" % r.returncode)
    if r.returncode: print(r.stdout[-800:])
    print(sid, meta["property"], " ".join(res), flush=True)
if "--no-tests" not in opts: sh("bash /opt/vp/build.sh")
