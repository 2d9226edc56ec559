#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'needs' 'what' < demo.cpp ; the edit is given through env OLD / NEW (exact, unique text in FILE)."""
import sys, os, json, subprocess
sid, prop, f, needs, what = sys.argv[1:6]
WT = "/tmp/wt"
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", "--", "."])
subprocess.check_call("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD)" % WT, shell=True)
p = os.path.join(WT, "src/rpp/rpp" if not f.startswith("src/") else "", f)
s = open(p).read()
i = 1
olds = [("OLD", "NEW")] + [("OLD%d" % k, "NEW%d" % k) for k in range(2, 6)]
for o, n in olds:
    if o in os.environ:
        assert s.count(os.environ[o]) == 1, (o, s.count(os.environ[o]))
        s = s.replace(os.environ[o], os.environ[n])
open(p, "w").write(s)
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", WT, "diff"], text=True))
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "-f", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
demo = sys.stdin.read()
if demo.strip():
    open(d + "/demo.cpp", "w").write(demo)
open(d + "/demo.sh", "w").write('''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O0 -g1 -Isrc/rpp -Isrc/extensions/rppasio "$here/demo.cpp" -o "$t/demo" -pthread || exit 2
timeout 120 "$t/demo"
''')
