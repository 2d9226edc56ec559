#!/usr/bin/env python3
"""Tries hand-written changes of the library against the checks:  mutate.py FILE [--scale X] [names...]

FILE holds entries separated by lines of '=':
    name | path relative to src/rpp/rpp (or src/...) | checks, separated by blanks
    <<<<
    old text (must occur exactly once)
    ----
    new text
Every entry is applied to a scratch worktree (/tmp/wtm), the checks run against it, and the outcome is printed.
"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/wtm"
scale = "1"
a = sys.argv[1:]
if "--scale" in a:
    i = a.index("--scale"); scale = a[i + 1]; del a[i:i + 2]
head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
if not os.path.isdir(W):
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, head], check=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "-f", "--detach", head], check=True)
entries = re.split(r"^={3,}$", open(a[0]).read(), flags=re.M)
for e in entries:
    e = e.strip("\n")
    if not e.strip():
        continue
    head_, body = e.split("\n<<<<\n", 1)
    old, new = body.split("\n----", 1)
    new = new[1:] if new.startswith("\n") else new
    name, path, checks = [x.strip() for x in head_.strip().split("|")]
    if a[1:] and name not in a[1:]:
        continue
    p = os.path.join(W, path if path.startswith("src/") else "src/rpp/rpp/" + path)
    s = open(p).read()
    if s.count(old) != 1:
        print("%-28s BAD: text occurs %d times" % (name, s.count(old)), flush=True)
        continue
    open(p, "w").write(s.replace(old, new))
    res = []
    for c in checks.split():
        try:
            r = subprocess.run([sys.executable, "run.py", c, "--scale", scale, "--evidence", "/tmp/mut_e.json", "--replay-dir", "/tmp/mut_r"], cwd=V, env=dict(os.environ, RPP_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
            out = r.stdout
            first = next((l for l in out.splitlines() if l.strip() and not l.startswith("KNOWN")), "")
            res.append("%s:%s%s" % (c, {0: "missed", 1: "CAUGHT", 3: "nobuild"}.get(r.returncode, "rc%d" % r.returncode), " [" + first[:90] + "]" if r.returncode else ""))
            if r.returncode == 1:
                break
        except subprocess.TimeoutExpired:
            res.append(c + ":timeout")
    open(p, "w").write(s)
    print("%-28s %s" % (name, "  ".join(res)), flush=True)
