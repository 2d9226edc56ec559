#!/usr/bin/env python3
"""Builds and runs the check of one property:  run.py <ID> [--thorough] [--replay FILE] [--seed N] [...]

Everything is compiled from /repo's working tree (headers) and /verif/harness into /verif/.build.
"""
import os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RPP_REPO", "/repo")
H = os.path.join(VERIF, "harness")

INC = ["-I%s/src/rpp" % REPO, "-I" + H]
SEQ = ["clang++", "-std=c++20", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-Wno-everything"] + INC
DIFF = ["pbt", "world", "diff", "ops_elem", "ops_flat", "ops_comb", "ops_resub", "ops_part", "ops_misc"]

CHECKS = {}
def check(pid, srcs, flags=SEQ, link=(), args=(), sim=False, env=None):
    CHECKS[pid] = dict(srcs=srcs, flags=list(flags), link=list(link), args=list(args), sim=sim, env=env or {})

for pid in ("ALL", "SUBJ", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
    check(pid, DIFF + ["c_diff"], args=["--property", pid])

for pid in ("C12", "C13"):
    check(pid, DIFF + ["vclock", "c_subj"], args=["--property", pid])

check("C29", ["pbt", "world", "ops_elem", "ops_flat", "ops_comb", "ops_resub", "ops_part", "ops_misc", "c_grow"])
check("C17", ["pbt", "vclock", "c_sched"])
check("C14", ["pbt", "c_disp"])
# g++: clang 18 miscompiles the parenthesised initialisation of interval_strategy with an empty scheduler
GCC = ["g++", "-std=c++20", "-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w"] + INC
check("C10", ["pbt", "vclock", "c_cold", "cold_iter1", "cold_iter2", "cold_iter3"], flags=GCC)
check("C11", ["pbt", "vclock", "c_time"], flags=GCC)

# simulated threads: instrumentation calls of -fsanitize=thread, answered by simrt.cpp
SIMF = ["clang++", "-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fno-pie", "-Wno-everything"] + INC
def sim_check(pid, srcs, extra=(), **kw):
    check(pid, srcs + ["plain:simrt", "plain:pbt"], flags=SIMF + list(extra), link=["-no-pie", "-pthread", "-ldl"], sim=True, **kw)
sim_check("SIMTEST", ["c_simtest"])
sim_check("C21", ["c_simdisp"])
sim_check("C18", ["c_simsched"])
sim_check("C26", ["c_simsched"], extra=["-DWITH_ASIO", "-DASIO_DISABLE_EPOLL", "-I%s/src/extensions/rppasio" % REPO])
sim_check("C28", ["c_simgrpc", "plain:grpc_parts"], extra=["-I%s/src/extensions/rppgrpc" % REPO])
sim_check("C20", ["c_simsubj"])
for pid in ("C23", "C24"):
    sim_check(pid, ["c_simhop"], args=["--property", pid])
sim_check("C25", ["c_simconn"])
sim_check("C30", ["c_simresub"])
for pid in ("C19", "C22"):
    sim_check(pid, ["c_simops"], args=["--property", pid])

# statically composed chains: generated from the seed, one C++ type each
STATIC = ["clang++", "-std=c++20", "-O0", "-g0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-Wno-everything"] + INC
for pid in ("C15", "C16"):
    check(pid, DIFF + ["c_static"], flags=STATIC, args=["--property", pid])
    CHECKS[pid]["chains"] = {"C15": (56, 400, "values"), "C16": (72, 480, "any")}[pid]

QT = "/usr/include/x86_64-linux-gnu/qt6"
check("C27", ["pbt", "vclock", "c_qt"], flags=SEQ + ["-fPIC", "-I%s" % QT, "-I%s/QtCore" % QT, "-I%s/src/extensions/rppqt" % REPO], link=["-lQt6Core", "-pthread"])
CHECKS["C27"]["moc"] = "c_qt.hpp"

def chain_set(pid, rest):
    """(seed, number of chains) of this run; a replay names them in its directory"""
    if "--replay" in rest:
        m = re.search(r"chains_(\d+)_(\d+)", rest[rest.index("--replay") + 1])
        if m:
            return int(m.group(1)), int(m.group(2))
    seed = rest[rest.index("--seed") + 1] if "--seed" in rest else os.environ.get("VERIF_SEED", "1")
    n = CHECKS[pid]["chains"][1 if "--thorough" in rest else 0]
    return int(seed), n

def build(pid, chains=None):
    c = dict(CHECKS[pid])
    import hashlib
    key = hashlib.sha1(repr((c["flags"], REPO)).encode()).hexdigest()[:10]
    if chains:
        d = os.path.join(VERIF, ".build", "chains_%s_%d_%d" % (pid, *chains))
        subprocess.run([sys.executable, os.path.join(H, "gen_static.py"), str(chains[0]), str(chains[1]), d, "2", c["chains"][2]], check=True, stdout=subprocess.DEVNULL)
        c["srcs"] = c["srcs"] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
        key += "_%s_%d_%d" % (pid, *chains)
    bd = os.path.join(VERIF, ".build", key)
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, "bin_" + pid)
    lines = ["builddir = .", "rule cxx",
             "  command = %s -MMD -MF $out.d $extra -c $in -o $out" % " ".join(c["flags"]),
             "  depfile = $out.d", "  deps = gcc",
             "rule plain", "  command = clang++ -std=c++20 -O2 -g1 %s -MMD -MF $out.d -c $in -o $out" % " ".join(INC),
             "  depfile = $out.d", "  deps = gcc",
             "rule moc", "  command = /usr/lib/qt6/libexec/moc $in -o $out",
             "rule link", "  command = %s $in -o $out %s" % (" ".join([c["flags"][0]] + [f for f in c["flags"] if f.startswith("-fsanitize=") and not c["sim"]]), " ".join(c["link"]))]
    objs = []
    if "moc" in c:
        lines += ["build moc_%s.cpp: moc %s" % (pid, os.path.join(H, c["moc"])), "build moc_%s.o: cxx moc_%s.cpp" % (pid, pid)]
        objs.append("moc_%s.o" % pid)
    for s in c["srcs"]:
        rule = "cxx"
        if s.startswith("plain:"):
            rule, s = "plain", s[6:]
        src = s if s.startswith("/") else os.path.join(H, s)
        if not src.endswith(".cpp"):
            src += ".cpp"
        o = ("p_" if rule == "plain" else "") + os.path.basename(src)[:-4] + ".o"
        lines.append("build %s: %s %s" % (o, rule, src))
        objs.append(o)
    lines.append("build %s: link %s" % (exe, " ".join(objs)))
    nf = os.path.join(bd, "build_%s.ninja" % pid)
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-C", bd, "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "error" in l or "undefined reference" in l]
        sys.stderr.write("\n".join(errs[:25])[:6000])
        sys.stderr.write("\nrun.py: the harness of %s did not compile\n" % pid)
        sys.exit(3)
    return exe

def main():
    a = sys.argv[1:]
    pid = a[0]
    rest = a[1:]
    t0 = time.time()
    chains = chain_set(pid, rest) if "chains" in CHECKS[pid] else None
    exe = build(pid, chains)
    if "--build-only" in rest:
        return 0
    seed = os.environ.get("VERIF_SEED", "1")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    cmd = [exe] + CHECKS[pid]["args"]
    if "--replay" not in rest:
        if "--seed" not in rest:
            cmd += ["--seed", seed]
        if "--evidence" not in rest:
            cmd += ["--evidence", os.path.join(VERIF, "evidence", pid + ".json")]
        rdir = "replays" + ("/chains_%d_%d" % chains if chains else "")
        os.makedirs(os.path.join(VERIF, rdir), exist_ok=True)
        cmd += ["--replay-dir", rdir, "--elapsed", "%.1f" % (time.time() - t0)]
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            cmd += ["--known", kf]
    cmd += rest
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    env.update(CHECKS[pid]["env"])
    sys.stdout.flush()
    os.chdir(VERIF)
    return subprocess.call(cmd, env=env)

if __name__ == "__main__":
    sys.exit(main())
