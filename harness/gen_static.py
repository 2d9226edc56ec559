#!/usr/bin/env python3
"""gen_static.py SEED N OUT_DIR: N random operator chains as C++ types, K per file, covering as many pairs of neighbours as possible."""
import os, random, sys
seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
per = int(sys.argv[4]) if len(sys.argv) > 4 else 2
values = len(sys.argv) > 5 and sys.argv[5] == "values" # operators that keep, share or hand over values more often
rnd = random.Random(seed)
B = ["true", "false"]
light = ["Map", "MapVal", "MapFwd", "MapPtr", "Filter", "FilterVal", "Take", "Skip", "TakeWhile", "TakeWhileVal", "TakeLast", "ElementAt", "First", "Last", "Distinct", "Duc", "DucVal",
         "ScanSeed", "Scan", "ReduceSeed", "Reduce", "Buffer", "Tap", "TapVal", "StartWithValues", "Retry", "Repeat", "RetryWhen", "Finally"]
heavy = ["FlatMap", "MapMerge", "MapConcat", "MapSwitch", "TakeUntil", "MergeWith", "StartWith", "ConcatWith", "CombineLatest", "Zip", "WithLatest", "Window", "WindowToggle", "GroupBy", "ResumeNext"]
glue = ["AsDynamic", "Variant", "Deferred", "SubscribeOn", "ObserveOn", "Wrapped", "ByDynObserver"]
sources = ["SrcDyn", "SrcStatic", "SrcStatic", "SrcStatic", "SrcSync", "SrcSync", "SrcIter", "SrcIterShared", "SrcJust", "SrcJustShared"]
def inst(o):
    if o in ("FlatMap", "MapMerge", "MapConcat", "MapSwitch", "TakeUntil", "MergeWith", "StartWith", "ConcatWith", "ResumeNext"):
        return "%s<%s>" % (o, rnd.choice(B))
    if o in ("CombineLatest", "Zip", "WithLatest"):
        return "%s<%s, %d>" % (o, rnd.choice(B), rnd.randrange(3))
    if o == "Window":
        return "Window<%d>" % rnd.randrange(3)
    if o == "WindowToggle":
        return "WindowToggle<%s, %d>" % (rnd.choice(B), rnd.randrange(2))
    if o == "GroupBy":
        return "GroupBy<%s, %s>" % (rnd.choice(B), rnd.choice(B))
    return o
keeps = ["MapVal", "MapFwd", "MapPtr", "FilterVal", "TakeWhileVal", "TakeLast", "ElementAt", "Last", "Distinct", "Duc", "DucVal", "ScanSeed", "Scan", "ReduceSeed", "Reduce", "Buffer", "TapVal", "StartWithValues"]
keeps_heavy = ["CombineLatest", "Zip", "WithLatest", "GroupBy", "Window", "StartWith", "FlatMap"]
seen = set()
use = {}
def gain(c):
    return sum((a, b) not in seen for a, b in zip(c, c[1:])) + sum(1.0 / (1 + 2 * use.get(x, 0)) for x in c)
def candidate():
    c = []
    budget = 3.0
    while len(c) < 4 and budget > 0:
        k = rnd.random()
        if k < 0.5:
            o = rnd.choice(keeps if values and rnd.random() < 0.7 else light); budget -= 0.7
        elif k < 0.85:
            o = rnd.choice(keeps_heavy if values and rnd.random() < 0.7 else heavy); budget -= 1.3
        else:
            o = rnd.choice(glue); budget -= 0.4
        c.append(o)
    return c
chains = []
for i in range(n):
    best = max((candidate() for _ in range(60)), key=gain)
    for p in zip(best, best[1:]):
        seen.add(p)
    for x in best:
        use[x] = use.get(x, 0) + 1
    ops = [inst(o) for o in best]
    if len(ops) >= 2 and rnd.random() < 0.3: # regrouped
        k = rnd.randrange(len(ops) - 1)
        ops[k:] = ["Group<%s>" % ", ".join(ops[k:])]
    chains.append("&chain<%d, %s, %s>" % (rnd.randrange(5), rnd.choice(sources), ", ".join(ops)))
os.makedirs(out, exist_ok=True)
def put(name, text):
    p = os.path.join(out, name)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
files = [chains[i:i + per] for i in range(0, n, per)]
for i, f in enumerate(files):
    put("chains_%d.cpp" % i, '#include "static.hpp"\nnamespace hs {\nvoid reg_%d(std::vector<ChainFn>& v)\n{\n%s}\n}\n' % (i, "".join("    v.push_back(%s);\n" % c for c in f)))
put("chains_all.cpp", '#include "static.hpp"\n#include <rpp/sources/never.hpp>\nnamespace hs {\n%sconst std::vector<ChainFn>& chains()\n{\n    static const auto v = [] {\n        std::vector<ChainFn> v;\n%s        return v;\n    }();\n    return v;\n}\nconst DynObs& never()\n{\n    static const DynObs o = rpp::source::never<V>().as_dynamic();\n    return o;\n}\n}\n' %
    ("".join("void reg_%d(std::vector<ChainFn>&);\n" % i for i in range(len(files))), "".join("        reg_%d(v);\n" % i for i in range(len(files)))))
print(len(files), len(seen))
