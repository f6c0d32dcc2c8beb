#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a scenario."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for f in glob.glob(V + "/scenarios/*.cpp"):
    have |= set(re.findall(r'Register\s+\w+\(\{"(C\d\d)"', open(f).read()))
NA = json.load(open(V + "/tools/not_applicable.json"))
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, "")
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + (t or "seeded search over cases, schedules and faults against an oracle"),
                       "level": "exploration",
                       "level_note": "Seeded search over simulated executions of the real code: a clean run is evidence, not proof. Sequentially consistent interleavings plus "
                                     "happens-before race detection; trusts the simulator (sim/rt.cpp), the interposed libc seams and the scenario's oracle."})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: no simulation scenario")})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py all", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the seams are the libc/pthread symbols, the allocator, std::random_device/getrandom, "
                    "the ZeroMQ C API and the code's own injected interfaces, all interposed at link time; memory accesses are intercepted through compiler instrumentation."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
