#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/plans.py and properties.jsonl."""
import json, os, sys
v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(v, "sim"))
import plans
props = [json.loads(l) for l in open(os.path.join(v, "properties.jsonl"))]
checks, na = [], []
for x in props:
    i = x["id"]
    if i in plans.PROPS:
        c = plans.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique="deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
                           level="exploration",
                           level_note=c.get("note", "Real libipopt and MUMPS under a simulated user, clock, file system, heap and linear-solver fault layer; each seed is one exactly repeatable execution; sampled, not exhaustive.")))
    else:
        na.append(dict(property=i, reason=plans.NOT_CLAIMED.get(i, "The check for this property is not part of the framework.")))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: every source of nondeterminism is intercepted at link or compile time in the simulator's own build of /repo/src. 'python3 check.py replay FILE' re-executes a replay file.")
json.dump(m, open(os.path.join(v, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(v, "MANIFEST.json"), "a").write("\n")
