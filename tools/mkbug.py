#!/usr/bin/env python3
"""mkbug.py SPEC.py: creates /verif/seeded/<id>/ from a spec with id, prop, needs, breaks, edits [(file, old, new[, count])], demo."""
import sys, os, json, subprocess, shutil
V = "/verif"
for sf in sys.argv[1:]:
    ns = {}
    exec(open(sf).read(), ns)
    for b in ns["BUGS"]:
        S = "/tmp/mkbug"
        shutil.rmtree(S, ignore_errors=True)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        os.makedirs(S)
        subprocess.run("git -C /repo archive HEAD src contrib | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (S, S), shell=True, check=True)
        ok = True
        for e in b["edits"]:
            p = os.path.join(S, e[0]); s = open(p).read()
            n = s.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want:
                print(b["id"], e[0], "found", n, "times:", e[1][:60]); ok = False; continue
            open(p, "w").write(s.replace(e[1], e[2]))
        if not ok:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.cpp"), "w").write('#include "demo.hpp"\n' + b["demo"].lstrip("\n"))
        shutil.copy(V + "/tools/demo/demo.hpp", d); shutil.copy(V + "/tools/demo/demo.sh", d)
        shutil.rmtree(S)
        print("wrote", d)
