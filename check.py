#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py PROP quick|thorough     explore; exit 0 (held) or 1 (VIOLATION line)
  check.py replay FILE             re-execute a replay file exactly; exit 1 if it violates
  check.py run PROP SEED           one seed
  check.py build                   builds the simulator

One seed is one plan (problem, options, fault schedule, scheduler seed); one plan is one exactly
repeatable execution.  Every violation is re-executed twice in fresh processes before it is reported and
is minimised by removing and shrinking plan lines as long as the same violation remains.
"""
import os, sys, subprocess, json, time, re, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "sim"))
import plans  # per-property run budgets and descriptions


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith((".cpp", ".hpp", ".c", ".h", ".inc", ".py", ".in", ".ac", ".am")):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:16]


def build(variant):
    base = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
    env = dict(os.environ)
    if not os.environ.get("SIM_DEV"):
        hd = os.path.join(base, "h-" + tree_hash())
        os.makedirs(base, exist_ok=True)
        for o in os.listdir(base):
            if o.startswith("h-") and os.path.join(base, o) != hd:
                shutil.rmtree(os.path.join(base, o), ignore_errors=True)
        binp = os.path.join(hd, variant, "ipoptsim")
        if os.path.exists(binp) and os.path.exists(binp + ".ok"):
            return binp
        env["SIM_BUILD"] = hd
    r = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "build.py"), variant], env=env, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        print(r.stdout)
        print("the simulator could not be built from", REPO)
        sys.exit(2)
    binp = r.stdout.strip().splitlines()[-1]
    open(binp + ".ok", "w").close()
    return binp


def simenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("IPOPT", "MUMPS", "OMP_")):
            del e[k]
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    e["OMP_NUM_THREADS"] = "1"
    e["LC_ALL"] = "C"
    return e


def run_plan(binp, text, limit=None):
    """Executes a plan in a fresh process; returns (output, [(prop, cls, msg)])."""
    cmd = [binp, "run", "-"]
    out = subprocess.run(cmd, input=text, env=simenv(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         errors="replace", timeout=400).stdout
    v = []
    for l in out.splitlines():
        if l.startswith("VIOL "):
            p = l.split(" ", 3)
            v.append((p[1], p[2], p[3] if len(p) > 3 else ""))
    return out, v


def gen(binp, prop, seed, tier):
    return subprocess.run([binp, "gen", prop, str(seed), "t" if tier == "thorough" else "q"], env=simenv(), stdout=subprocess.PIPE, text=True).stdout


def has(viols, prop, cls):
    return any(p == prop and c == cls for p, c, _ in viols)


def minimise(binp, text, prop, cls, budget):
    end = time.time() + budget
    lines = text.strip().splitlines()
    tried = set()

    def bad(ls):
        t = "\n".join(ls) + "\n"
        if t in tried or time.time() > end:
            return False
        tried.add(t)
        try:
            _, v = run_plan(binp, t)
        except subprocess.TimeoutExpired:
            return False
        return has(v, prop, cls)

    keep = lambda l: l.startswith("property ")
    chunk = max(1, len(lines) // 2)
    while chunk >= 1 and time.time() < end:
        i = 0
        progress = False
        while i < len(lines):
            cand = [l for k, l in enumerate(lines) if not (i <= k < i + chunk) or keep(l)]
            if len(cand) < len(lines) and bad(cand):
                lines = cand
                progress = True
            else:
                i += chunk
        if chunk == 1 and not progress:
            break
        chunk = max(1, chunk // 2) if chunk > 1 or progress else 0
        if chunk == 1 and not progress and len(lines) < 3:
            break
    # shrink: fault windows, problem sizes, problem attributes
    changed = True
    while changed and time.time() < end:
        changed = False
        for i, l in enumerate(lines):
            w = l.split()
            cands = []
            if w and w[0].endswith("prob") and len(w) >= 5:
                for k in (3, 4):
                    for val in (int(w[k]) // 2, int(w[k]) - 1):
                        if (val >= 1 if k == 3 else val >= 0) and val < int(w[k]):
                            cands.append(w[:k] + [str(val)] + w[k + 1:])
                for k in range(5, len(w)):
                    cands.append(w[:k] + w[k + 1:])
            elif w and w[0].endswith("fault") and len(w) >= 5:
                try:
                    a, b = int(w[3]), int(w[4])
                    if b > a:
                        cands.append(w[:4] + [str(a)] + w[5:])
                        cands.append(w[:3] + [str(b)] + w[4:])
                    if a == b and a > 1:
                        cands.append(w[:3] + [str(a // 2)] * 2 + w[5:])
                except ValueError:
                    pass
            for cd in cands:
                nl = lines[:i] + [" ".join(cd)] + lines[i + 1:]
                if bad(nl):
                    lines = nl
                    changed = True
                    break
    return "\n".join(lines) + "\n"


def load_known():
    """known_findings.txt: 'finding: property=ID class=REGEX when=REGEX replay=FILE text...' and 'fixed: ...' lines."""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) class=(\S+) when=(\S+) replay=(\S+) (.*)", l.strip())
            if m:
                res.append(dict(prop=m[1], cls=m[2], when=m[3], replay=m[4], text=m[5]))
    return res


def known_match(known, prop, cls, plan):
    for k in known:
        if k["prop"] == prop and re.fullmatch(k["cls"], cls) and all(re.search(w.replace("~", " "), plan, re.M) for w in k["when"].split("&&")):
            return k
    return None


def explore(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = plans.PROPS[prop]
    variants = cfg["variants"] if "variants" in cfg else ["sim"]
    known = load_known()
    workers = os.cpu_count() or 8
    agg = dict(runs=0, sims=0.0, bb=0.0, cnt={}, sigs=set(), cov=0, lastnew=0)
    found = {}      # (variant, cls) -> [seeds]
    foreign = {}
    bins = {}
    per_variant = {}
    tb = 0.0
    stale_known = []
    reported = []
    t_explore = 0.0
    corpus_n = 0
    for var in variants:
        b0 = time.time()
        binp = bins[var] = build(var)
        tb += time.time() - b0
        # regression corpus: minimised plans of earlier violations
        cdir = os.path.join(VERIF, "corpus", prop)
        if os.path.isdir(cdir):
            fs = sorted(os.listdir(cdir))
            procs = []
            for f in fs:
                corpus_n += 1
                procs.append((f, subprocess.Popen([binp, "run", os.path.join(cdir, f)], env=simenv(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")))
                if len(procs) % workers == 0:
                    for _, p in procs[-workers:]:
                        p.wait() if False else None
            for f, p in procs:
                out = p.communicate()[0]
                for l in out.splitlines():
                    if l.startswith("VIOL "):
                        w = l.split(" ", 3)
                        if w[1] == prop:
                            found.setdefault((var, w[2]), []).append("corpus/%s/%s" % (prop, f))
        runs, secs = cfg[tier] if not isinstance(cfg[tier], dict) else cfg[tier][var]
        base = seed * 100000000 + (50000000 if var == "asan" else 0)
        e0 = time.time()
        procs = []
        covf = tempfile.mkdtemp(prefix="simcov.")
        for w in range(workers):
            n = runs // workers + (1 if w < runs % workers else 0)
            procs.append(subprocess.Popen([binp, "batch", prop, str(base + w), str(workers), str(n), str(secs), "t" if tier == "thorough" else "q", os.path.join(covf, "c%d" % w)],
                                          env=simenv(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace"))
        vruns = 0
        for p in procs:
            out = p.communicate()[0]
            if "\nDONE" not in out:
                print("a worker of the simulator ended prematurely:", out[-300:])
                sys.exit(2)
            for l in out.splitlines():
                w = l.split(" ")
                if w[0] == "V":
                    (found if w[2] == prop else foreign).setdefault((var, w[3]) if w[2] == prop else (w[2], w[3]), []).append(int(w[1]))
                elif w[0] == "RUNS":
                    vruns += int(w[1])
                elif w[0] == "SIMS":
                    agg["sims"] += float(w[1])
                elif w[0] == "BB":
                    agg["bb"] += float(w[1])
                elif w[0] == "C":
                    k = " ".join(w[1:-2])
                    a = agg["cnt"].setdefault(k, [0, 0])
                    a[0] += int(w[-2]); a[1] += int(w[-1])
                elif w[0] == "S":
                    agg["sigs"].add(var + w[1])
        cov = None
        for f in os.listdir(covf):
            d = open(os.path.join(covf, f), "rb").read()
            x = int.from_bytes(d, "little")
            cov = x if cov is None else cov | x
        agg["cov"] = max(agg["cov"], bin(cov or 0).count("1"))
        shutil.rmtree(covf, ignore_errors=True)
        t_explore += time.time() - e0
        agg["runs"] += vruns
        per_variant[var] = vruns
        if vruns < runs:
            print("note: time cap reached after %d of %d runs" % (vruns, runs))
    # --- confirm, minimise, report
    nondet = 0
    seen_known = set()
    for k in known:
        if k["prop"] != prop:
            continue
        var = "asan" if "asan" in os.path.basename(k["replay"]) else variants[0]
        _, v = run_plan(bins[var], open(os.path.join(VERIF, k["replay"])).read())
        if any(p == prop and re.fullmatch(k["cls"], c) for p, c, _ in v):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
            seen_known.add(k["replay"])
    suppressed = 0
    for (var, cls), seeds in sorted(found.items()):
        binp = bins[var]
        n_try = 0
        for s in seeds:
            text = open(os.path.join(VERIF, s)).read() if isinstance(s, str) else gen(binp, prop, s, tier)
            if known_match(known, prop, cls, text):
                suppressed += 1
                continue
            n_try += 1
            if n_try > 4:
                break
            try:
                o1, v1 = run_plan(binp, text)
                o2, v2 = run_plan(binp, text)
            except subprocess.TimeoutExpired:
                continue
            if not (has(v1, prop, cls) and has(v2, prop, cls)):
                nondet += 1
                print("note: seed %s: '%s' did not reproduce in a fresh process" % (s, cls))
                continue
            msg = next(m for p, c, m in v1 if p == prop and c == cls)
            mini = minimise(binp, text, prop, cls, 25 if tier == "quick" else 120) if len(reported) < 6 else text
            if known_match(known, prop, cls, mini):
                suppressed += 1
                continue
            o3, v3 = run_plan(binp, mini)
            if not has(v3, prop, cls):
                mini = text
            exact = o1 == o2
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            fn = os.path.join(rd, "%s-%s-%s.plan" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", cls)[:60], re.sub(r"\W", "_", str(s))))
            with open(fn, "w") as fh:
                fh.write("# %s %s: %s\n# seed %s, variant %s, replay with: python3 check.py replay %s\n# identical in two fresh processes: %s\nvariant %s\n" % (prop, cls, msg, s, var, fn, "yes" if exact else "same violation", var))
                fh.write(mini)
            print("violation %s (seed %s, %d runs with this class): %s" % (cls, s, len(seeds), msg))
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            reported.append(dict(cls=cls, seed=s, replay=fn, msg=msg, plan=mini))
            break
    wall = time.time() - t0
    faults = {k[6:]: v[0] for k, v in agg["cnt"].items() if k.startswith("fault.")}
    fr = {k[6:]: v[1] for k, v in agg["cnt"].items() if k.startswith("fault.")}
    sample_seeds = [seed * 100000000 + i for i in (0, 7, 19)]
    samples = [dict(seed=s, plan=gen(bins[variants[0]], prop, s, tier).strip().splitlines()) for s in sample_seeds]
    hours = max(t_explore, 1e-3) / 3600
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=agg["runs"], distinct_nontrivial=len(agg["sigs"]),
            rule=cfg["rule"] + " A run is non-trivial if the solver reached the iteration loop or a fault fired; runs are distinct if the hash over the sequence of callbacks entered, iterations (mode, line-search steps), linear-solver outcomes, faults fired, thread switches and statuses differs.",
            samples=samples,
            seeds=agg["runs"], runs_per_variant=per_variant, seeds_per_hour=int(agg["runs"] / hours), corpus_plans=corpus_n,
            simulated_seconds=agg["sims"], basic_blocks_executed=agg["bb"],
            faults_fired=faults, runs_with_fault=fr,
            counters={k: v[0] for k, v in agg["cnt"].items() if not k.startswith("fault.")},
            code_locations_reached=agg["cov"],
            other_properties_noted={"%s %s" % k: len(v) for k, v in foreign.items()},
            known_findings_confirmed=len(seen_known), runs_suppressed_as_known=suppressed, unreproducible=nondet,
            real_components="all of libipopt (every source in /repo/src except Inexact, Java, R and unavailable linear solvers), MUMPS 5.6 sequential, reference BLAS/LAPACK",
            simulated_components="clocks, files and console, heap allocation failures, threads and mutexes (where used), dynamic loading, MUMPS error returns, the user's NLP",
        ),
        assumptions=plans.ASSUMPTIONS + cfg.get("assumptions", []),
        wall_s=round(wall, 1), build_s=round(tb, 1), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    print("%s %s: %d runs, %d distinct, %d faults fired, %.0f simulated s, %.1f s (build %.1f s), %d violation(s)"
          % (prop, tier, agg["runs"], len(agg["sigs"]), sum(faults.values()), agg["sims"], wall, tb, len(reported)))
    return 1 if reported else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["replay"]:
        text = open(a[1]).read()
        m = re.search(r"^variant (\w+)", text, re.M)
        text = re.sub(r"^variant .*\n", "", text, flags=re.M)
        binp = build(m[1] if m else "sim")
        prop = re.search(r"^property (\S+)", text, re.M)[1]
        out, v = run_plan(binp, text)
        sys.stdout.write(out)
        hit = [x for x in v if x[0] == prop]
        if hit:
            print("VIOLATION property=%s replay=%s" % (prop, a[1]))
        return 1 if hit else 0
    if a[:1] == ["build"]:
        for var in sorted({v for c in plans.PROPS.values() for v in c.get("variants", ["sim"])}):
            print(build(var))
        return 0
    if a[:1] == ["run"]:
        binp = build("sim")
        t = gen(binp, a[1], a[2], "quick")
        print(t)
        out, v = run_plan(binp, t)
        sys.stdout.write(out)
        return 1 if v else 0
    if len(a) == 2 and a[0] in plans.PROPS and a[1] in ("quick", "thorough"):
        return explore(a[0], a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
