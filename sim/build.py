#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

Every .cpp/.c under /repo/src that belongs to libipopt (found by walking the
tree, so a new or renamed file is picked up) is compiled unmodified and linked
statically into one simulator binary together with the harness in sim/src.
Variants:  sim   -O1, basic-block callbacks (-fsanitize-coverage=trace-pc) as
                 preemption points and coverage measure
           asan  the same plus AddressSanitizer/UBSan
"""
import os, sys, subprocess, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
SKIP = re.compile(r"(/Inexact/|/Apps/|StdJInterface|PardisoMKL|Wsmp|Spral|Ma28)")

WRAPS = ("gettimeofday getrusage clock_gettime time clock fopen fopen64 pthread_mutex_lock pthread_mutex_unlock "
         "pthread_mutex_trylock drand48 erand48 srand48 rand srand malloc calloc realloc free "
         "dlopen dlsym dlclose dmumps_c").split()


def sources():
    res = []
    for sub in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, sub)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if SKIP.search(p):
                    continue
                if f.endswith(".cpp") or f in ("IpStdFInterface.c", "IpLinearSolvers.c"):
                    res.append(p)
    # sIPOPT
    for d, _, fs in os.walk(os.path.join(REPO, "contrib/sIPOPT/src")):
        res += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    # AMPL interface: only the TNLP, not the main program
    p = os.path.join(REPO, "src/Apps/AmplSolver/AmplTNLP.cpp")
    if os.path.exists(p):
        res.append(p)
    return sorted(res)


def incdirs():
    res = [os.path.join(SIM, "config")]
    for d, _, fs in [w for sub in ("src", "contrib/sIPOPT/src") for w in os.walk(os.path.join(REPO, sub))]:
        if any(f.endswith((".h", ".hpp", ".inc")) for f in fs):
            res.append(d)
    return res


def main():
    variant = sys.argv[1] if len(sys.argv) > 1 else "sim"
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    san = []
    if variant == "asan":
        san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    opt = ["-O1", "-g1"]
    common = opt + ["-DNDEBUG", "-DIPOPTLIB_BUILD", "-DHAVE_CONFIG_H", "-w", "-fno-pie",
                    "-I/usr/include/mumps_seq", "-I/usr/include/ampl-netlib-solvers"]
    inc = ["-I" + d for d in incdirs()]
    wrap = ["-Wl,--wrap=" + w for w in WRAPS]
    if variant == "asan":
        wrap = ["-Wl,--wrap=" + w for w in WRAPS + ["_Znwm", "_Znam"] if w not in ("free",)]
    n = []
    q = lambda l: " ".join(l)
    n.append("ninja_required_version = 1.3")
    n.append("rule cxx\n  command = g++ -std=c++17 $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    n.append("rule cc\n  command = gcc $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    n.append("rule link\n  command = g++ $flags $in -o $out $libs\n  description = LINK $out")
    objs = []
    for s in sources():
        o = "repo_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o"
        r = "cc" if s.endswith(".c") else "cxx"
        n.append(f"build {o}: {r} {s}\n  flags = {q(common + san + ['-fsanitize-coverage=trace-pc'] + inc)}")
        objs.append(o)
    for f in sorted(os.listdir(os.path.join(SIM, "src"))):
        if not f.endswith(".cpp"):
            continue
        s = os.path.join(SIM, "src", f)
        o = "sim_" + f.replace(".cpp", ".o")
        n.append(f"build {o}: cxx {s}\n  flags = {q(common + san + inc + ['-DSIM_VARIANT_' + variant.upper()])}")
        objs.append(o)
    libs = "-ldmumps_seq -llapack -lblas -lamplsolver -lm -ldl -lpthread"
    n.append(f"build ipoptsim: link {q(objs)}\n  flags = {q(san + ["-rdynamic", "-no-pie"] + wrap)}\n  libs = {libs}")
    n.append("default ipoptsim")
    txt = "\n".join(n) + "\n"
    bf = os.path.join(out, "build.ninja")
    if not os.path.exists(bf) or open(bf).read() != txt:
        open(bf, "w").write(txt)
    env = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "MAKEFLAGS", "NINJA_STATUS"):
        env.pop(k, None)
    r = subprocess.run(["ninja", "-C", out, "-j", str(os.cpu_count() or 8), "--quiet"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-8000:])
        print("BUILD FAILED")
        sys.exit(3)
    print(os.path.join(out, "ipoptsim"))


if __name__ == "__main__":
    main()
