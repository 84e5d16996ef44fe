#!/usr/bin/env python3
"""Builds the simulator and the simulated program from /repo's working tree.
usage: build.py [t] [m]   (t: threads variant, m: MPI variant)"""
import glob, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("K52_REPO", "/repo")
OUT = os.environ.get("K52_BUILD", os.path.join(HERE, "build"))

def repo_sources():
    src = []
    for d in ("common", "parallel", "optimization", "dsp"):
        for root, dirs, files in os.walk(os.path.join(REPO, "src", d)):
            dirs[:] = sorted(x for x in dirs if x not in ("unit_tests", "tests", "test"))
            for f in sorted(files):
                if f.endswith(".cpp"):
                    src.append(os.path.join(root, f))
    return src

def gen(variants):
    os.makedirs(OUT, exist_ok=True)
    L = []
    w = L.append
    w("ninja_required_version = 1.5")
    w("builddir = " + OUT)
    simflags = "-std=c++17 -O2 -g1 -fPIE -fno-builtin-malloc -Wall -Wno-format-truncation -Wno-nonnull-compare"
    w("rule simcc\n  command = g++ %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out" % simflags)
    common = ("-std=gnu++17 -O1 -g1 -fPIC -fsanitize=thread -fno-omit-frame-pointer -fno-gnu-unique -w "
              "-DBUILD_WITH_BOOST_THREAD -DBUILD_WITH_FFTW3 -D_USE_MATH_DEFINES -I%s/sim -I%s/harness "
              "-I%s/include -I%s/src") % (HERE, HERE, REPO, REPO)
    w("rule tcc\n  command = g++ %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out" % common)
    w("rule mcc\n  command = g++ -I%s/mpi_stub -DBUILD_WITH_MPI %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out" % (HERE, common))
    w("rule exe\n  command = g++ -pie -rdynamic -o $out $in -Wl,--no-as-needed -lfftw3 -lboost_thread -lpthread -ldl\n  description = LD $out")
    wrap = "-Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset"
    w("rule so\n  command = g++ -shared -Wl,-Bsymbolic %s -o $out $in -lfftw3 -lboost_thread\n  description = LD $out" % wrap)
    w("rule cp\n  command = cp $in $out\n  description = CP $out")
    objs = []
    for s in sorted(glob.glob(HERE + "/sim/*.cpp")):
        o = "%s/sim/%s.o" % (OUT, os.path.basename(s)[:-4])
        w("build %s: simcc %s" % (o, s)); objs.append(o)
    exe = OUT + "/simrun"
    w("build %s: exe %s" % (exe, " ".join(objs)))
    targets = {"t": [exe], "m": [exe]}
    for v, rule in (("t", "tcc"), ("m", "mcc")):
        objs = []
        for s in repo_sources():
            o = "%s/%s/repo/%s.o" % (OUT, v, os.path.relpath(s, REPO).replace("/", "__")[:-4])
            w("build %s: %s %s" % (o, rule, s)); objs.append(o)
        for s in sorted(glob.glob("%s/harness/%s_*.cpp" % (HERE, v)) + glob.glob(HERE + "/harness/common_*.cpp")):
            o = "%s/%s/h/%s.o" % (OUT, v, os.path.basename(s)[:-4])
            w("build %s: %s %s" % (o, rule, s)); objs.append(o)
        so = "%s/k52%s.so" % (OUT, v)
        w("build %s: so %s" % (so, " ".join(objs)))
        targets[v].append(so)
        if v == "m":
            for r in range(20):
                w("build %s.r%d: cp %s" % (so, r, so)); targets[v].append("%s.r%d" % (so, r))
    with open(OUT + "/build.ninja.new", "w") as f:
        f.write("\n".join(L) + "\n")
    old = OUT + "/build.ninja"
    if not os.path.exists(old) or open(old).read() != open(old + ".new").read():
        os.replace(old + ".new", old)
    else:
        os.remove(old + ".new")
    return [t for v in variants for t in targets[v]]

def build(variants, quiet=True):
    t = gen(variants)
    p = subprocess.run(["ninja", "-C", OUT, "-f", OUT + "/build.ninja"] + sorted(set(t)),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not quiet:
        sys.stdout.write(p.stdout[-6000:])
    return p.returncode

if __name__ == "__main__":
    sys.exit(build(sys.argv[1:] or ["t", "m"], quiet=False))
