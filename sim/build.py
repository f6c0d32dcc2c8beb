#!/usr/bin/env python3
"""Generates build.ninja for the simulation binaries from /repo's working tree and builds the requested ones.

usage: build.py [all|pool|core|backend|framework|python ...]

Everything under test (and the scenarios) is compiled with -fsanitize=thread but linked against sim/rt.cpp instead of
libtsan; sources are globbed, so added or moved files are picked up."""
import os, sysconfig, subprocess, sys, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNP_REPO", "/repo")
K = REPO + "/knp"
OUT = os.environ.get("SIM_BUILD", VERIF + "/build")

INCLUDES = [K + "/core-library/include", K + "/core-library/impl", OUT + "/gen", K + "/meta-library/include",
            K + "/neuron-traits-library/include", K + "/synapse-traits-library/include",
            K + "/backends/cpu/cpu-library/include", K + "/backends/cpu/thread_pool/include",
            K + "/backends/cpu/cpu-multi-threaded-backend/include", K + "/backends/cpu/cpu-single-threaded-backend/include",
            K + "/backends/cpu/cpu-devices/include", K + "/base-framework/include", K + "/base-framework/impl",
            VERIF + "/sim", VERIF + "/scenarios"]
COMMON = "-std=c++17 -O1 -g1 -DNDEBUG -fno-pie -pipe -w -DSPDLOG_FMT_EXTERNAL -DSPDLOG_ACTIVE_LEVEL=6 -DSIM=1"
TSAN = "-fsanitize=thread"


def sources(root, exclude=()):
    r = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not any(x in p[len(root):] for x in exclude) and "/test" not in p[len(root):]:
                r.append(p)
    return r


def sync(files, to):
    """Makes directory `to` hold exactly `files` (relative name -> source); what is there already is not touched."""
    for p in glob.glob(to + "/**/*.py", recursive=True):
        if p[len(to) + 1:] not in files:
            os.remove(p)
    for name, src in files.items():
        text = open(src, "rb").read()
        p = to + "/" + name
        if not os.path.exists(p) or open(p, "rb").read() != text:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(text)


def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    core = sources(K + "/core-library/impl")
    pool = sources(K + "/backends/cpu/thread_pool/impl")
    devices = [p for p in sources(K + "/backends/cpu/cpu-devices/impl") if "x86" not in os.path.basename(p)]
    backends = sources(K + "/backends/cpu/cpu-multi-threaded-backend/impl") + sources(K + "/backends/cpu/cpu-single-threaded-backend/impl") \
        + sources(K + "/backends/cpu/cpu-library")
    framework = sources(K + "/base-framework/impl", exclude=("/sonata/", "/storage/", "/visualizer/"))
    scen = {}
    for p in sorted(glob.glob(VERIF + "/scenarios/*.cpp")):
        scen.setdefault(os.path.basename(p).split("_")[0], []).append(p)
    fbs = sorted(glob.glob(K + "/core-library/impl/messaging/fbs/*.fbs"))
    n = ["ninja_required_version = 1.3", "builddir = " + OUT,
         "rule cxx", "  command = g++ " + COMMON + " $tsan $inc -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule rt", "  command = g++ -std=c++17 -O2 -g1 -fno-pie -fno-tree-loop-distribute-patterns -w -MD -MF $out.d -c $in -o $out.tmp.o && "
                    "objcopy --redefine-sym memcpy=__real_memcpy --redefine-sym memmove=__real_memmove --redefine-sym memset=__real_memset "
                    "--redefine-sym malloc=__real_malloc --redefine-sym posix_memalign=__real_posix_memalign $out.tmp.o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule flatc", "  command = flatc --cpp -o " + OUT + "/gen/knp_gen_headers $in && touch $out",
         "rule link", "  command = g++ -no-pie -o $out $in $wrap $libs -lfmt -lflatbuffers -lboost_filesystem -ldl -lpthread"]
    inc = " ".join("-I" + i for i in INCLUDES)
    n += ["build %s/gen/stamp: flatc %s" % (OUT, " ".join(fbs))]
    done = {}
    # Python bindings: every module is compiled with its own name, as its build does.
    python = []
    modules = K + "/python-framework/impl"
    for d in sorted(glob.glob(modules + "/*/cpp")):
        python += [p for p in sources(d) if os.path.basename(p) != "network_io.cpp"]
    pyinc = subprocess.run(["python3-config", "--includes"], stdout=subprocess.PIPE, text=True).stdout.strip()
    pyver = sysconfig.get_config_var("VERSION")
    pylibs = " -lpython%s -lboost_python%s" % (pyver, pyver.replace(".", ""))

    def obj(src):
        if src in done:
            return done[src]
        extra = ""
        if src.startswith(modules):
            m = src[len(modules) + 1:].split("/")[0]
            extra = " %s -DKNP_LIBRARY_NAME=%s -DKNP_FULL_LIBRARY_NAME=_knp_python_framework_%s" % (pyinc, m, m)
        elif os.path.basename(src).startswith("python_"):
            extra = " %s -I%s -DPY_TREE='\"%s/python\"'" % (pyinc, modules + "/core/cpp", OUT)
        base = src[len(REPO):] if src.startswith(REPO) else src[len(VERIF):]
        o = OUT + "/obj" + base.replace("/impl/", "/") + ".o"
        tsan = "" if src.endswith(("/sim/driver.cpp", "/sim/fakedl.cpp")) else TSAN
        if src.endswith("/sim/rt.cpp"):
            n.append("build %s: rt %s" % (o, src))
        else:
            n.append("build %s: cxx %s || %s/gen/stamp\n  tsan = %s\n  inc = %s" % (o, src, OUT, tsan, inc + extra))
        done[src] = o
        return o

    simc = [VERIF + "/sim/rt.cpp", VERIF + "/sim/driver.cpp", VERIF + "/sim/fakezmq.cpp"]
    groups = {"pool": pool + [s for s in simc if "zmq" not in s], "core": core + simc,
              "backend": core + pool + devices + backends + simc,
              "framework": core + pool + devices + backends + framework + simc + [VERIF + "/sim/fakedl.cpp"],
              "python": core + pool + devices + backends + framework + python + simc + [VERIF + "/sim/fakedl.cpp"]}
    wrap = " ".join("-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "malloc", "calloc", "aligned_alloc", "posix_memalign"))
    dl = " ".join("-Wl,--wrap=" + f for f in ("dlopen", "dlsym", "dlclose", "dlerror"))
    for gname, srcs in groups.items():
        if gname not in scen:
            continue
        objs = [obj(s) for s in srcs + scen[gname]]
        n.append("build %s/%s_sim: link %s\n  wrap = %s -Wl,--export-dynamic" % (OUT, gname, " ".join(objs), wrap + (" " + dl if gname in ("framework", "python") else "")
                 + ("\n  libs = -z muldefs" + pylibs if gname == "python" else "")))
        n.append("build %s: phony %s/%s_sim" % (gname, OUT, gname))
    text = "\n".join(n) + "\n"
    path = OUT + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    want = sys.argv[1:] or ["all"]
    if "python" in scen and ("python" in want or "all" in want):
        tree = {"python_driver.py": VERIF + "/scenarios/python_driver.py"}
        for top, to in [(K + "/python-framework/packaging/python", "knp")] + [(d, "knp/" + d.split("/")[-2]) for d in sorted(glob.glob(modules + "/*/python"))]:
            for p in glob.glob(top + "/**/*.py", recursive=True):
                tree[to + p[len(top):]] = p
        sync(tree, OUT + "/python")
    targets = [] if "all" in want else ["%s/%s_sim" % (OUT, w) for w in want]
    r = subprocess.run(["ninja", "-f", path, "-C", OUT] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lines = r.stdout.strip().splitlines()
    if r.returncode:
        print("\n".join(lines[-60:]))
        return 3
    print(lines[-1] if lines else "")
    return 0


if __name__ == "__main__":
    sys.exit(main())
