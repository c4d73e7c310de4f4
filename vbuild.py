#!/usr/bin/env python3
"""Builds Simox (from /repo's current working tree) and the model-checking harnesses.

Objects are cached by content through ccache (CCACHE_DIR inside /verif/.cache, which git ignores), so a
check recompiles exactly the translation units whose preprocessed inputs changed.  Nothing in /repo is
written.  Everything also works from an empty cache.
"""
import concurrent.futures as cf, fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMOX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
JOBS = int(os.environ.get("VJOBS", str(os.cpu_count() or 4)))

DEFS = ("-DgetMotorTargetVelosity=getMotorTargetVelocity -DgNumDeepPenetrationChecks=gNumClampedCcdMotions "
        "-DgNumGjkChecks=gNumClampedCcdMotions -DBOOST_ALL_NO_LIB -DBOOST_PROGRAM_OPTIONS_DYN_LINK "
        "-DBOOST_FILESYSTEM_DYN_LINK -DBOOST_SYSTEM_DYN_LINK -DBOOST_THREAD_DYN_LINK "
        "-DBOOST_NO_CXX11_SCOPED_ENUMS -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DUSE_NLOPT -DNDEBUG -DSIMOX_VERIF").split()
DEFS += ['-DSimox_DATA_PATH="data"', '-DVirtualRobot_SRC_DATA_PATH="%s/VirtualRobot/data"' % REPO,
         '-DVirtualRobot_EXPORTS', '-D_USE_MATH_DEFINES']
INCS = ["-I" + REPO, "-I" + REPO + "/VirtualRobot", "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP",
        "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP/PQP++",
        "-I" + REPO + "/GraspPlanning", "-I" + REPO + "/MotionPlanning", "-I" + REPO + "/SimDynamics",
        "-I" + REPO + "/GraspPlanning/ExternalDependencies/qhull-2003.1/include",
        "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/bullet"]
LIBS = ["-lnlopt", "-lboost_filesystem", "-lboost_system", "-lboost_program_options", "-lboost_thread",
        "-lboost_atomic", "-lboost_chrono"]
BULLET = ["-lBulletDynamics", "-lBulletSoftBody", "-lBulletCollision", "-lLinearMath"]

FLAVORS = {
    "std":  dict(cc=[], ld=[]),
    "asan": dict(cc=["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,float-divide-by-zero,float-cast-overflow",
                     "-fno-sanitize-recover=undefined", "-g1", "-fno-omit-frame-pointer"],
                 ld=["-fsanitize=address,undefined"]),
    # only the instrumentation calls; the runtime (__tsan_*) is ours (mc/ctlsched.cpp)
    "race": dict(cc=["-fsanitize=thread", "-g1"], ld=["-Wl,-Bsymbolic-functions", "-Wl,--dynamic-list=" + os.path.join(VERIF, "mc/race.list")]),
}


class BuildError(Exception):
    pass


def cmake_sources(path):
    """The .cpp/.c files a CMakeLists.txt names that we build (comments dropped)."""
    out = []
    for line in open(path, errors="replace"):
        line = line.split("#", 1)[0]
        out += re.findall(r"[\w./+\-]+\.(?:cpp|c)\b", line)
    return out


EXCLUDE = re.compile(r"Coin|OSG|osg|COLLADA|Collada|collada|inventor|pugixml|GraspEditor|URDF|Dynamics/dynamics\.cpp|"
                     r"ReachabilityInversion|OpenGLViewer|Dummy|tests/|\$|Viewer|moc_|qrc_|Legacy")


def component_sources():
    """component -> list of absolute sources, from the repository's own CMake lists."""
    comp = {}

    def grab(sub, name, extra=()):
        base = os.path.join(REPO, sub)
        srcs, seen = [], set()
        for s in list(cmake_sources(os.path.join(base, "CMakeLists.txt"))) + list(extra):
            p = os.path.normpath(os.path.join(base, s))
            if EXCLUDE.search(os.path.relpath(p, REPO)) or p in seen or not os.path.exists(p):
                continue
            seen.add(p)
            srcs.append(p)
        comp[name] = srcs

    grab("VirtualRobot", "vr", ["CollisionDetection/PQP/CollisionCheckerPQP.cpp",
                                "CollisionDetection/PQP/CollisionModelPQP.cpp"])
    pqp = os.path.join(REPO, "VirtualRobot/CollisionDetection/PQP/PQP++")
    comp["vr"] += [os.path.join(pqp, f) for f in sorted(os.listdir(pqp)) if f.endswith(".cpp")]
    grab("MotionPlanning", "saba")
    grab("GraspPlanning", "grasp")
    qh = os.path.join(REPO, "GraspPlanning/ExternalDependencies/qhull-2003.1/src")
    names = ["user", "global", "stat", "io", "geom2", "poly2", "merge", "qhull", "geom", "poly", "qset", "mem"]
    comp["grasp"] += [os.path.join(qh, n + ".c") for n in names if os.path.exists(os.path.join(qh, n + ".c"))]
    grab("SimDynamics", "simdyn")
    return comp


DEPENDS = {"vr": [], "saba": ["vr"], "grasp": ["saba", "vr"], "simdyn": ["vr"], "none": []}


def _env():
    e = dict(os.environ)
    for k in ("CPATH", "CPLUS_INCLUDE_PATH", "CXXFLAGS", "CFLAGS"):
        e.pop(k, None)
    e.update(LC_ALL="C.UTF-8", CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="8G",
             CCACHE_NOHASHDIR="1", CCACHE_COMPRESSLEVEL="1",
             CCACHE_SLOPPINESS="", CCACHE_TEMPDIR=os.path.join(CACHE, "tmp"))
    return e


CCACHE = shutil.which("ccache")


def _hash(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()


def obj_path(src, flavor, flags):
    d = os.path.join(CACHE, "obj", flavor)
    os.makedirs(d, exist_ok=True)
    base = os.path.basename(src).replace(".", "_")
    return os.path.join(d, base + "-" + _hash(src, " ".join(flags))[:10] + ".o")


def compile_one(src, flavor, extra=()):
    is_c = src.endswith(".c")
    fl = FLAVORS[flavor]["cc"] if not is_c else [f for f in FLAVORS[flavor]["cc"]]
    if src.startswith(VERIF):
        std = ["-std=c++14", "-O1"]
        if flavor == "race":
            fl = ["-g1"]
    elif is_c:
        std = ["-O1"]
        if flavor == "race":
            fl = []
    else:
        std = ["-std=c++11", "-O1"]
    if is_c and "qhull" in src:
        fl = [] if flavor == "asan" else fl          # third-party code, not under check
    flags = std + ["-fPIC", "-w", "-ffp-contract=off"] + fl + DEFS + list(extra) + INCS
    if src.startswith(VERIF):
        flags += ["-I" + os.path.join(VERIF, "mc")]
    obj = obj_path(src, flavor, flags)
    if os.path.exists(obj):
        os.remove(obj)
    cmd = ([CCACHE] if CCACHE else []) + ["gcc" if is_c else "g++"] + flags + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=_env(), cwd=CACHE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       errors="replace")
    if p.returncode:
        raise BuildError("compiling %s (%s):\n%s" % (src, flavor, p.stdout[-4000:]))
    return obj


def digest(paths, *more):
    h = hashlib.sha1()
    for p in paths:
        with open(p, "rb") as f:
            h.update(hashlib.sha1(f.read()).digest())
    for m in more:
        h.update(m.encode())
    return h.hexdigest()


def link(objs, out, args, shared):
    """Links unless the same objects were already linked to `out`."""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    libs = [a for a in args if a.startswith("/") and os.path.exists(a)]
    key = digest(objs + libs, " ".join(args), "s" if shared else "e")
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    ld = ["-fuse-ld=lld"] if shutil.which("ld.lld") else []
    cmd = ["g++"] + ld + (["-shared"] if shared else ["-rdynamic"]) + objs + ["-o", out] + args
    p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
    if p.returncode:
        raise BuildError("linking %s:\n%s" % (out, p.stdout[-6000:]))
    with open(stamp, "w") as f:
        f.write(key)
    return out


def lock():
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(CACHE, "tmp"), exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def closure(comps):
    out = []
    for c in comps:
        for d in [c] + DEPENDS[c]:
            if d not in out and d != "none":
                out.append(d)
    order = ["vr", "saba", "grasp", "simdyn"]
    return [c for c in order if c in out]


def build_libs(comps, flavor, pool, only=None):
    """Shared libraries of the components; returns their paths, dependants first."""
    srcs = component_sources()
    jobs = {}
    for c in closure(comps):
        for s in srcs[c]:
            jobs[(c, s)] = pool.submit(compile_one, s, flavor)
    libs = []
    for c in closure(comps):
        objs = [jobs[(c, s)].result() for s in srcs[c]]
        out = os.path.join(CACHE, "lib", flavor, "libv%s.so" % c)
        dep = [os.path.join(CACHE, "lib", flavor, "libv%s.so" % d) for d in closure([c]) if d != c]
        link(objs, out, FLAVORS[flavor]["ld"] + dep + LIBS + (BULLET if c == "simdyn" else []) +
             ["-Wl,-rpath," + os.path.join(CACHE, "lib", flavor)], True)
        libs.insert(0, out)
    return libs


def build_check(check_id, comps, b):
    """Builds one harness; b is an entry of the check's "builds" list.

    With "sources" only those files of the repository are compiled (a cheap build for a self-contained part);
    should they no longer link on their own, the whole component is used instead."""
    t0 = time.time()
    flavor, main = b.get("flavor", "std"), b["main"]
    lk = lock()
    try:
        with cf.ThreadPoolExecutor(JOBS) as pool:
            h = [os.path.join(VERIF, "checks", check_id, main), os.path.join(VERIF, "mc/mc.cpp")]
            h += [os.path.join(VERIF, x) for x in b.get("extra_src", [])]
            hj = [pool.submit(compile_one, s, flavor, tuple(b.get("extra_flags", []))) for s in h]
            out = os.path.join(CACHE, "bin", flavor, check_id + "-" + main.replace(".cpp", ""))
            tail = LIBS + (BULLET if "simdyn" in comps else []) + ["-lpthread", "-ldl"] + b.get("ldflags", [])
            if b.get("sources"):
                srcs = [os.path.join(REPO, s) for s in b["sources"]]
                try:
                    rj = [pool.submit(compile_one, s, flavor) for s in srcs if os.path.exists(s)]
                    link([j.result() for j in hj + rj], out, FLAVORS[flavor]["ld"] + tail, False)
                    return out, time.time() - t0
                except BuildError as e:
                    if not str(e).startswith("linking"):
                        raise
            # "hardened" files of the repository are compiled into the harness with the address sanitizer
            hard = [os.path.join(REPO, s) for s in b.get("hardened", [])]
            san = ["-fsanitize=address"] if hard else []
            hj += [pool.submit(compile_one, s, flavor, tuple(san)) for s in hard if os.path.exists(s)]
            libs = build_libs(comps, flavor, pool)
            objs = [j.result() for j in hj]
            link(objs, out, FLAVORS[flavor]["ld"] + san + libs + tail +
                 ["-Wl,-rpath," + os.path.join(CACHE, "lib", flavor)], False)
    finally:
        lk.close()
    return out, time.time() - t0


if __name__ == "__main__":
    t0 = time.time()
    lk = lock()
    with cf.ThreadPoolExecutor(JOBS) as pool:
        print(build_libs(sys.argv[2:] or ["grasp", "simdyn"], sys.argv[1] if len(sys.argv) > 1 else "std", pool))
    print("%.1fs" % (time.time() - t0))
