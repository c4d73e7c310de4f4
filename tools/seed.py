#!/usr/bin/env python3
"""Development helper (no check uses it).
seed.py new ID PROPERTY "needs" "what it breaks"   the diff of /repo's working tree becomes seeded/ID/patch.diff, /repo is reset
seed.py verify ID...                               builds, tests, demonstrates and checks each of them (works in /repo, undone afterwards)"""
import json, os, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/bash
# compiles demo.cpp against the library that was just built and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -O1 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS -DDEMO_DIR=\\"$D\\" -I/repo -I/repo/_build -isystem /usr/include/eigen3 -isystem /usr/include/bullet "$D/demo.cpp" -o "$W/demo" \\
    -L/repo/_build/lib -Wl,-rpath,/repo/_build/lib LIBS -lboost_filesystem -lboost_system -lboost_thread -lpthread || exit 1
cd "$W" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def new(i, prop, needs, breaks, libs="-lVirtualRobot"):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no change in /repo"
    open(d + "/patch.diff", "w").write(diff)
    sh("git -C /repo checkout -- .")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO.replace("LIBS", libs))
        os.chmod(d + "/demo.sh", 0o755)
def verify(ids):
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    for i in ids:
        d = V + "/seeded/" + i
        m = json.load(open(d + "/meta.json"))
        t = time.time()
        out = []
        try:
            b = sh("bash /opt/vp/build.sh")
            a = sh("bash %s/demo.sh" % d, cwd="/repo")
            out.append("demo clean %d" % a.returncode)
            if a.returncode: out.append(a.stdout[-600:])
            p = sh("git -C /repo apply %s/patch.diff" % d)
            if p.returncode: out.append("APPLY FAILED " + p.stdout); continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: out.append("BUILD FAILED " + b.stdout[-1500:]); continue
            r = sh("bash /opt/vp/test.sh /tmp/w/seedtest.json")
            out.append(r.stdout.strip().splitlines()[-1])
            for l in r.stdout.splitlines():
                if l.startswith("FAIL") and "arbitrary_rotation" not in l and "WorkSpaceGrid/" not in l: out.append(l)
            a = sh("bash %s/demo.sh" % d, cwd="/repo")
            out.append("demo patched %d %s" % (a.returncode, a.stdout.strip()[-200:]))
            c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s quick" % m["property"], cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("check %d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED"))
            out += v[:2] + [l[:300] for l in c.stdout.splitlines() if "signature" in l or l.strip().startswith("fail")][:3]
        finally:
            sh("git -C /repo checkout -- .")
            print(i, m["property"], "%.0f s" % (time.time() - t), *["\n   " + o for o in out], flush=True)
    sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    if sys.argv[1] == "new": new(*sys.argv[2:])
    else: verify(sys.argv[2:] or sorted(os.listdir(V + "/seeded")))
