#!/usr/bin/env python3
"""run.py <ID> quick|thorough   decide one property on /repo's current tree
run.py <ID> --replay FILE      re-run the execution a violation names
Exit 0: held on everything explored; exit 1: VIOLATION line printed."""
import fnmatch, json, os, subprocess, sys, tempfile, time, hashlib, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", QT_QPA_PLATFORM="offscreen", LC_ALL="C.UTF-8")


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, _, desc = line[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 1))
                d["desc"] = desc
                known.append(d)
    return known


def run_json(cmd, timeout):
    f = tempfile.NamedTemporaryFile(prefix="mcout", suffix=".json", delete=False)
    f.close()
    try:
        p = subprocess.run(cmd + ["--out", f.name], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors="replace", cwd="/tmp")
        return p.returncode, open(f.name, errors="replace").read(), p.stdout
    finally:
        os.unlink(f.name)


def parse_lines(txt):
    out = []
    for l in txt.splitlines():
        try:
            out.append(json.loads(l))
        except ValueError:
            pass
    return out


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    cfg = json.load(open(os.path.join(VERIF, "checks", pid, "check.json")))
    if tier == "--replay":
        art = json.load(open(sys.argv[3]))
        b = [x for x in cfg["builds"] if x["main"] == art["main"] and x.get("flavor", "std") == art["flavor"]][0]
        exe, _ = vbuild.build_check(pid, cfg["components"], b)
        os.execve(exe, [exe, "--tier", art["tier"]] + art["args"], ENV)
    t0 = time.time()
    res, found, suppressed, unconfirmed = [], [], [], []
    total_limit = 560 if tier == "quick" else float(os.environ.get("MC_THOROUGH_SECONDS", "3000"))
    evid = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evid, "replays")
    os.makedirs(rdir, exist_ok=True)
    known = [k for k in load_known() if k["property"] == pid]
    samples = []
    for b in cfg["builds"]:
        fl = b.get("flavor", "std")
        exe, bt = vbuild.build_check(pid, cfg["components"], b)
        limit = total_limit * b.get("share", 1.0 / len(cfg["builds"]))
        rc, txt, log = run_json([exe, "--tier", tier, "--deadline", str(limit)] + b.get("args", []), limit + 600)
        try:
            r = json.loads(txt)
        except ValueError:
            raise RuntimeError("harness gave no result (rc %s): %s\n%s" % (rc, log[-2000:], txt[:2000]))
        r["build_s"] = round(bt, 1)
        r["flavor"] = fl
        r["main"] = b["main"]
        res.append(r)
        # group by signature, confirm each in a fresh process
        groups = {}
        for v in r["violations"]:
            groups.setdefault(v["sig"], []).append(v)
        nconf = 0
        for sig, vs in sorted(groups.items()):
            k = [x for x in known if x["sig"] == sig]
            if k:
                if not any(x is k[0] for x in suppressed):
                    suppressed.append(k[0])
                continue
            nconf += 1
            if nconf > 12 and found:
                continue
            v, args, ok = vs[0], None, False
            for v in vs[:3]:
                args = ["--only", v["suite"] + ":" + v["choices"]]
                rc2, txt2, _ = run_json([exe, "--tier", tier] + args, 400)
                got = [x for x in parse_lines(txt2) if x.get("sig") and not any(y["sig"] == x["sig"] for y in known)]
                if got:
                    ok = True
                    break
            if not ok:
                # state carried over from earlier executions of the same worker: replay the worker
                args = ["--suite", vs[0]["suite"], "--worker", str(vs[0]["worker"]), "--deadline", "200"]
                rc2, txt2, _ = run_json([exe, "--tier", tier] + args, 500)
                try:
                    ok = any(x["sig"] == sig for x in json.loads(txt2)["violations"])
                except ValueError:
                    ok = False
            if ok:
                h = hashlib.sha1((fl + b["main"] + sig).encode()).hexdigest()[:10]
                path = os.path.join("evidence", "replays", "%s-%s.json" % (pid, h))
                json.dump({"property": pid, "main": b["main"], "flavor": fl, "tier": tier, "args": args, "violation": v,
                           "replay": "python3 run.py %s --replay %s" % (pid, path)},
                          open(os.path.join(VERIF, path), "w"), indent=1)
                found.append((sig, v, path))
            else:
                unconfirmed.append({"sig": sig, "suite": vs[0]["suite"], "choices": vs[0]["choices"][:200]})
        for o in r["outcomes"]:
            samples.append({"build": fl, "case": o[0], "executions": o[1]})
    S = lambda k: sum(r[k] for r in res)
    trunc = any(r["truncated"] for r in res)
    cov = {"states": S("states"), "transitions": S("steps"), "traces_validated_against_impl": S("compared_executions"),
           "evaluations": S("executions"), "distinct_nontrivial": S("distinct_outcomes"),
           "rule": cfg["rule"], "exhaustive": not trunc, "samples": samples[:80] or ["none"],
           "model_comparisons": S("compares"), "deepest_choice_sequence": max(r["max_depth"] for r in res),
           "suites": {r["flavor"] + "/" + n: s for r in res for n, s in r["suites"].items()},
           "build_seconds": sum(r["build_s"] for r in res), "unconfirmed": unconfirmed,
           "known_findings_seen": [k["sig"] for k in suppressed], "bounds": cfg.get("bounds_" + tier, cfg.get("bounds", ""))}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg.get("level", "model_checking"),
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": cfg.get("assumptions", []),
          "violations": len(found)}
    json.dump(ev, open(os.path.join(evid, pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d operations on the real code, %d executions compared with the model, "
          "%d distinct outcomes, exhaustive=%s, build %.1fs, %.1fs" %
          (pid, tier, cov["evaluations"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
           cov["distinct_nontrivial"], not trunc, cov["build_seconds"], ev["wall_s"]))
    for u in unconfirmed:
        print("note: not reproduced, not reported: %s" % u["sig"])
    for k in suppressed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["desc"], k["sig"]))
    for sig, v, path in found[:20]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s\n  %s" % (sig, v["msg"][:1500].replace("\n", "\n  ")))
        print("  suite %s choices %s" % (v["suite"], v["choices"][:300]))
        print("  trace: " + v["trace"][-1200:].replace("\n", "\n    "))
    return 1 if found else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print(e)
        sys.exit(2)
