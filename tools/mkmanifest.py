#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*/check.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks, na = [], []
NA = {}
p = os.path.join(V, "tools", "na.json")
if os.path.exists(p):
    NA = json.load(open(p))
for l in open(os.path.join(V, "properties.jsonl")):
    x = json.loads(l)
    c = os.path.join(V, "checks", x["id"], "check.json")
    if os.path.exists(c) and not json.load(open(c)).get("disabled"):
        cfg = json.load(open(c))
        checks.append({"property": x["id"], "quick_cmd": "python3 run.py %s quick" % x["id"],
                       "thorough_cmd": "python3 run.py %s thorough" % x["id"], "evidence_file": "evidence/%s.json" % x["id"],
                       "technique": cfg.get("technique", "explicit-state model checking: exhaustive bounded exploration of the real code against a reference model"),
                       "level": cfg.get("level", "model_checking"), "level_note": cfg.get("note", cfg.get("bounds", ""))})
    else:
        na.append({"property": x["id"], "reason": NA.get(x["id"], "no check built yet")})
src = []
h = os.path.join(V, "tools", "hooks.json")
if os.path.exists(h):
    src = json.load(open(h))
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "SIMOX_VERIF", "enable": "-DSIMOX_VERIF (vbuild.py passes it for every build of the checks)", "source_commits": src},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
