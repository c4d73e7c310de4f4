#!/bin/bash
# Builds every library flavour and every harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'PY'
import json, os, sys
sys.path.insert(0, ".")
import vbuild
rc = 0
for c in json.load(open("MANIFEST.json"))["checks"]:
    pid = c["property"]
    cfg = json.load(open("checks/%s/check.json" % pid))
    for b in cfg["builds"]:
        try:
            exe, t = vbuild.build_check(pid, cfg["components"], b)
            print(pid, b["main"], b.get("flavor", "std"), "%.1fs" % t, flush=True)
        except vbuild.BuildError as e:
            print(e)
            rc = 1
sys.exit(rc)
PY
