#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of built checks below."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(here, "checks.py")).read())  # CHECKS, NA
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, lvl, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"bin/check.sh {i} quick", "thorough_cmd": f"bin/check.sh {i} thorough",
                       "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: /repo is built unmodified, harness packages and instrumentation are added through 'go build -overlay' (bin/build.sh)", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "n/a")
