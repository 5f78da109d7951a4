#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import props
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p not in props.PROPS:
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    c = props.PROPS[p]
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
        "technique": "deterministic simulation: " + c["technique"],
        "level": "exploration", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "python3 bin/build.py .build/setup && rm -rf /verif/.build/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (scheduler, clock, network, sync.Pool, signals) is put in at build time by an overlay over the "
              "standard library and instrumented copies of /repo's files; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
