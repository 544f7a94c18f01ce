#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present (run by hand; the file is committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", "c%s.py" % i[1:])):
        m = __import__("c" + i[1:])
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick bash run.sh " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
                       "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks drive the real code of /repo's working tree; no hooks in /repo are needed. "
                    "Repairs of genuine defects are the 'fix:' commits listed in KNOWN_FINDINGS.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
