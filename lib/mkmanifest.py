"""Writes MANIFEST.json from the checks which exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from notes import NOTES, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS and i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness interposes libc below the library (harness/src/interpose.rs)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
