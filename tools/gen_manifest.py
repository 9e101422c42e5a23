#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = PLAN.get(i)
    if p:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Deciding step: Verus discharges the contracts of functions extracted from /repo's current source on every run (contracts/, vf.py). A bounded search over the real crate (harness/) supplies the failing input and stands in, labelled bounded, for what is not under contract. No hooks in /repo.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
