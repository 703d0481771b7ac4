"""Rewrites MANIFEST.json from properties.jsonl and harness/plans.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import plans  # noqa: E402

NOTE = {
    "default": "TLC validates every recorded call of the real code, with its result, exception and the whole "
               "observable graph after it, as a step of the TLA+ specification; bounded by the histories "
               "generated (seeded random, plus every transition of the small exhausted models where there is one). "
               "Trusts TLC and the recording harness.",
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLAN or i in plans.MODELS:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "technique": plans.TECHNIQUE.get(i, plans.TECHNIQUE["default"]),
                       "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
