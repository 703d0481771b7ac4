"""genall.py KIND SEED N OUT: N traces of every stage of every property for one kind of graph, in one file."""
import importlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import plans  # noqa: E402

kind, seed, n, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
tr = ev = hung = 0
with open(out, "w") as f:
    for prop in sorted(plans.PLAN):
        for si, st in enumerate(plans.PLAN[prop]):
            k = {"snaps": "snap", "motifs": "motif"}.get(st["fam"], st.get("kind"))
            if k != kind or "model" in st:
                continue
            fam = importlib.import_module(st["fam"])
            m = n if st["fam"] != "bulk" else 1
            m = m * 8 if kind == "motif" else m * 4 if kind == "snap" else m
            for i in range(m):
                if hung >= 2:
                    break
                t = fam.record(random.Random("%s/%s/%s/%s" % (seed, prop, si, i)), st, i)
                f.write(json.dumps(t) + "\n")
                tr += 1
                ev += len(t["evs"])
                hung += sum(1 for e in t["evs"] if e["exc"] == "Timeout")
print(json.dumps({"traces": tr, "events": ev}))
