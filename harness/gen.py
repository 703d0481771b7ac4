"""gen.py PROP STAGE SEED LO HI OUT: record traces LO..HI-1 of a stage, one JSON per line.

Prints one JSON line of statistics about what was recorded."""
import collections
import importlib
import json
import os
import random
import sys
import traceback

import plans
import rec


def make(prop, stage, seed, i):
    st = plans.PLAN[prop][stage]
    fam = importlib.import_module(st["fam"])
    if "model" in st:
        if "pick" not in st:
            with open(os.environ["DNX_PICK"]) as f:
                st.update(json.load(f))
    rng = random.Random("%s/%s/%s/%s" % (seed, prop, stage, i))
    rec.CURRENT.clear()
    try:
        return fam.record(rng, st, i)
    except Exception as ex:
        if not rec.CURRENT or not hasattr(rec.CURRENT[-1], "t"):
            raise
        traceback.print_exc()
        return rec.CURRENT[-1].stuck(ex)


def main():
    prop, stage, seed, lo, hi, out = sys.argv[1:7]
    stage, lo, hi = int(stage), int(lo), int(hi)
    ops, excs, distinct, states, hung = (collections.Counter(), collections.Counter(), set(), set(), 0)
    with open(out, "w") as f:
        n = 0
        for i in range(lo, hi):
            t = make(prop, stage, seed, i)
            t["id"] = [stage, i]
            f.write(json.dumps(t) + "\n")
            n += 1
            for e in t["evs"]:
                ops[e["op"]] += 1
                if e["exc"]:
                    excs[e["op"] + ":" + e["exc"]] += 1
                distinct.add(hash((e["op"], repr([e.get(k) for k in ("res", "obs", "b", "e", "n", "u", "v", "us",
                                                                      "vs", "es", "lo", "hi", "lines")]))))
                if e["exc"] == "Timeout":
                    hung += 1
                if e["obs"]:
                    states.add(hash(repr(e["obs"])))
            if hung >= 2:
                break
    print(json.dumps({"traces": n, "ops": ops, "excs": excs, "distinct": len(distinct), "states": len(states)}))


if __name__ == "__main__":
    main()
