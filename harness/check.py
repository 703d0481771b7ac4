"""check.py PROP [--replay FILE]: decide one property on the code in /repo.

Small models are checked by TLC; histories of the real code are recorded and validated by TLC against the
specification.  Exit 0: held on everything explored.  Exit 1: VIOLATION lines.  Exit 2: machinery failure."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

import plans

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROCS = 8


class Broken(Exception):
    pass


def env(**more):
    e = dict(os.environ)
    e.pop("PYTHONPYCACHEPREFIX", None)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "1",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg"})
    e.update(more)
    return e


def tlc(module, cfg, work, workers=1, mem="2500m", timeout=840, args=(), quick=False, **more):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", *(["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]), *(["-XX:TieredStopAtLevel=1"] if quick else []), "-Xmx" + mem, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env(**more), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Broken("TLC timed out on %s" % module) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


def numbers(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def validate(prop, spec, path, traces, events, work, mem, quick):
    """-> (states, transitions, rejections) where a rejection is (0-based trace, event, clauses)"""
    out = tlc(spec + ".tla", spec + ".cfg", work, mem=mem, quick=quick, PROP=prop, TRACE=path)
    rej = []
    for line in re.findall(r'^"REJECT (.*)"$', out, re.M):
        d = json.loads(line.replace('\\"', '"').replace("\\\\", "\\"))
        rej.append((d["trace"] - 1, d["event"], d["clauses"]))
    if "Model checking completed. No error has been found." in out:
        gen, dist = numbers(out)
        if not rej and dist != events + traces:
            raise Broken("TLC consumed %d of %d events" % (dist - traces, events))
        return dist, gen - traces, rej
    if re.search(r"OutOfMemory|StackOverflow|GC overhead", out):
        raise Broken("TLC ran out of memory: " + out[-800:])
    # a result of a form the specification cannot even evaluate is not an answer
    m = re.findall(r"tid = (\d+)", out)
    ev = re.findall(r"/\\ l = (\d+)", out)
    if not m or not ev:
        raise Broken("TLC failed: " + out[-1500:])
    rej.append((int(m[-1]) - 1, int(ev[-1]) + 1, ["result cannot be evaluated"]))
    return numbers(out)[1], numbers(out)[0], rej


def shard(prop, si, st, seed, lo, hi, work, hashing=None):
    # the order in which sets of names come differs from shard to shard
    hashing = hashing if hashing is not None else (seed * 1000003 + si * 100003 + lo) % 2 ** 32
    path = os.path.join(work, "t_%d_%d.ndjson" % (si, lo))
    p = subprocess.run([PY, os.path.join(HERE, "gen.py"), prop, str(si), str(seed), str(lo), str(hi), path],
                       env=env(DNX_PICK=os.path.join(work, "pick_%d" % si), PYTHONHASHSEED=str(hashing)), capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        raise Broken("recording failed: " + p.stderr[-1500:])
    stats = json.loads(p.stdout.strip().splitlines()[-1])
    if stats["traces"] == 0:
        return stats, 0, 0, [], None
    states, trans, rej = validate(prop, st["spec"], path, stats["traces"], sum(stats["ops"].values()), work,
                                  st.get("mem", "2500m"), hi - lo <= 400)
    found, sample = [], None
    with open(path) as f:
        for i, line in enumerate(f):
            if i == 0 and lo == 0:
                t = json.loads(line)
                sample = {"stage": si, "trace": lo, "events": len(t["evs"]),
                          "first": t["evs"][:2], "last": t["evs"][-1:]}
            for r in rej:
                if r[0] == i:
                    t = json.loads(line)
                    found.append({"property": prop, "stage": si, "seed": seed, "hashing": hashing, "trace": lo + i, "event": r[1],
                                  "clauses": r[2], "graph": {k: v for k, v in t.items() if k not in ("evs",)},
                                  "events": t["evs"][:r[1]]})
    os.remove(path)
    return stats, states, trans, found, sample


def model(m, tier, work, export=None):
    """model check a small model; its exported states (lines STATE ...) go to a file, in a fixed order"""
    module, cfgs, opts = m
    cfg = cfgs.get(tier, cfgs["quick"])
    t0 = time.time()
    out = tlc(module + ".tla", cfg, work, workers=opts.get("workers", 2), mem=opts.get("mem", "4g"),
              args=("-coverage", "1") if tier != "quick" and opts.get("coverage", True) else (), timeout=840 if tier == "quick" else 7200)
    if "Model checking completed. No error has been found." not in out:
        raise Broken("the specification itself fails (%s): %s" % (cfg, out[-3000:]))
    gen, dist = numbers(out)
    if export:
        got = sorted({x.replace('\\"', '"').replace("\\\\", "\\") for x in re.findall(r'^"STATE (.*)"$', out, re.M)},
                     key=lambda x: ("tries" not in x and '"kind"' not in x, len(x), x))
        with open(export, "w") as f:
            f.write("\n".join(got) + "\n")
    acts = {}
    for name, a, b in re.findall(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
        acts[name] = acts.get(name, 0) + int(b)
    dead = [a for a, n in acts.items() if n == 0 and a not in ("Init",)]
    if dead:
        raise Broken("actions never taken in %s: %s" % (cfg, dead))
    return {"model": cfg, "states": dist, "transitions": gen, "actions": acts, "wall_s": round(time.time() - t0, 1)}


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    scale = float(os.environ.get("DNX_SCALE", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="dnx-check-")
    rc = 2
    try:
        rc = run(prop, tier, seed, scale, t0, work)
    except Broken as ex:
        print("CHECK-ERROR property=%s %s" % (prop, ex))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, scale, t0, work):
    jobs = []
    stages = plans.PLAN.get(prop, [])
    with concurrent.futures.ThreadPoolExecutor(PROCS) as ex:
        models = [ex.submit(model, m, tier, work, os.path.join(work, "states_%d" % k))
                  for k, m in enumerate(plans.MODELS.get(prop, []))]
        # what needs no model first
        for si, st in sorted(enumerate(stages), key=lambda x: "model" in x[1]):
            n = max(1, int(st[tier] * scale))
            if "model" in st:
                n = pick(prop, si, st, tier, seed, scale, models, work)
            k = max(1, min(PROCS // len(stages) or 1, n)) if tier == "quick" else max(1, n // st.get("chunk", 400))
            k = st.get("shards", k) if tier == "quick" else k
            cuts = [n * j // k for j in range(k + 1)]
            for a, b in zip(cuts, cuts[1:]):
                if b > a:
                    jobs.append(ex.submit(shard, prop, si, st, seed, a, b, work))
        done = [j.result() for j in jobs]
        models = [m.result() for m in models]
    stats = [d[0] for d in done]
    ops = {}
    excs = {}
    for s in stats:
        for k, v in s["ops"].items():
            ops[k] = ops.get(k, 0) + v
        for k, v in s["excs"].items():
            excs[k] = excs.get(k, 0) + v
    found = [x for d in done for x in d[3]]
    known = known_findings(prop)
    new, old = [], {}
    for v in found:
        sig = json.dumps([v["clauses"], v["events"][-1] if v["events"] else None], sort_keys=True)
        hit = [w for rx, w in known if rx.search(sig)]
        if hit:
            old[hit[0]] = old.get(hit[0], 0) + 1
        else:
            new.append(v)
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    level = "model_checking"
    cov = {"states": sum(m["states"] for m in models) + sum(d[1] for d in done),
           "transitions": sum(m["transitions"] for m in models) + sum(d[2] for d in done),
           "traces_validated_against_impl": sum(s["traces"] for s in stats),
           "evaluations": sum(ops.values()),
           "distinct_nontrivial": sum(s["distinct"] for s in stats),
           "rule": "one evaluation is one recorded public call of the real code, checked as a step of the "
                   "specification; distinct ones differ in operation, arguments, result or resulting graph "
                   "(counted per shard)",
           "distinct_graphs_observed": sum(s["states"] for s in stats),
           "operations": ops, "refusals": excs, "models": models,
           "samples": [d[4] for d in done if d[4]][:2]}
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": ["TLC and the Python interpreter are correct",
                                   "the recording harness encodes calls and results faithfully"],
                   "wall_s": round(time.time() - t0, 1), "violations": len(new)}, f, indent=1)
    for what, n in old.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if new:
        rd = os.path.join(evd, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(sorted(new, key=lambda v: len(v["events"]))[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            v.update({"tier": tier, "scale": scale})
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (", ".join(v["clauses"]), json.dumps(v["events"][-1])[:400] if v["events"] else ""))
        return 1
    print("OK property=%s traces=%d events=%d models=%d states=%d wall=%.1fs" % (
        prop, cov["traces_validated_against_impl"], cov["evaluations"], len(models), cov["states"],
        time.time() - t0))
    return 0


def pick(prop, si, st, tier, seed, scale, models, work):
    """choose which of the exported states of its model a stage replays; tell the recorder where they are"""
    models[st["model"]].result()
    src = os.path.join(work, "states_%d" % st["model"])
    with open(src) as f:
        total = sum(1 for _ in f)
    n = min(total, max(1, int(st[tier] * scale)))
    chosen = list(range(total)) if n == total else random.Random("%s/%s/%s" % (seed, prop, si)).sample(range(total), n)
    with open(os.path.join(work, "pick_%d" % si), "w") as f:
        json.dump({"file": src, "pick": chosen}, f)
    return n


def replay(path):
    """Record the history of a violation again and validate it alone."""
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="dnx-check-")
    st = plans.PLAN[v["property"]][v["stage"]]
    try:
        if "model" in st:
            with concurrent.futures.ThreadPoolExecutor(1) as ex:
                ms = {st["model"]: ex.submit(model, plans.MODELS[v["property"]][st["model"]], v["tier"], work,
                                             os.path.join(work, "states_%d" % st["model"]))}
                pick(v["property"], v["stage"], st, v["tier"], v["seed"], v["scale"], ms, work)
        _, _, _, found, _ = shard(v["property"], v["stage"], st, v["seed"], v["trace"], v["trace"] + 1, work,
                                v.get("hashing"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for x in found:
        print("VIOLATION property=%s replay=%s" % (x["property"], path))
        for e in x["events"]:
            print("  ", json.dumps(e))
        print("  ", x["clauses"])
    sys.exit(1 if found else 0)


if __name__ == "__main__":
    main()
