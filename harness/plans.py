"""What each check runs: per property, stages of recorded histories and small models.

A stage is a dict:
  fam     driver family (graphs, snaps, motifs, text, bulk, script)
  spec    trace specification that validates its traces
  quick / thorough   number of traces
  other keys are parameters of the family
A model is (module, config for quick, config for thorough).
"""

ADD = {"add_edge": 8, "add_edges": 4, "add_node": 1, "add_nodes": 1}
MIX = {**ADD, "remove_edge": 3, "remove_node": 1.5}


def w(*parts, **more):
    out = {}
    for p in parts:
        out.update(p)
    out.update(more)
    return out


def graph(kind, weights, quick, thorough, dirs=(False, True), **kw):
    d = {"fam": "graphs", "spec": "GraphTrace", "kind": kind, "dirs": list(dirs), "weights": weights,
         "quick": quick, "thorough": thorough, "length": [15, 45]}
    d.update(kw)
    return d


Q = {"edges": 6, "has_edge": 4, "nodes": 2, "has_node": 3, "number_of_nodes": 2}
D = {"degree": 6, "delta": 5}
N = 3000

PLAN = {}
for kind, hold, query, remove, degree in (("interval", "C01", "C02", "C03", "C05"),
                                          ("impulse", "C06", "C07", "C08", "C09")):
    PLAN[hold] = [graph(kind, w(MIX, add_edge=12, edges=2, change_built=.2, build_nx=.15, build_snap=.1),
                        N, 20 * N)]
    PLAN[query] = [graph(kind, w(ADD, Q, remove_edge=1, build_nx=.1), N, 20 * N)]
    PLAN[remove] = [graph(kind, w(ADD, Q, remove_edge=8, remove_node=4, degree=2, delta=1, interval=1, stamps=1,
                                  to_subgraph=1), N, 20 * N)]
    PLAN[degree] = [graph(kind, w(ADD, D, remove_edge=1), N, 20 * N),
                    graph(kind, w(ADD, delta=6, degree=3, remove_edge=1), N // 2, 10 * N, zero_len=0.0)]
PLAN["C04"] = [graph("interval", w(MIX, remove_edge=6, remove_node=3, interval=5, stamps=8), N, 20 * N),
               graph("impulse", w(MIX, remove_edge=6, remove_node=3, interval=6), N // 2, 10 * N)]
PLAN["C10"] = [graph(k, w(ADD, remove_edge=1, to_subgraph=6, to_snapshots=5), N // 2, 10 * N, numeric=True)
               for k in ("interval", "impulse")]
PLAN["C11"] = [graph("interval", w(ADD, remove_edge=1, to_snapshot_graph=6), N // 2, 10 * N, zero_len=0.0),
               graph("interval", w(ADD, remove_edge=1, to_snapshot_graph=6), N // 4, 5 * N, zero_len=1.0,
                     length=[8, 20]),
               graph("impulse", w(ADD, remove_edge=1, to_snapshot_graph=6), N // 2, 10 * N)]
PLAN["C14"] = [graph(k, w({"build_nx": 4, "build_snap": 4, "change_built": 1, "spoil_source": 1, "edges": 2}),
                     N, 20 * N, numeric=True, length=[6, 16]) for k in ("interval", "impulse")]
PLAN["C17"] = [graph(k, w(ADD, Q, train=1.2, remove_edge=3, remove_node=1, degree=3, delta=2),
                     N // 4, 5 * N, numeric=True, length=[20, 50]) for k in ("interval", "impulse")]
PLAN["C19"] = [graph(k, w(MIX, add_node=6, add_nodes=6, nodes=6, contains=3, set_attr=3, number_of_nodes=2),
                     N // 2, 10 * N) for k in ("interval", "impulse")]
PLAN["C20"] = [graph(k, w(ADD, Q, remove_edge=4, remove_node=2, degree=2, to_snapshots=3, to_subgraph=1),
                     N // 2, 10 * N, bad=0.35) for k in ("interval", "impulse")]
PLAN["C21"] = [graph(k, w(ADD, Q, D, remove_edge=2, to_subgraph=3, to_snapshots=2, to_snapshot_graph=2, recheck=4,
                          build_nx=1, build_snap=1, spoil_source=2, change_built=1.5, interval=1, stamps=1),
                     N // 2, 10 * N, length=[20, 60]) for k in ("interval", "impulse")]
PLAN["C22"] = [graph(k, w(MIX, Q, D, interval=1, stamps=1), N // 4, 5 * N, length=[60, 140], times="dense")
               for k in ("interval", "impulse")]

for kind, k in (("interval", 3), ("impulse", 1)):
    PLAN["C22"].append({"fam": "bulk", "spec": "GraphTrace", "kind": kind, "quick": 8 * k, "thorough": 200 * k,
                        "shards": 4 * k, "chunk": 2, "sizes": [150, 400, 1000, 2500, 5000], "queries": 16,
                        "weights": w(Q, edges=8, degree=3, delta=2, interval=1, stamps=2)})


def snap(weights, quick, thorough, **kw):
    d = {"fam": "snaps", "spec": "SnapTrace", "weights": weights, "quick": quick, "thorough": thorough,
         "length": [12, 35]}
    d.update(kw)
    return d


PUT = {"insert": 4, "add": 4}
SQ = {"get": 4, "iter": 1, "contains": 1.5, "order": 2, "size": 2, "has_node": 2, "kind": 1.5, "degree": 3, "stat": 1.5,
      "convert": 1.5, "subgraph": 2}
UPD = {"add_nodes": 4, "add_edges": 5}
PLAN["C12"] = [snap(w(PUT, SQ, add_nodes=1, add_edges=1, edit=1, set_attr=.5), N, 20 * N)]
PLAN["C13"] = [snap(w(PUT, UPD, get=1), N, 20 * N, length=[8, 25])]
# times of many digits, very close together or far apart
PLAN["C12"].append(snap(w(PUT, SQ, add_nodes=1, add_edges=1), N // 6, 4 * N, wide=True))
PLAN["C13"].append(snap(w(PUT, UPD, get=1), N // 6, 4 * N, length=[8, 20], wide=True))
PLAN["C16"] = [snap(w(PUT, add_nodes=.5, add_edges=1, save=4, load=3, get=.5), N * 6 // 10, 20 * N, text=True, length=[8, 20])]
# times and weights of many digits
PLAN["C16"].append(snap(w(PUT, save=4, load=3), N // 6, 5 * N, text=True, wide=True, bad=0, length=[6, 14]))
PLAN["C20"] += [snap(w(PUT, SQ, UPD), N // 2, 10 * N, bad=0.3),
                snap(w(PUT, save=4, load=4), N // 4, 5 * N, bad=0.3, text=True, length=[4, 12])]
PLAN["C21"] += [snap(w(PUT, SQ, UPD, edit=2, convert=5, subgraph=5, recheck=5), N // 2, 10 * N)]

PLAN["C18"] = [{"fam": "motifs", "spec": "MotifTrace", "quick": N // 3, "thorough": 10 * N},
               {"fam": "motifs", "spec": "MotifTrace", "quick": N // 12, "thorough": 2 * N, "edges": 16},
               {"fam": "motifs", "spec": "MotifTrace", "quick": N // 4, "thorough": 6 * N, "long": True, "edges": 11,
                "ask": 4}]


def text(kind, weights, quick, thorough, **kw):
    d = {"fam": "text", "spec": "GraphTrace", "kind": kind, "weights": weights, "quick": quick, "thorough": thorough,
         "length": [8, 20]}
    d.update(kw)
    return d


for kind in ("interval", "impulse"):
    PLAN.setdefault("C15", []).append(text(kind, w(ADD, remove_edge=1, save=5, edges=.5), N // 4, 5 * N))
    PLAN.setdefault("C23", []).append(text(kind, w({"load": 8, "edges": 1, "add_edge": 1, "save": .3}), N // 4, 5 * N,
                                           length=[3, 10]))
    # labels, times and values of many digits
    PLAN["C15"].append(text(kind, w(ADD, remove_edge=1, save=5, edges=.5), N // 12, 2 * N, wide=1))
    PLAN["C23"].append(text(kind, w({"load": 8, "edges": 1, "save": .3}), N // 12, 2 * N, wide=1, length=[3, 10]))
    PLAN["C20"].append(text(kind, w(ADD, load=4, save=4), N // 8, 2 * N, length=[3, 8], bad=.3))
    PLAN["C17"].append(text(kind, w(ADD, Q, load=1, remove_edge=1, degree=1), N // 16, N, length=[6, 14]))
    PLAN["C21"].append(text(kind, w(ADD, save=4), N // 16, N, length=[3, 8]))



def mid(prop, kind, weights, quick=14, sizes=(40, 90, 180, 300), queries=30, **kw):
    """graphs of dozens or hundreds of edges"""
    PLAN[prop].append({"fam": "bulk", "mid": True, "spec": "GraphTrace", "kind": kind, "quick": quick,
                       "thorough": 40 * quick, "chunk": 20, "sizes": list(sizes), "queries": queries,
                       "weights": weights, **kw})


for kind, hold, query, remove, degree in (("interval", "C01", "C02", "C03", "C05"),
                                          ("impulse", "C06", "C07", "C08", "C09")):
    mid(hold, kind, w(MIX, edges=4))
    mid(query, kind, Q)
    mid(remove, kind, w(Q, remove_edge=8, remove_node=4, degree=2, delta=1, interval=1, stamps=1))
    mid(degree, kind, w(D, remove_edge=1), **({"shape": "chain"} if kind == "interval" else {}))
    mid("C19", kind, w(MIX, add_node=6, add_nodes=6, nodes=6, contains=3, number_of_nodes=2), 8)
    mid("C17", kind, w(ADD, Q, train=1.2, remove_edge=3, remove_node=1, degree=3, delta=2), 8)
    mid("C10", kind, w(add_edge=1, to_subgraph=4, to_snapshots=3), 8, (40, 90, 150), 14)
    mid("C11", kind, w(add_edge=2, remove_node=1, to_snapshot_graph=3), 8, (30, 60, 90), 6, shape="chain")
    mid("C21", kind, w(ADD, Q, D, to_subgraph=2, to_snapshots=1, to_snapshot_graph=1, recheck=3), 6, (30, 60), 25)
    mid("C14", kind, w(build_nx=4, build_snap=4, change_built=1, spoil_source=1, edges=2), 10, (10,), 10)
    PLAN["C14"][-1].update(fam="graphs", size=12, length=[6, 14], numeric=True, dirs=[False, True])
mid("C04", "interval", w(MIX, remove_edge=6, remove_node=3, interval=5, stamps=8))

for prop, weights, more in (("C12", w(SQ, add_edges=.5), {}), ("C13", w(UPD, get=1), {}),
                            ("C16", w(save=3, load=3), {"text": True}), ("C21", w(SQ, UPD, recheck=3), {})):
    PLAN[prop].append(snap(weights, 12, 240, many=40 if prop != "C16" else 15, bad=0, length=[15, 30], **more))
for kind in ("interval", "impulse"):
    PLAN["C15"].append(text(kind, w(save=1), 10, 200, size=60, length=[2, 3], bad=0))
    PLAN["C23"].append(text(kind, w(load=1), 16, 320, lines=60, length=[2, 4], bad=0))
PLAN["C18"].append({"fam": "motifs", "spec": "MotifTrace", "quick": 12, "thorough": 240, "edges": 45, "many": True})

MODELS = {}


def small(prop, kind, sweep, quick, quickcfg="Small", thorough=("Wide", 4 * N), tries=0, after=None, **kw):
    """replay every graph that a small model reaches, with the sweep of queries, and the removals it allows"""
    for d in ("dir", "und"):
        MODELS.setdefault(prop, []).append(
            ("GraphModel", {"quick": "%s_%s_%s.cfg" % (quickcfg, kind, d),
                            "thorough": "%s_%s_%s.cfg" % (thorough[0], kind, d)}, {"workers": 1}))
        st = {"fam": "script", "spec": "GraphTrace", "model": len(MODELS[prop]) - 1, "kind": kind, "quick": quick,
              "thorough": thorough[1], "sweep": sweep, "tries": tries, "after": after or {}, "shards": 2}
        st.update(kw)
        PLAN[prop].append(st)


for kind, hold, query, remove, degree in (("interval", "C01", "C02", "C03", "C05"),
                                          ("impulse", "C06", "C07", "C08", "C09")):
    small(hold, kind, {"all_edges": 4}, 250, "Attrs", ("Attrs", N))
    small(query, kind, {"edges": 14, "has_edge": 14, "has_node": 8, "nodes": 4, "number_of_nodes": 4}, 220)
    small(remove, kind, {}, 60, tries=14, after={"all_edges": 1, "has_node": 1, "nodes": 1, "degree": 1})
    small(degree, kind, {"degree": 24, "delta": 24}, 220)
small("C04", "interval", {"stamps": 50}, 220, tries=3, after={"stamps": 3})
small("C10", "interval", {"to_subgraph": 12, "to_snapshots": 4}, 120, numeric=True)
small("C10", "impulse", {"to_subgraph": 12, "to_snapshots": 4}, 120, numeric=True)
small("C11", "interval", {"to_snapshot_graph": 2}, 220, "Mid", ("Wide", 10 * N))
small("C11", "impulse", {"to_snapshot_graph": 2}, 220)



def small_snaps(prop, quick, **kw):
    for d in ("dir", "und"):
        MODELS.setdefault(prop, []).append(
            ("SnapModel", {"quick": "Snap_%s.cfg" % d, "thorough": "SnapLarge_%s.cfg" % d}, {"workers": 1}))
        st = {"fam": "snapscript", "spec": "SnapTrace", "model": len(MODELS[prop]) - 1, "quick": quick,
              "thorough": 10 * N, "shards": 2}
        st.update(kw)
        PLAN[prop].append(st)


small_snaps("C12", 250, ask=16)
small_snaps("C13", 150, tries=8)
MODELS["C22"] = [("IndexModel", {"quick": "IndexModel.cfg", "thorough": "IndexModel_big.cfg"}, {"workers": 1})]
PLAN["C22"].append({"fam": "script", "spec": "GraphTrace", "model": 0, "kind": "interval", "quick": 700,
                    "thorough": 20 * N, "shards": 3, "sweep": {"all_edges": 40, "stamps": 6}})

TECHNIQUE = {"default": "TLA+ specification checked with TLC; trace validation of recorded executions against it"}

MODELS["C18"] = [("MotifModel", {"quick": "Motif.cfg", "thorough": "MotifLarge.cfg"}, {"workers": 1})]
PLAN["C18"].append({"fam": "motifs", "spec": "MotifTrace", "model": 0, "quick": 1200, "thorough": 20 * N, "ask": 8,
                    "shards": 4})


def small_text(prop, cfg, quick, **kw):
    """write and load every small file of a model"""
    MODELS.setdefault(prop, []).append(("TextModel", {"quick": cfg + ".cfg"}, {"workers": 1, "coverage": False}))
    st = {"fam": "textscript", "spec": "GraphTrace", "model": len(MODELS[prop]) - 1, "quick": quick,
          "thorough": 20 * N, "shards": 2}
    st.update(kw)
    PLAN[prop].append(st)


for d in ("dir", "und"):
    small_text("C15", "TextRows_interval_" + d, 400, again=1, kind="interval")
    small_text("C15", "TextRows_impulse_" + d, 400, again=1, kind="impulse")
    small_text("C23", "Text_interval_" + d, 400, kind="interval")
    small_text("C23", "Text_impulse_" + d, 250, kind="impulse")
small_text("C23", "TextMerge_und", 700, kind="interval")
small_text("C23", "TextMergeWays_dir", 500, kind="interval")
for d in ("dir", "und"):
    for cfg in ("SnapText_", "SnapTextRows_"):
        MODELS.setdefault("C16", []).append(
            ("SnapTextModel", {"quick": cfg + d + ".cfg", "thorough": cfg.replace("Rows", "Large") + d + ".cfg"},
             {"workers": 1, "coverage": False}))
        PLAN["C16"].append({"fam": "snaptextscript", "spec": "SnapTrace", "model": len(MODELS["C16"]) - 1,
                            "quick": 400, "thorough": 20 * N, "shards": 2, "again": .5})

for kind in ("interval", "impulse"):
    small("C17", kind, {"edges": 12, "has_edge": 8, "degree": 6}, 150, tries=4, after={"all_edges": 1}, numeric=True,
          train=True)
    small("C19", kind, {"nodes_data": 5, "nodes": 2, "number_of_nodes": 2}, 250, "Attrs", ("Attrs", N), tries=2,
          after={"nodes_data": 2})
    small("C20", kind, {"edges": 5, "has_edge": 5, "has_node": 2, "nodes": 2, "number_of_nodes": 2, "degree": 3,
                        "delta": 2, "to_subgraph": 2, "refused": 4}, 150, reversed=True)
for d in ("dir", "und"):
    MODELS.setdefault("C14", []).append(("SlotModel", {"quick": "Slots_%s.cfg" % d, "thorough": "SlotsLarge_%s.cfg" % d},
                                         {"workers": 1}))
    PLAN["C14"].append({"fam": "slotscript", "spec": "GraphTrace", "model": len(MODELS["C14"]) - 1, "kind": "interval",
                        "quick": 585, "thorough": 10 * N, "shards": 2})

for kind in ("interval", "impulse"):
    small("C21", kind, {"edges": 3, "has_edge": 2, "nodes": 2, "degree": 3, "delta": 3, "stamps": 2, "products": 1}, 150,
          "Attrs", ("Attrs", N))

# these answer fast: more histories for the same minute
for prop in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C17", "C19"):
    for stage in PLAN[prop]:
        if stage["fam"] == "graphs" and stage["quick"] > 100:
            stage["quick"] = stage["quick"] * 3 // 2
