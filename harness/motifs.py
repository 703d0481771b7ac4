"""Random calls of count_temporal_motif, recorded as traces."""
import random

import rec as _rec
from rec import dnx, isint, nx
from script import line

MOTIFS = [((1, 2),), ((1, 1),), ((1, 2), (2, 3)), ((1, 2), (2, 1)), ((1, 2), (1, 2)), ((1, 2), (1, 3)), ((1, 2), (3, 2)),
          ((2, 1), (3, 1)), ((1, 2), (2, 3), (2, 1)), ((1, 2), (2, 3), (3, 1)), ((1, 1), (1, 2)), ((1, 2), (2, 2)),
          ((0, 1), (1, 2), (2, 0)), ((0, 1), (0, 1), (1, 0)), (("a", "b"), ("c", "b")), (("a", "b"), ("b", "a")),
          ((1, 2), (3, 2), (4, 2)), ((1, 2), (2, 3), (3, 4)), ((3, 1), (1, 2)), ((1, 2), (1, 3), (2, 3)),
          ((1, 2), (1, 2), (1, 2)), ((1, 2), (2, 1), (1, 2)), ((1, 2), (2, 3), (3, 4), (4, 1)),
          ((1, 2), (2, 1), (1, 2), (2, 1)), ((1, 1), (1, 1))]
DOMAINS = [[0, 1, 2], [1, 2, 3, 4], ["a", "b", "c", "ab"], [-1, 0, 1, 2, 3], [0.5, 1, 2], [0, 1], [0, "0", "a", 2.5],
           ["", False, 3, "b"], [(1, 2), (2, 1), (1,), 1], [frozenset([1]), frozenset([2]), frozenset([1, 2]), frozenset()]]
TIMES = [list(range(0, 6)), list(range(-4, 8)), [x / 2 for x in range(8)], list(range(0, 100, 7)), [0, 1, 2],
         [1600000000 + x for x in range(6)], [1600000000000 + 250 * x for x in range(5)]]


class R(_rec.Rec):
    def __init__(self, nodes):
        self.kind, self.dir, self.codemode, self.domain, self.limit = "impulse", True, False, None, 30
        self.odd, self.ids, self.evs, self.labels, self.kept = {}, {}, [], [], []
        for n in nodes:
            self.nid(n)
        self.g = dnx.ImpulseDiGraph()
        self.t = {"kind": "motif", "dir": True, "evs": self.evs}
        self.last = None

    def observe(self):
        return None

    base = 0

    def at(self, t):
        """a time counted from the first one (a difference of times is told by tok)"""
        return self.tok(t - self.base)


def decode(rec, x, names):
    total, counts, pos = x
    cs = [[[rec.nid(n) for n in k], isint(c)] for k, c in counts.items()]
    cols = list(pos.columns)
    ps = [[rec.nid(n), [isint(int(v)) for v in row]] for n, row in zip(list(pos.index), pos.values.tolist())]
    return {"total": isint(int(total)), "counts": sorted(cs), "names": [names[c] for c in cols], "pos": sorted(ps)}


def motif(rng, length, names):
    """a random motif whose nodes hang together"""
    m, used = [], [names[0]]
    for _ in range(length):
        e = [rng.choice(used), rng.choice(names)]
        rng.shuffle(e)
        m.append(tuple(e))
        used = list(dict.fromkeys(used + e))
    return tuple(m)


def long(rng, st):
    """longer motifs where few pairs repeat, counted with windows that many edges leave"""
    nodes = rng.sample([n for n in rng.choice(DOMAINS)], 2) if rng.random() < 0.6 else rng.sample(
        rng.choice([d for d in DOMAINS if len(d) > 2]), 3)
    rec = R(nodes)
    times = [1.5 * t for t in range(24)] if rng.random() < 0.2 else list(range(24))
    n = rng.randint(6, st["edges"])
    p, q = rng.sample(nodes, 2)
    es = [((p, q) if rng.random() < 0.6 else (rng.choice(nodes), rng.choice(nodes))) + (t,)
          for t in sorted(rng.sample(times[:n + rng.choice([0, 2, 5])], n))]
    if rng.random() < 0.3:
        es.append((q, p, es[0][2]))
    rec.call("add", {"es": [[rec.nid(u), rec.nid(v), rec.at(t)] for u, v, t in es]}, lambda: rec.g.add_edges_from(es))
    names = rng.choice([(1, 2), (1, 2), (1, 2, 3)])
    gap = times[1]
    for _ in range(st["ask"]):
        m = motif(rng, rng.choice([3, 4, 4, 5, 5, 6]), names)
        count(rec, rng, m, gap * rng.choice([len(m) - 1, len(m), len(m) + 1, len(m) + 3, 2 * len(m), n]))
    return rec.t


def count(rec, rng, m, delta):
    names = {}
    seq = [[names.setdefault(a, len(names) + 1), names.setdefault(b, len(names) + 1)] for a, b in m]
    arg = rng.choice([tuple, list])(m)
    random.seed(rng.randrange(10 ** 6))
    ev = rec.call("count", {"seq": seq, "delta": rec.tok(delta)},
                  lambda: dnx.count_temporal_motif(rec.g, arg, delta), lambda x: decode(rec, x, names))
    try:
        ev["after"] = len(rec.g.edges())
    except Exception:
        ev["after"] = -1


def enumerated(rng, st, i):
    """an edge set that TLC enumerated from MotifModel: motifs are counted in it, near every time difference"""
    x = line(st["file"], st["pick"][i])
    nodes = [d for d in DOMAINS if len(d) > 2]
    rec = R(rng.sample(rng.choice(nodes), 3))
    names = list(rec.ids)
    times = rng.choice(TIMES)
    rec.base = times[0] if times[0] > 10 ** 6 else 0
    times = sorted(rng.sample(times, 3))
    es = [(names[u - 1], names[v - 1], times[t]) for u, v, t in x["es"]]
    rng.shuffle(es)
    rec.call("add", {"es": [[rec.nid(u), rec.nid(v), rec.at(t)] for u, v, t in es]},
             lambda: rec.g.add_edges_from(es))
    gaps = {0} | {b - a for a in times for b in times if a < b}
    deltas = sorted(gaps | {d + e for d in gaps for e in (-0.25, 0.25) if d + e > 0})
    small = [m for m in MOTIFS if len(m) <= len(es)]
    for _ in range(st["ask"]):
        count(rec, rng, rng.choice(small), rng.choice(deltas))
    return rec.t


def record(rng, st, i):
    if "model" in st:
        return enumerated(rng, st, i)
    if st.get("long"):
        return long(rng, st)
    nodes = rng.choice(DOMAINS)
    if st.get("many"):
        nodes = list(range(rng.choice([3, 5, 9])))
    rec = R(nodes)
    times = rng.choice(TIMES)
    if st.get("many"):
        times = list(range(rng.choice([8, 30, 100])))
    rec.base = times[0] if times[0] > 10 ** 6 else 0
    limit = st.get("edges", 9)
    held = set()
    for _ in range(rng.randint(3, 7)):
        es = []
        for _ in range(rng.randint(1, 5) if not st.get("many") else limit):
            if len(held) + len(es) >= limit:
                break
            es.append((rng.choice(nodes), rng.choice(nodes), rng.choice(times)))
        if es:
            held |= set(es)
            rec.call("add", {"es": [[rec.nid(u), rec.nid(v), rec.at(t)] for u, v, t in es]},
                     lambda: rec.g.add_edges_from(es))
        if held and rng.random() < 0.3:
            k = rng.choice(sorted(held, key=repr))
            held.discard(k)
            rec.call("remove", {"es": [[rec.nid(k[0]), rec.nid(k[1]), rec.at(k[2])]]},
                     lambda: rec.g.remove_edge(k[0], k[1], k[2], k[2]))
        for _ in range(rng.randint(1, 3)):
            m = rng.choice(MOTIFS)
            if len(m) > 3 and len(held) > 8 or len(held) > 25:
                m = rng.choice(MOTIFS[:8] if len(held) <= 25 else MOTIFS[:10])
            span = max(times) - min(times)
            count(rec, rng, m, rng.choice([0, 1, times[1] - times[0], span / 2, span, span * 2, 2, 0.5, 10 ** 12, float("inf")]))
    if rng.random() < 0.2:
        bad = rng.choice([dnx.ImpulseGraph, dnx.IntervalGraph, nx.DiGraph, list])()
        rec.call("wrong", {}, lambda: dnx.count_temporal_motif(bad, ((1, 2),), 1))
    return rec.t
