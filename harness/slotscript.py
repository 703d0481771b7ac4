"""Sequences of small snapshots that TLC enumerated from SlotModel: the real graph is built from a real snapshot graph
holding them, and turned into snapshots again."""
import graphs
from rec import dnx, nx
from script import line


class Driver(graphs.Driver):
    def run_slots(self, x):
        r, rec = self.rng, self.rec
        SG = dnx.SnapshotDiGraph() if self.dir else dnx.SnapshotGraph()
        labels = r.sample(self.nodes, 3)
        data = r.choice([{}, {}, {"w": 1}])
        snaps, pos = [], 0
        for ps in x["snaps"]:
            G = (nx.DiGraph if self.dir else nx.Graph)()
            r.shuffle(ps)
            for u, v in ps:
                if not self.dir and r.random() < 0.5:
                    u, v = v, u
                G.add_edge(labels[u - 1], labels[v - 1], **data)
            snaps.append(G)
            ln = r.randint(0, 2)
            SG.insert(G, start=pos, end=pos + ln)
            pos += ln + r.randint(1, 3)
        b, p = r.choice([0, -2, 3, 0.5, 100]), r.choice([1, 2, 0.5, 7])
        kw = {}
        if b != 0 or r.random() < 0.5:
            kw["begin"] = b
        if p != 1 or r.random() < 0.5:
            kw["period"] = p
        enc = [[[rec.nid(u), rec.nid(v), rec.attrs(d)] for u, v, d in G.edges(data=True)] for G in snaps]

        def look():
            return repr([(list(G.nodes(data=True)), list(G.edges(data=True))) for G in snaps]) + \
                repr(list(SG.snapshots))
        before = look()
        self.build("build_snap", {"snaps": enc, "begin": rec.tok(b), "period": rec.tok(p)},
                   lambda: rec.cls.from_snapshot_graph(SG, **kw))
        rec.call("foreign", {"before": before, "after": look()}, lambda: None)
        self.do_to_snapshot_graph()
        if snaps and r.random() < 0.5:
            self.source = r.choice(snaps)
            self.spoil_source()
            self.do_edges()
        return rec.t


def record(rng, st, i):
    x = line(st["file"], st["pick"][i])
    nodes = rng.choice([d for d in graphs.NODE_DOMAINS
                        if not any(isinstance(n, (tuple, frozenset)) for n in d)])
    return Driver(rng, "interval", x["dir"], numeric=True, bad=0.0, nodes=nodes, times=[-3, -2, 0, 1, 2, 3, 4]
                  ).run_slots(x)
