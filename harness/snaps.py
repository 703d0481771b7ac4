"""Random histories of the snapshot graph classes, recorded as traces."""
import os
import random
import signal

from rec import BadShape, Files, NetworkXError, Rec, SCALE, Thing, Timeout, another, codes, dnx, isbool, isint, nx

KEYS = ["w", "color", "weight"]
VALUES = [0, 1, 2.5, "red", None, 3]
WEIGHTS = [1, 2, 0.5, 3, -1, 10, 2.25, 0]
NODE_DOMAINS = [[0, 1, 2, 3], [1, 2, 3], ["a", "b", "c", ""], [0, "a", ("x", 1)], [Thing(1), Thing(2), "b"]]


INF = float("inf")


class SnapRec(Rec):
    def __init__(self, directed, nodes, attr):
        self.kind, self.dir = "snapshot", directed
        self.codemode, self.domain, self.limit = False, None, 20
        self.odd, self.ids, self.evs, self.labels, self.kept = {}, {}, [], [], []
        for n in nodes:
            self.nid(n)
        self.cls = dnx.SnapshotDiGraph if directed else dnx.SnapshotGraph
        self.g = self.cls(**attr)
        self.t = {"kind": "snapshot", "dir": directed, "attr": self.attrs(attr), "evs": self.evs}
        self.last = self.observe()
        self.t["obs0"] = self.last

    def val(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return ["s", 0, repr(v)]
        return ["n", self.tok(v), ""]

    def num(self, x):
        if isinstance(x, bool) or x * SCALE != int(x * SCALE):
            raise BadShape("number")
        return int(x * SCALE)

    def graph(self, G):
        if not isinstance(G, nx.Graph):
            raise BadShape("not a networkx graph")
        if G.is_multigraph():
            es = [[self.nid(u), self.nid(v), int(k), self.attrs(d)] for u, v, k, d in G.edges(keys=True, data=True)]
        else:
            es = [[self.nid(u), self.nid(v), 0, self.attrs(d)] for u, v, d in G.edges(data=True)]
        return {"dir": G.is_directed(), "multi": G.is_multigraph(),
                "nodes": sorted(([self.nid(n), self.attrs(d)] for n, d in G.nodes(data=True)), key=repr),
                "edges": sorted(es, key=repr)}

    def snapshots(self, sg):
        return [[self.tok(k[0]), self.tok(k[1]), self.graph(g)] for k, g in sg.snapshots.items()]

    def observe(self):
        o = {"ok": True, "snaps": [], "len": 0, "gattr": []}
        try:
            o["snaps"] = self.snapshots(self.g)
            o["len"] = int(len(self.g))
            o["gattr"] = self.attrs(dict(self.g.graph))
            if str(self.g) != self.g.name or self.g.name != self.g.graph.get("name", ""):
                raise BadShape("name")
        except Exception as ex:
            o = {"ok": False, "snaps": [], "len": 0, "gattr": [["error", ["s", 0, repr(ex)[:60]]]]}
        return o


def spoil_shape(G):
    """add and remove in a graph handed out; one that refuses changes (a frozen view) is left as it is, and shows
    in the attributes it shares"""
    try:
        G.add_edge("spoil1", "spoil2")
        G.remove_node(next(iter(G)))
    except nx.NetworkXError:
        pass


class Driver:
    # every number lies beyond 16ths, except those nearer to 0 than the others
    WIDE_TIMES = [[0, 0.1, 0.2, 0.1 + 0.2, 1 / 3, 0.7], [1600000000, 1600000001, 1600000060.5, 1600003600, 1700000000],
                  [-1e+20, -0.1, 0, 1e-07, 2e-07, 0.7], [3, 12345678, 12345679, 123456789012, 2 ** 53],
                  [0.001, 0.002, 1234567.001, 1234567.002, 1234567.01]]
    WIDE_WEIGHTS = [1, 0, 0.1, 1 / 3, 1e-09, 2.5e+20, 123456789, 1234567.1, -0.001, 10 ** 12]

    lines = 4         # of files written by hand, at most

    def __init__(self, rng, directed, text=False, bad=0.04, wide=False):
        self.rng, self.dir, self.bad, self.text, self.wide = rng, directed, bad, text, wide
        self.weights = self.WIDE_WEIGHTS if wide and text else WEIGHTS
        self.nodes = list(range(8)) if text else rng.choice(NODE_DOMAINS)
        x = rng.random()
        self.times = list(range(-3, 8)) if x < 0.6 else [i / 2 for i in range(-4, 12)] if x < 0.85 else \
            list(range(0, 12))
        if wide:
            self.times = sorted(rng.choice(self.WIDE_TIMES + [[-INF, -2, 0, 1, 3, INF], [0, 1, 2, 5, INF]] * (not text)))
        attr = {}
        if rng.random() < 0.4:
            attr["name"] = rng.choice(["G", ""])
        if rng.random() < 0.4:
            attr["k"] = 3
        self.rec = SnapRec(directed, self.nodes, attr)
        self.multi_ok = not (wide and text) and rng.random() < (0.2 if text else 0.5)
        if wide:
            self.rec.wide(self.times)
        self.handed = []          # (graph, span) held by the snapshot graph
        self.kept_real = []
        self.asked = []
        self.files = Files(rng)
        self.other = self.rec.cls()

    @property
    def g(self):
        return self.rec.g

    # ------------------------------------------------------------- choices
    def node(self):
        n = self.rng.choice(self.nodes[:4])
        return another(n) if self.rng.random() < 0.2 else n

    def attrdict(self, p=0.5):
        r = self.rng
        d = {}
        if r.random() < p:
            k = r.choice(KEYS)
            d[k] = r.choice(self.weights if k != "color" else VALUES)
        if self.text:
            d.pop("color", None)
        return d

    def spans(self):
        try:
            return list(self.g.snapshots.keys())
        except Exception:
            return []

    def free_span(self):
        """a span that meets no present one, or None"""
        r = self.rng
        have = self.spans()

        def overlap(a, b):
            if a[0] == a[1] and b[0] == b[1]:
                return a == b
            if a[0] == a[1]:
                return b[0] <= a[0] < b[1]
            if b[0] == b[1]:
                return a[0] <= b[0] < a[1]
            return a[0] < b[1] and b[0] < a[1]
        for _ in range(30):
            i, j = sorted((r.randrange(len(self.times)), r.randrange(len(self.times))))
            if j - i > 4:
                j = i + r.randint(1, 4)
            s = (self.times[i], self.times[j])
            if not any(overlap(s, tuple(h)) for h in have):
                return s
        return None

    def ebunch(self, lo=0, hi=5):
        r = self.rng
        es, enc = [], []
        for _ in range(r.randint(lo, hi)):
            u, v = self.node(), self.node()
            d = self.attrdict(0.3)
            es.append((u, v, d) if d or r.random() < 0.2 else (u, v))
            enc.append([self.rec.nid(u), self.rec.nid(v), self.rec.attrs(d)])
        return es, enc

    def static(self):
        r = self.rng
        directed = self.dir if r.random() < 0.85 or self.text else not self.dir
        multi = self.multi_ok and r.random() < 0.5
        G = {(False, False): nx.Graph, (False, True): nx.MultiGraph, (True, False): nx.DiGraph,
             (True, True): nx.MultiDiGraph}[directed, multi]()
        for _ in range(r.randint(1 if self.text else 0, 3)):
            G.add_node(self.node(), **({} if self.text else self.attrdict(0.4)))
        for _ in range(r.randint(0, 5)):
            G.add_edge(self.node(), self.node(), **self.attrdict(0.4))
        return G

    def spanargs(self):
        """keyword arguments of a span and their encoding"""
        r, rec = self.rng, self.rec
        s = self.free_span()
        if s is None:
            return None
        kw = {}
        if s[0] == s[1] and r.random() < 0.7:
            kw["time"] = s[0]
        else:
            kw["start"], kw["end"] = s
        if r.random() < self.bad * 2:
            x = r.randrange(4)
            if x == 0:
                kw = {"time": s[0], "start": s[0], "end": s[1]} if r.random() < .5 else {"time": s[0], "end": s[1]}
            elif x == 1:
                kw = {}
            elif x == 2:
                kw = {r.choice(["start", "end"]): s[0]}
            else:
                kw = {"start": s[1] + 1, "end": s[0]} if not self.wide else {"time": s[0], "end": s[1]}
        f = {k2: [rec.tok(kw[k])] if k in kw else [] for k, k2 in (("time", "time"), ("start", "s"), ("end", "e"))}
        return kw, f, s

    def address(self, update=False):
        """which snapshots: (keyword arguments, encoding)"""
        r, rec = self.rng, self.rec
        n = len(self.spans())
        kw = {}
        self.fromend = False
        x = r.random()
        if x < 0.35:
            k = r.randint(0, min(3, n))
            idx = [r.randrange(n) for _ in range(k)] if not update else r.sample(range(n), k)
            if r.random() < 0.15:      # counted from the end
                kw["sbunch"] = [i - n if r.random() < 0.6 else i for i in idx]
                self.fromend = True
                return kw, {"sb": [idx], "b": [], "e": []}
            kw["sbunch"] = idx if r.random() < 0.8 else tuple(idx)
            if idx and r.random() < 0.1:
                kw["sbunch"] = range(min(idx), max(idx) + 1)
                idx = list(kw["sbunch"])
        elif x < 0.9:
            pool = self.times if self.wide else self.times + [self.times[0] - 2, self.times[-1] + 3]
            b, e = sorted((r.choice(pool), r.choice(pool)))
            if r.random() < 0.15 and not self.wide:
                b = b + 0.25
                e = max(b, e)
            if b == e and not (update and r.random() < 0.3):
                if self.wide:
                    b, e = sorted(r.sample(self.times, 2))
                else:
                    e = b + r.choice([1, 2, 0.5])
            if r.random() < 0.05:
                b, e = r.choice([(-INF, e), (b, INF), (-INF, INF)])
            if r.random() < 0.75:
                kw["start"] = b
            if r.random() < 0.75:
                kw["end"] = e
        if r.random() < self.bad and n:
            kw["sbunch"] = [0]
            kw[r.choice(["start", "end"])] = r.choice([0, 1, -1])
        return kw, {"sb": [list(kw["sbunch"])] if "sbunch" in kw else [],
                    "b": [rec.tok(kw["start"])] if "start" in kw else [],
                    "e": [rec.tok(kw["end"])] if "end" in kw else []}

    # ------------------------------------------------------------ mutations
    def do_insert(self):
        a = self.spanargs()
        if a is None:
            return
        kw, f, s = a
        G = self.static()
        f.update({"es": [], "multi": False, "g": [self.rec.graph(G)]})
        op = self.rng.choice(["insert", "add"])
        ev = self.rec.call(op, f, (lambda: self.call("insert", kw, G)) if op == "insert"
                           else (lambda: self.call("add_snapshot", dict(kw, graph=G), None)))
        if not ev["exc"]:
            self.handed.append((G, s))

    def do_add(self):
        a = self.spanargs()
        if a is None:
            return
        kw, f, s = a
        es, enc = self.ebunch(1 if self.text else 0)
        multi = self.dir and self.multi_ok and self.rng.random() < 0.3
        if multi:
            kw["multi"] = True
        f.update({"es": [enc], "multi": multi, "g": []})
        before = repr(es)
        self.rec.call("add", f, lambda: self.call("add_snapshot", kw, es))
        self.foreign(es, before)

    def foreign(self, obj, before):
        r = self.rng
        self.rec.call("foreign", {"before": before, "after": repr(obj)}, lambda: None)
        for x in obj:
            if isinstance(x, tuple) and x and isinstance(x[-1], dict):
                x[-1]["caller"] = 1
        if isinstance(obj, list):
            obj.clear()
        if r.random() < 0.3:
            self.rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def do_add_nodes(self):
        r, rec = self.rng, self.rec
        kw, f = self.address(True)
        a = {} if self.text else self.attrdict(0.4)
        ns, enc = [], []
        for _ in range(r.randint(0, 3)):
            n = self.node()
            d = {} if self.text else self.attrdict(0.3)
            if isinstance(n, tuple) or d:
                ns.append((n, d))
            else:
                ns.append(n)
            enc.append([rec.nid(n), rec.attrs(d)])
        f.update({"ns": enc, "a": rec.attrs(a)})
        if r.random() < 0.2:
            ns = tuple(ns)
        before = repr(ns)
        rec.call("add_nodes", f, lambda: self.call("add_nodes_from", dict(kw, **a), ns))
        self.foreign(ns, before)

    def do_add_edges(self):
        rec = self.rec
        kw, f = self.address(True)
        a = self.attrdict(0.4)
        es, enc = self.ebunch(0, 3)
        f.update({"es": enc, "a": rec.attrs(a)})
        if self.rng.random() < 0.2:
            es = tuple(es)
        before = repr(es)
        rec.call("add_edges", f, lambda: self.call("add_edges_from", dict(kw, **a), es))
        self.foreign(es, before)

    def do_edit(self):
        """a handed over graph is held: changes to it show"""
        r, rec = self.rng, self.rec
        have = self.spans()
        live = [(G, s) for G, s in self.handed if tuple(s) in [tuple(h) for h in have]]
        if not live:
            return
        G, s = r.choice(live)
        if sum(1 for x in live if x[0] is G or x[1] == s) > 1:
            return
        n, u, v, a = self.node(), self.node(), self.node(), self.attrdict(0.5)
        if self.text:
            a.pop("w", None)

        def run():
            G.add_node(n, **a)
            G.add_edge(u, v, **a)
        rec.call("edit", {"span": [rec.tok(s[0]), rec.tok(s[1])], "n": rec.nid(n), "u": rec.nid(u), "v": rec.nid(v),
                          "a": rec.attrs(a)}, run)

    def do_set_attr(self):
        r = self.rng
        if r.random() < 0.5:
            v = r.choice(["new", ""])
            self.rec.call("set_attr", {"a": self.rec.attrs({"name": v})}, lambda: setattr(self.g, "name", v))
        else:
            self.rec.call("set_attr", {"a": self.rec.attrs({"z": 1})}, lambda: self.g.graph.__setitem__("z", 1))

    def call(self, name, kw, *first):
        """call a method with what comes first, then the keyword arguments, some of them by position"""
        where = ["sbunch", "start", "end"]
        order = {"degree": ["sbunch", "nbunch", "start", "end", "weight"], "size": where + ["weight"],
                 "insert": ["start", "end", "time"], "add_snapshot": ["graph", "start", "end", "time"],
                 "has_node": ["n"] + where, "subgraph": ["nbunch"] + where,
                 "compute_network_statistic": ["nx_statistic_function"] + where}.get(name, where)
        args, kw = list(first), dict(kw)
        k = 0 if self.rng.random() < 0.8 else self.rng.randint(1, len(order))
        for a in order[:k]:
            if not any(x in kw for x in order[order.index(a):]):
                break
            args.append(kw.pop(a, None))
        return getattr(self.g, name)(*args, **kw)

    # -------------------------------------------------------------- queries
    def ask(self, op, f, fn, decode, again=True):
        if again and not self.fromend:      # counted from the end, it would be another snapshot later
            self.asked = self.asked[-5:] + [(op, dict(f), fn, decode)]
        self.rec.call(op, f, fn, decode)

    def again(self):
        """ask what was asked before once more, after some change or none"""
        r = self.rng
        asked = r.sample(self.asked, min(len(self.asked), r.randint(1, 3)))
        if r.random() < 0.7:
            getattr(self, "do_" + r.choice(["insert", "add", "add_nodes", "add_edges", "edit"]))()
        for op, f, fn, decode in asked:
            if not f["sb"] or all(i < len(self.spans()) for i in f["sb"][0]):
                self.rec.call(op, dict(f), fn, decode)

    def elsewhere(self):
        """change another graph, and ask it what this one was asked; nothing of that may show in this one"""
        r, rec = self.rng, self.rec
        asked = r.sample(self.asked, min(len(self.asked), 2))
        u, v, s = self.node(), self.node(), sorted(r.sample(self.times, 2))
        mine = rec.g
        rec.g = self.other
        try:
            signal.alarm(rec.limit)
            for step in (lambda: rec.g.add_snapshot([(u, v, {"elsewhere": 1})], start=s[0], end=s[1]),
                         lambda: rec.g.add_nodes_from([u], elsewhere=1),
                         lambda: rec.g.graph.update(elsewhere=1), *(a[2] for a in asked)):
                try:
                    step()
                except Timeout:
                    break
                except Exception:
                    pass
        except Timeout:
            pass
        finally:
            signal.alarm(0)
            rec.g = mine

    def do_get(self):
        kw, f = self.address()
        self.ask("get", f, lambda: self.call("get", kw), lambda x: [self.rec.graph(y) for y in x])

    def do_iter(self):
        self.rec.call("iter", {}, lambda: list(self.g), lambda x: [self.rec.graph(y) for y in x])

    def do_contains(self):
        r = self.rng
        gs = list(self.g.snapshots.values())
        x = r.random()
        if gs and x < 0.5:
            G, want = r.choice(gs), True
        elif gs and x < 0.8:
            G, want = r.choice(gs).copy(), False
        else:
            G, want = r.choice([3, "a", (0, 1), nx.Graph()]), False
        self.rec.call("contains", {"expect": want}, lambda: G in self.g, isbool)

    def simple(self, op, name=None, decode=None, enc=None, **more):
        kw, f = self.address()
        f.update(enc or {})
        kw.update(more)
        self.ask(op, f, lambda: self.call(name or op, kw), decode or (lambda x: [isint(y) for y in x]),
                 f.get("nb", [""])[0] != "one")

    def do_order(self):
        self.simple(self.rng.choice(["order", "number_of_nodes"]))

    def do_size(self):
        w = self.rng.choice([None, "w", "weight"])
        self.simple("size", decode=lambda x: [self.rec.num(y) for y in x], enc={"w": [w] if w else []},
                    **({"weight": w} if w else {}))

    def do_has_node(self):
        n = self.rng.choice(self.nodes + ["nope"])
        self.simple("has_node", decode=lambda x: [isbool(y) for y in x], enc={"n": self.rec.nid(n)}, n=n)

    def do_kind(self):
        self.simple(self.rng.choice(["is_directed", "is_multigraph"]), decode=lambda x: [isbool(y) for y in x])

    def do_degree(self):
        r, rec = self.rng, self.rec
        w = r.choice([None, None, "w", "weight"])
        more = {"weight": w} if w else {}
        x = r.random()
        nb = ["all", []]
        gs = list(self.g.snapshots.values())
        common = [n for n in self.nodes if gs and all(n in G for G in gs)]
        if x < 0.35 and common:
            n = r.choice(common)
            more["nbunch"] = n
            nb = ["one", [rec.nid(n)]]
        elif x < 0.7:
            ns = [self.node() for _ in range(r.randint(0, 3))]
            ns = list(dict.fromkeys(ns))
            more["nbunch"] = ns if r.random() < 0.6 or tuple(ns) in self.nodes else r.choice([tuple, dict.fromkeys])(ns)
            nb = ["some", [rec.nid(n) for n in ns]]

        def decode(x):
            if nb[0] == "one":
                return [[[nb[1][0], rec.num(y)]] for y in x]
            return [[[rec.nid(n), rec.num(d)] for n, d in y] for y in x]
        self.simple("degree", decode=decode, enc={"nb": nb, "w": [w] if w else []}, **more)

    def do_stat(self):
        x = self.rng.choice([0, 5])
        self.simple("stat", name="compute_network_statistic", enc={"x": x},
                    decode=lambda y: [[isint(a), isint(b), isint(c)] for a, b, c in y],
                    nx_statistic_function=lambda G, extra=0: (G.number_of_nodes(), G.number_of_edges(), extra),
                    **({"extra": x} if x else {}))

    def result(self, op, more, extra, decode, shape):
        r = self.rng
        kw, f = self.address()
        f.update(extra)
        f["keep"] = r.random() < 0.5
        box = []

        def run():
            x = self.call(op, dict(kw, **more))
            box.append(x)
            return x
        ev = self.rec.call(op, f, run, decode)
        if ev["exc"] or not ev["shape"]:
            ev["keep"] = False
        elif f["keep"]:
            self.kept_real.append((box[0], decode))
        elif r.random() < 0.5:
            gs, rest = list(shape(box[0])), []
            if len(gs) > 1 and r.random() < 0.5:
                r.shuffle(gs)
                gs, rest = gs[:1], gs[1:]

            def look():
                return repr([(list(G.nodes(data=True)), list(G.edges(data=True)), G.graph) for G in rest])
            before = look()
            for G in gs:
                for n, d in G.nodes(data=True):
                    d["spoiled"] = 1
                for u, v, d in G.edges(data=True):
                    d["spoiled"] = 1
                G.graph["spoiled"] = 1
                spoil_shape(G)
            after = look()
            if op == "subgraph":
                box[0].graph["spoiled"] = 1
                box[0].insert(nx.Graph(), start=-100, end=-99)
            self.rec.call("foreign", {"before": before, "after": after}, lambda: None)

    def do_convert(self):
        op = self.rng.choice(["to_directed", "to_undirected"])
        if op == "to_undirected" and self.text:
            return
        self.result(op, {}, {}, lambda x: [self.rec.graph(y) for y in x], list)

    def do_subgraph(self):
        r = self.rng
        ns = [self.node() for _ in range(self.rng.randint(0, 3))]

        def decode(x):
            if not isinstance(x, dnx.SnapshotGraph):
                raise BadShape("class")
            return self.rec.snapshots(x)
        self.result("subgraph", {"nbunch": r.choice([list, list, tuple, set, dict.fromkeys])(ns)
                    if tuple(ns) not in self.nodes else ns}, {"nb": [self.rec.nid(n) for n in ns]}, decode,
                    lambda x: list(x.snapshots.values()))

    def do_recheck(self):
        if not self.kept_real:
            return
        i = self.rng.randrange(len(self.kept_real))
        real, project = self.kept_real[i]
        self.rec.call("recheck", {"idx": i + 1}, lambda: real, project)

    # ----------------------------------------------------------------- files
    def options(self):
        r = self.rng
        d = r.choice([";", ";", "|", ",", " ; ", "//", "\t"])
        if r.random() < self.bad:
            d = r.choice([" ", "\n"])
        st, en = r.choice([("start", "end"), ("start", "end"), ("begin", "finish"), ("s", "t"), ("FROM", "TO"), ("b", "e")])
        return d, st, en

    def optkw(self, d, st, en):
        r, kw = self.rng, {}
        if d != ";" or r.random() < 0.5:
            kw["delimiter"] = d
        if (st, en) != ("start", "end") or r.random() < 0.3:
            kw["start"], kw["end"] = st, en
        return kw

    def do_save(self):
        rec = self.rec
        if any(len(G) == 0 for G in self.g.snapshots.values()):      # outside the format
            return
        d, st, en = self.options()
        kw = self.optkw(d, st, en)
        f = {"opts": {"delim": codes(d), "comments": codes("#"), "start": codes(st), "end": codes(en), "nums": []},
             "orders": [[rec.nid(n) for n in G] for G in self.g.snapshots.values()], "lines": []}
        old = "" if self.rng.random() < 0.6 else "0 1;1 0 start=-5 end=-4\n" * self.rng.randint(1, 9)
        path = self.files.new(old)      # what the file held before
        try:
            ev = rec.call("save", f, lambda: self.g.save_to_txt(self.files.given(path), **kw))
            text = open(path).read()
            if ev["exc"] == "ValueError":
                rec.call("foreign", {"before": old, "after": text}, lambda: None)
            ev["lines"], ev["opts"]["nums"] = [codes(x) for x in text.split("\n")], rec.nums([text])
            if ev["exc"] == "" and self.rng.random() < 0.7:
                self.load(path, text, d, st, en, "#")
        finally:
            os.remove(path)

    def load(self, path, text, d, st, en, comments):
        rec = self.rec
        kw = self.optkw(d, st, en)
        if comments != "#":
            kw["comments"] = comments
        f = {"opts": {"delim": codes(d), "comments": codes(comments), "start": codes(st), "end": codes(en),
                      "nums": rec.nums([text])},
             "lines": [codes(x) for x in text.split("\n")], "isdir": False}
        box = {"isdir": False}

        def run():
            x = rec.cls.load_from_txt(self.files.given(path), **kw)
            box["isdir"] = isinstance(x, dnx.SnapshotDiGraph)
            if not isinstance(x, dnx.SnapshotGraph):
                raise BadShape("class")
            rec.g = x
            return x
        ev = rec.call("load", f, run, lambda x: 0)
        ev["isdir"] = box["isdir"]
        if not ev["exc"]:
            self.handed, self.kept_real = self.handed[:0], self.kept_real

    def do_load(self):
        """a file written by hand"""
        r = self.rng
        d, st, en = self.options()
        comments = r.choice(["#", "#", "%", "//"]) if d != "//" else "#"
        lines, pos = [], r.choice(self.times)

        def num(x):
            if x == int(x) and abs(x) < 10 ** 15 and r.random() < 0.6:
                return "%d" % x
            return repr(float(x))
        spans = sorted(r.sample(self.times, 2 * r.randint(0, 2))) if self.wide else []
        for _ in range(r.randint(0, self.lines) if not self.wide else len(spans) // 2):
            k = r.randint(1, 4)
            m = [[r.choice([0, 0, 1, 2, 0.5, -1] + self.weights * self.wide) for _ in range(k)] for _ in range(k)]
            if not self.dir:
                m = [[m[min(i, j)][max(i, j)] for j in range(k)] for i in range(k)]
            ln = r.choice([0, 1, 2])
            b, e = num(pos), num(pos + ln)
            pos += ln + r.choice([0, 1]) + (1 if ln == 0 else 0)
            if self.wide:
                b, e = num(spans.pop(0)), num(spans.pop(0))
            if r.random() < self.bad:
                b = r.choice(["x", ""])
            tail = [st + "=" + b, en + "=" + e]
            if r.random() < 0.2:
                tail.reverse()
            line = d.join(" ".join(num(x) for x in row) for row in m) + " " + " ".join(tail)
            if r.random() < 0.2:
                line += r.choice([" ", ""]) + comments + " note 1=2"
            if r.random() < 0.2:
                line = "  " * (d.strip() == d) + line
            lines.append(line)
            if r.random() < 0.25:
                lines.append(r.choice(["", "   ", comments + " remark", " " + comments, "\t"]))
        order = list(lines)
        r.shuffle(order)
        text = "\n".join(order) + r.choice(["", "\n", "\n\n"])
        path = self.files.new(text, False)
        try:
            self.load(path, text, d, st, en, comments)
        finally:
            os.remove(path)

    def run(self, weights, length):
        r = self.rng
        names = list(weights)
        ws = [weights[n] for n in names]
        if r.random() < 0.25:
            self.rec.dark = random.Random(r.random())
        other = r.random() < 0.15 and not self.text
        for _ in range(length):
            if other and r.random() < 0.3:
                self.elsewhere()
            if self.asked and not self.text and r.random() < 0.08:
                self.again()
            else:
                getattr(self, "do_" + r.choices(names, ws)[0])()
        self.rec.light()
        return self.rec.t


def record(rng, st, i):
    d = Driver(rng, rng.random() < 0.5, st.get("text", False), st.get("bad", 0.04), st.get("wide", False))
    if "many" in st:
        d.lines = st["many"]
        d.times = list(range(-20, 4 * st["many"]))
        for _ in range(rng.randint(st["many"] // 2, st["many"])):
            rng.choice([d.do_insert, d.do_add])()
    return d.run(st["weights"], rng.randint(*st["length"]))
