"""Histories exported by TLC from the small models (GraphModel, IndexModel), replayed on the real classes.

The abstract labels and times of the model become labels and times of a random kind; after the history every
window is queried, and every removal that the model allows is tried on a graph rebuilt for it."""
import json

import graphs
from rec import FORCED, frac, isbool, isint

LINES = {}


def line(path, i):
    if path not in LINES:
        with open(path) as f:
            LINES[path] = f.readlines()
    return json.loads(LINES[path][i])


class Driver(graphs.Driver):
    # ------------------------------------------------------------ arguments
    def n(self, x):
        return self.nodes[x - 1]

    def t(self, x):
        return self.times[x]

    def attr(self, a):
        return {k: self.vals[v] for k, v in a}

    def opt(self, x):
        return self.t(x[0]) if x else None

    only_reversed = False

    def windows(self):
        bs = [None] + self.times
        return [(b, e) for b in bs for e in bs if (b is None or e is None or b <= e) != self.only_reversed]

    def incs(self):
        return [[]] if self.kind == "interval" else [[], [[True, True]], [[True, False]], [[False, True]],
                                                     [[False, False]]]

    def kw(self, b, e, inc):
        kw = {}
        if b is not None:
            kw["begin"] = b
        if e is not None:
            kw["end"] = e
        if inc:
            kw["inclusive"] = tuple(inc[0])
        return kw

    # --------------------------------------------------------------- events
    def step(self, x):
        rec, op = self.rec, x["op"]
        if op == "add_node":
            n, a = self.n(x["n"]), self.attr(x["a"])
            rec.call(op, {"n": rec.nid(n), "a": rec.attrs(a)}, lambda: self.g.add_node(n, **a))
        elif op == "add_edge":
            k = self.ekey(self.n(x["u"]), self.n(x["v"]), self.t(x["lo"]), self.t(x["hi"]))
            a = self.attr(x["a"])
            rec.call(op, {"u": rec.nid(k[0]), "v": rec.nid(k[1]), "lo": rec.tok(self.t(x["lo"])),
                          "hi": rec.tok(self.t(x["hi"])), "a": rec.attrs(a)}, lambda: self.g.add_edge(*k, **a))
        else:
            b, e = self.opt(x["b"]), self.opt(x["e"])
            inc = [] if self.kind == "interval" else [x["inc"]]
            f = self.w(b, e, inc)
            kw = self.kw(b, e, inc)
            if op == "remove_node":
                n = self.n(x["n"])
                f["n"] = rec.nid(n)
                rec.call(op, f, lambda: self.g.remove_node(n, **kw))
            else:
                u, v = self.n(x["u"]), self.n(x["v"])
                f.update({"u": rec.nid(u), "v": rec.nid(v), "exact": x["exact"]})
                if x["exact"]:
                    f["inc"] = []
                    kw["overlapping"] = False
                rec.call(op, f, lambda: self.g.remove_edge(u, v, **kw))

    def reset(self):
        def run():
            self.rec.g = self.rec.cls()
            self.model = False
        self.rec.call("reset", {}, run)

    # -------------------------------------------------------------- queries
    def questions(self, op):
        """every question of one sort, as functions that ask it"""
        ws, incs = self.windows(), self.incs()
        ns = self.nodes
        if op == "edges":
            return [lambda us=us, vs=vs, b=b, e=e, i=i: self.q_edges(us, vs, b, e, i)
                    for us in [None] + [[n] for n in ns] + [ns[:2]] for vs in [None] + [[n] for n in ns] + [ns[1:]]
                    for b, e in ws for i in incs]
        if op == "all_edges":
            return [lambda b=b, e=e, i=i: self.q_edges(None, None, b, e, i) for b, e in ws for i in incs]
        if op == "has_edge":
            out = [lambda u=u, v=v, b=b, e=e, i=i: self.q_has_edge(u, v, b, e, i, False)
                   for u in ns for v in ns for b, e in ws for i in incs]
            if self.kind == "interval":
                out += [lambda u=u, v=v, b=b, e=e: self.q_has_edge(u, v, b, e, [], True)
                        for u in ns for v in ns for b, e in ws if b is not None and e is not None]
            return out
        if op == "has_node":
            return [lambda n=n, b=b, e=e, i=i: self.q_has_node(n, b, e, i) for n in ns for b, e in ws for i in incs]
        if op in ("nodes", "number_of_nodes"):
            return [lambda b=b, e=e, i=i, op=op: self.q_nodes(op, b, e, i) for b, e in ws for i in incs]
        dirs = ["", "in", "out"] if self.dir else [""]
        if op == "degree":
            return [lambda n=n, d=d, b=b, e=e, i=i: self.q_degree(n, d, b, e, i)
                    for n in [None] + list(ns) for d in dirs for b, e in ws for i in incs]
        if op == "delta":
            return [lambda n=n, d=d, b=b, e=e, i=i: self.q_delta(n, d, b, e, i)
                    for n in ns for d in dirs for b, e in ws for i in incs]
        if op == "stamps":
            if self.kind != "interval":
                return [self.do_interval]
            return [self.do_interval] + [lambda w=w, b=b, e=e, i=i: self.q_stamps(w, b, e, i)
                                         for w in ("all", "begin", "end") for b, e in ws
                                         for i in [[], [[True, False]], [[False, True]], [[False, False]]]]
        if op == "to_subgraph":
            return [lambda b=b, e=e, i=i, m=m: self.q_subgraph(b, e, i, m) for b, e in ws for i in incs
                    for m in (True, False)]
        if op == "to_snapshot_graph":
            return [self.do_to_snapshot_graph] * 2
        if op == "to_snapshots":
            return [self.do_to_snapshots] * 4
        if op == "nodes_data":
            return [self.do_nodes] * 3 + [self.do_contains] * 2
        if op == "products":
            one = [self.do_to_subgraph, self.do_to_snapshots, self.do_to_snapshot_graph]
            some = [self.rng.choice(one) for _ in range(4)]
            return [lambda: [f() for f in some + [self.do_add_edge, self.do_recheck, self.do_set_attr, self.do_recheck,
                                                  self.do_edges, self.do_recheck]]]
        if op == "refused":
            return [self.do_to_snapshots] * 2 + [self.do_add_edge] * 3 + [self.do_add_edges] * 2
        raise ValueError(op)

    def q_edges(self, us, vs, b, e, inc):
        rec = self.rec
        kw, f = self.kw(b, e, inc), self.w(b, e, inc)
        f.update({"us": [], "vs": [], "data": "F", "key": rec.key(""), "def": rec.val(None)})
        for k, x, key in (("u", us, "us"), ("v", vs, "vs")):
            if x is not None:
                f[key] = [[rec.nid(y) for y in x]]
                kw[k] = x[0] if len(x) == 1 and self.known(x[0]) else x
        rec.call("edges", f, lambda: self.g.edges(**kw), lambda r: [rec.edge(x) for x in r])

    def q_has_edge(self, u, v, b, e, inc, exact):
        kw, f = self.kw(b, e, inc), self.w(b, e, inc)
        f.update({"u": self.rec.nid(u), "v": self.rec.nid(v), "exact": exact})
        if exact:
            kw["overlapping"] = False
        self.rec.call("has_edge", f, lambda: self.g.has_edge(u, v, **kw), isbool)

    def q_has_node(self, n, b, e, inc):
        f = self.w(b, e, inc)
        f["n"] = self.rec.nid(n)
        self.rec.call("has_node", f, lambda: self.g.has_node(n, **self.kw(b, e, inc)), isbool)

    def q_nodes(self, op, b, e, inc):
        rec = self.rec
        f, kw = self.w(b, e, inc), self.kw(b, e, inc)
        if op == "number_of_nodes":
            return rec.call(op, f, lambda: self.g.number_of_nodes(**kw), isint)
        f.update({"data": "F", "key": rec.key(""), "def": rec.val(None)})
        rec.call(op, f, lambda: self.g.nodes(**kw), lambda res: [[rec.nid(x)] for x in res])

    def q_degree(self, n, d, b, e, inc):
        f, kw = self.w(b, e, inc), self.kw(b, e, inc)
        f.update({"n": [] if n is None else [self.rec.nid(n)], "dir": d})
        if n is not None:
            kw["node"] = n
        name = {"": "degree", "in": "in_degree", "out": "out_degree"}[d]
        self.rec.call("degree", f, lambda: getattr(self.g, name)(**kw), frac)

    def q_delta(self, n, d, b, e, inc):
        rec = self.rec
        f, kw = self.w(b, e, inc), self.kw(b, e, inc)
        f.update({"n": [rec.nid(n)], "dir": d})
        name = {"": "degree", "in": "in_degree", "out": "out_degree"}[d]
        rec.call("delta", f, lambda: getattr(self.g, name)(node=n, delta=True, **kw),
                 lambda res: [[rec.tok(t), isint(c)] for t, c in res])

    def q_stamps(self, which, b, e, inc):
        rec = self.rec
        name = {"all": "unique_timestamps", "begin": "unique_begin_timestamps", "end": "unique_end_timestamps"}[which]
        f = self.w(b, e, inc or [[True, True]])
        f["which"] = which
        rec.call("stamps", f, lambda: getattr(self.g, name)(**self.kw(b, e, inc)),
                 lambda res: [rec.tok(t) for t in list(res)])

    def q_subgraph(self, b, e, inc, multi):
        rec, r = self.rec, self.rng
        ed, td, nd = (r.random() < 0.5 for _ in range(3))
        f, kw = self.w(b, e, inc), self.kw(b, e, inc)
        kw["begin"], kw["end"] = b, e
        f.update({"multi": multi, "ed": ed, "td": td, "nd": nd, "keep": False})
        kw.update({"multigraph": multi, "edge_data": ed, "node_data": nd,
                   ("edge_interval_data" if self.kind == "interval" else "edge_timestamp_data"): td})
        rec.call("to_subgraph", f, lambda: self.g.to_subgraph(**kw), rec.static)

    def sweep(self, plan):
        for op, most in plan.items():
            qs = self.questions(op)
            for q in qs if len(qs) <= most else self.rng.sample(qs, most):
                self.force()
                q()

    # ------------------------------------------------------------- replaying
    def held(self):
        return [tuple(e) for e in self.safe_edges()]

    def run_graph(self, x, tries, st):
        r, rec = self.rng, self.rec
        self.vals = {v: r.choice([0, 1, "", "red", None, 2.5]) for v in (1, 2)}
        for s in x["hist"]:
            self.step(s)
        if st.get("train"):
            self.do_train()
        if st.get("reversed"):
            self.only_reversed, self.bad = True, 0.6
        self.sweep(st["sweep"])
        if st.get("reversed"):
            # removals whose window ends before it begins
            for _ in range(4):
                b, e = r.choice([(b, e) for b, e in self.windows() if b is not None])
                u, v = r.choice(self.nodes), r.choice(self.nodes)
                f, kw = self.w(b, e, []), self.kw(b, e, [])
                if r.random() < 0.5:
                    f["n"] = rec.nid(u)
                    rec.call("remove_node", f, lambda: self.g.remove_node(u, **kw))
                else:
                    f.update({"u": rec.nid(u), "v": rec.nid(v), "exact": False})
                    rec.call("remove_edge", f, lambda: self.g.remove_edge(u, v, **kw))
        if tries and st.get("tries"):
            adds = [s for s in x["hist"] if s["op"] in ("add_edge", "add_node")]
            for y in r.sample(tries, min(st["tries"], len(tries))):
                self.reset()
                order = list(adds)
                r.shuffle(order)
                for s in order:
                    self.step(s)
                if st.get("train"):
                    self.do_train()
                    self.force()
                self.step(y)
                self.sweep(st.get("after", {}))
        return self.rec.t

    def run_index(self, x, st):
        r, rec = self.rng, self.rec
        ops = x["ops"]
        i = 0
        while i < len(ops):
            j = i
            while j < len(ops) and ops[j][0] == ops[i][0]:
                j += 1
            ks = [(r.choice(self.nodes), r.choice(self.nodes), self.t(o[1]), self.t(o[2])) for o in ops[i:j]]
            if ops[i][0] == "put":
                # sometimes two edges share an interval
                ks += [(self.nodes[0], self.nodes[1], k[2], k[3]) for k in ks if r.random() < 0.1]
                done = []
                for k in ks:
                    if k not in done and (k[1], k[0]) + k[2:] not in done:
                        done.append(k)
                es = [self.ekey(*k) for k in done]
                rec.call("bulk_add", {"es": [[rec.nid(k[0]), rec.nid(k[1]), rec.tok(k[2]), rec.tok(k[3])]
                                             for k in done]},
                         lambda es=es: [self.g.add_edge(*e) for e in es])
            else:
                gone = {(o[1], o[2]) for o in ops[i:j]}
                order = [(o[1], o[2]) for o in ops[i:j]]
                ks = sorted((e for e in self.held() if (self.times.index(e[2]), self.times.index(e[3])) in gone),
                            key=lambda e: order.index((self.times.index(e[2]), self.times.index(e[3]))))
                rec.call("bulk_remove", {"es": [[rec.nid(k[0]), rec.nid(k[1]), rec.tok(k[2]), rec.tok(k[3])]
                                                for k in ks]},
                         lambda ks=ks: [self.g.remove_edge(*k, overlapping=False) for k in ks])
            i = j
        self.sweep(st["sweep"])
        return rec.t


def record(rng, st, i):
    FORCED[0] = None
    x = line(st["file"], st["pick"][i])
    first = line(st["file"], 0)
    kind, directed = first["kind"], first["dir"] or ("ops" in x and rng.random() < 0.5)
    nn, nt = first["nodes"], first["times"]
    while True:
        nodes = rng.choice(graphs.NODE_DOMAINS)
        # a tuple or set that is no node would be read as several nodes
        if len(nodes) >= nn and not any(isinstance(n, (tuple, frozenset)) for n in nodes):
            break
    nodes = rng.sample(nodes, nn)
    while True:
        vals, dom = graphs.time_domains(rng)
        if len(vals) >= nt and (dom is None or not st.get("numeric")):
            break
    at = sorted(rng.sample(range(len(vals)), nt))
    vals = [vals[j] for j in at]
    d = Driver(rng, kind, directed, nodes=nodes, numeric=True, bad=0.0, times=vals)
    if dom == "wide":
        d.rec.wide(vals)
    elif dom is not None:
        d.rec.domain = vals
    d.numeric = dom is None
    if "ops" in x:
        return d.run_index(x, st)
    return d.run_graph(x, first["tries"], st)
