"""Histories exported by TLC from SnapModel, replayed on the real snapshot graph classes.

After the history every window is retrieved; every update the model allows is tried on a graph rebuilt for it."""
import snaps
from rec import isbool, isint
from script import line


class Driver(snaps.Driver):
    def prepare(self, nt):
        r = self.rng
        self.times = sorted(r.sample(self.times, nt))
        self.labels = r.sample(self.nodes, 3)
        self.value = r.choice([1, 2.5, -3])

    def attrs(self, a):
        return {k: self.value for k, _ in a}

    def ns(self, ns):
        """nodes with attributes: (argument, encoding)"""
        real = [(self.labels[n - 1], self.attrs(a)) for n, a in ns]
        return real, [[self.rec.nid(n), self.rec.attrs(d)] for n, d in real]

    def es(self, es):
        real = [(self.labels[u - 1], self.labels[v - 1], self.attrs(a)) for u, v, a in es]
        real = [x if x[2] or self.rng.random() < 0.5 else x[:2] for x in real]
        return real, [[self.rec.nid(x[0]), self.rec.nid(x[1]), self.rec.attrs(x[2] if len(x) > 2 else {})]
                      for x in real]

    def at(self, x):
        kw = {}
        if x["sb"]:
            kw["sbunch"] = list(x["sb"][0])
        if x["b"]:
            kw["start"] = self.times[x["b"][0]]
        if x["e"]:
            kw["end"] = self.times[x["e"][0]]
        return kw, {"sb": x["sb"], "b": [self.rec.tok(kw["start"])] if x["b"] else [],
                    "e": [self.rec.tok(kw["end"])] if x["e"] else []}

    def step(self, x):
        rec, op = self.rec, x["op"]
        if op == "add":
            s, e = self.times[x["s"]], self.times[x["e"]]
            es, enc = self.es(x["es"])
            kw = {"time": s} if s == e and self.rng.random() < 0.5 else {"start": s, "end": e}
            f = {k2: [rec.tok(kw[k])] if k in kw else [] for k, k2 in (("time", "time"), ("start", "s"), ("end", "e"))}
            f.update({"es": [enc], "multi": False, "g": []})
            rec.call("add", f, lambda: self.g.add_snapshot(es, **kw))
            return
        kw, f = self.at(x["at"])
        arg, enc = self.ns(x["ns"]) if op == "add_nodes" else self.es(x["es"])
        f.update({"ns" if op == "add_nodes" else "es": enc, "a": []})
        rec.call(op, f, lambda: getattr(self.g, op + "_from")(arg, **kw))

    def reset(self):
        def run():
            self.rec.g = self.rec.cls()
        self.rec.call("reset", {}, run)

    def addresses(self):
        n = len(self.spans())
        ts = [[]] + [[i] for i in range(len(self.times))]
        out = [{"sb": [], "b": b, "e": e} for b in ts for e in ts if not b or not e or b < e]
        return out + [{"sb": [[i]], "b": [], "e": []} for i in range(n)] + [{"sb": [list(range(n))[::-1]], "b": [],
                                                                            "e": []}]

    def ask(self, most):
        r, rec = self.rng, self.rec
        ats = self.addresses()
        for x in ats if len(ats) <= most else r.sample(ats, most):
            kw, f = self.at(x)
            op = r.choice(["get", "get", "get", "order", "has_node", "subgraph"])
            if op == "get":
                rec.call(op, f, lambda: self.g.get(**kw), lambda y: [rec.graph(z) for z in y])
            elif op == "order":
                rec.call(op, f, lambda: self.g.order(**kw), lambda y: [isint(z) for z in y])
            elif op == "has_node":
                n = r.choice(self.labels)
                f["n"] = rec.nid(n)
                rec.call(op, f, lambda: self.g.has_node(n, **kw), lambda y: [isbool(z) for z in y])
            else:
                ns = r.sample(self.labels, r.randint(0, 3))
                f.update({"nb": [rec.nid(n) for n in ns], "keep": False})
                rec.call(op, f, lambda: self.g.subgraph(ns, **kw), lambda y: rec.snapshots(y))

    def run_script(self, x, tries, st):
        r = self.rng
        for s in x["hist"]:
            self.step(s)
        self.ask(st.get("ask", 0))
        if tries and st.get("tries") and x["hist"]:
            n = len(self.spans())
            fit = [t for t in tries if not t["at"]["sb"] or max(t["at"]["sb"][0]) < n]
            for t in r.sample(fit, min(len(fit), st["tries"])):
                self.reset()
                for s in x["hist"]:
                    self.step(s)
                self.step(t)
        return self.rec.t


def record(rng, st, i):
    x = line(st["file"], st["pick"][i])
    first = line(st["file"], 0)
    d = Driver(rng, first["dir"], bad=0.0)
    d.prepare(first["times"])
    return d.run_script(x, first["tries"], st)
