"""Large graphs: thousands of edges put in by one event in a chosen order, thinned by another, queried after each."""
import graphs
from rec import FORCED

ORDERS = ["sorted", "reversed", "zigzag", "middle", "stride", "bits", "random", "pairs", "ends"]


def arrange(rng, ks, order):
    """the edges ks (sorted by time) in a given order"""
    n = len(ks)
    if order == "reversed":
        return ks[::-1]
    if order == "zigzag":                 # first, last, second, last but one, ...
        return [ks[i // 2] if i % 2 == 0 else ks[n - 1 - i // 2] for i in range(n)]
    if order == "middle":
        return [ks[i] for i in sorted(range(n), key=lambda i: abs(i - n // 2))]
    if order == "stride":
        s = rng.choice([2, 3, 7, 31])
        return [ks[i] for j in range(s) for i in range(j, n, s)]
    if order == "bits":
        w = max(1, n.bit_length())
        return [ks[i] for i in sorted(range(n), key=lambda i: int(bin(i)[2:].zfill(w)[::-1], 2))]
    if order == "random":
        return rng.sample(ks, n)
    if order == "pairs":
        return [ks[j] for i in range(0, n, 2) for j in (i + 1, i) if j < n]
    if order == "ends":                   # by the end instead of the begin
        return sorted(ks, key=lambda k: (k[3], -k[2]))
    return ks


class Driver(graphs.Driver):
    def bulk(self, size, shape):
        r = self.rng
        shape = shape or r.choice(["chain", "nested", "same begin", "same end", "mixed", "points", "long and short"])
        ks = {}
        top = self.times[-1]
        for i in range(size):
            u, v = self.node(), self.node()
            lo = r.choice(self.times)
            hi = r.choice([lo, lo + 1, lo + r.randint(0, 30)])
            if shape == "chain":
                lo = self.times[i % len(self.times)]
                hi = lo + 1
            elif shape == "nested":
                lo = self.times[i % (len(self.times) // 2)]
                hi = top - lo
            elif shape == "same begin":
                lo, hi = self.times[3], self.times[i % len(self.times)]
            elif shape == "same end":
                lo, hi = self.times[i % len(self.times)], top
            elif shape == "points":
                hi = lo
            elif shape == "long and short" and r.random() < 0.02:
                lo, hi = r.choice(self.times[:20]), top
            if self.kind == "impulse":
                hi = lo
            lo, hi = min(lo, hi), max(lo, hi)
            k = (u, v, lo, hi)
            if not self.dir and (v, u, lo, hi) in ks:
                continue
            ks[k] = 1
        return sorted(ks, key=lambda k: (k[2], k[3], repr(k)))

    def enc(self, ks):
        rec = self.rec
        return [[rec.nid(u), rec.nid(v), rec.tok(lo), rec.tok(hi)] for u, v, lo, hi in ks]

    def add(self, ks):
        es = [self.ekey(*k) for k in ks]
        one = self.rng.random() < 0.5

        def run():
            if one:
                for e in es:
                    self.g.add_edge(*e)
            else:
                self.g.add_edges_from(es)
        self.rec.call("bulk_add", {"es": self.enc(ks)}, run)

    def remove(self, ks):
        def run():
            for u, v, lo, hi in ks:
                if self.kind == "interval":
                    self.g.remove_edge(u, v, lo, hi, overlapping=False)
                else:
                    self.g.remove_edge(u, v, lo, lo, inclusive=(True, True))
        self.rec.call("bulk_remove", {"es": self.enc(ks)}, run)

    def window(self, none=0.1):
        r = self.rng
        x = r.random()
        if x < 0.15 and not self.narrow:
            return super().window(none)
        b = r.choice(self.times)
        e = b + r.choice([0, 0, 1, 2, 5, 20])
        if x < 0.25 and not self.narrow:
            return (b, None) if b > self.times[-1] * 0.9 else (None, self.times[0] + 2)
        if r.random() < 0.2:
            b, e = b + 0.5, e + 0.5
        return b, e

    narrow = False

    def do_delta(self):
        """the changes over a whole large graph take the specification too long"""
        self.narrow = len(self.real_edges()) > 300
        super().do_delta()
        self.narrow = False

    def run_bulk(self, weights, size, queries, order, shape):
        r = self.rng
        names, ws = list(weights), list(weights.values())

        def ask(n):
            for _ in range(n):
                getattr(self, "do_" + r.choices(names, ws)[0])()
        ks = self.bulk(size, shape)
        self.add(arrange(r, ks, order))
        ask(queries)
        keep = r.choice([0.02, 0.1, 0.5, 0.5, 0.9])
        gone = [k for k in ks if r.random() > keep]
        self.remove(arrange(r, sorted(gone, key=lambda k: (k[2], k[3], repr(k))), r.choice(ORDERS)))
        ask(queries)
        b, e = self.window()
        self.do_remove_node()
        ask(queries // 2)
        if r.random() < 0.5:
            self.add(arrange(r, gone[:len(gone) // 2], r.choice(ORDERS)))
            ask(queries // 2)
        return self.rec.t


    def run_mid(self, weights, size, queries, shape):
        """some dozens or hundreds of edges, then the calls of one property"""
        r = self.rng
        ks = self.bulk(size, shape)
        self.add(arrange(r, ks, r.choice(ORDERS)))
        names, ws = list(weights), list(weights.values())
        for _ in range(queries):
            getattr(self, "do_" + r.choices(names, ws)[0])()
        FORCED[0] = None
        return self.rec.t


def record(rng, st, i):
    # the first traces take every order in turn, at the largest size for the most regular ones
    if st.get("mid"):
        size = rng.choice(st["sizes"])
        times = list(range(0, max(20, int(size * rng.choice([0.1, 0.5, 1, 3])))))
        d = Driver(rng, st["kind"], rng.random() < 0.5, nodes=list(range(rng.choice([4, 12, 40, 150]))), times=times,
                   numeric=True, bad=0.0)
        return d.run_mid(st["weights"], size, st["queries"], st.get("shape"))
    order = ORDERS[i % len(ORDERS)] if i < 3 * len(ORDERS) else rng.choice(ORDERS)
    size = rng.choice(st["sizes"])
    shape, spread = None, rng.choice([0.2, 1, 3])
    if i < 4:
        size, shape, spread = st["sizes"][-1], ["chain", "nested", "points", "same begin"][i], 1
    times = list(range(0, max(40, int(size * spread))))
    d = Driver(rng, st["kind"], rng.random() < 0.5, nodes=list(range(rng.choice([4, 12, 60]))), times=times,
               numeric=True, bad=0.0)
    d.rec.limit = 120
    return d.run_bulk(st["weights"], size, st["queries"], order, shape)
