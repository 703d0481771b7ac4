"""Random histories of the edge-based graph classes, recorded as traces."""
import copy
import datetime
import decimal
import fractions
import os
import random
import signal
import tempfile

from rec import (BadShape, FORCED, Files, Rec, SCALE, Thing, Timeout, another, codes, dnx, frac, isbool, isint, nx)

NODE_DOMAINS = [
    [0, 1, 2, 3],
    [0, 1, 2],
    [1, 2, 3, 4, 5],
    ["a", "b", "c", "dd"],
    ["ab", "a", "b", ""],
    [0, "a", "b", 2.5],
    [("x", 1), ("x", 2), ("y", 1), "x"],
    [(0, 1), 0, 1, 2],
    [-1, 0, 1, 10 ** 6],
    [frozenset([1]), "q", 3],
    [Thing(1), Thing(2), "thing", 3],
]
INF = float("inf")
KEYS = ["w", "color", "x y", "0"]
VALUES = [0, 1, 2.5, "", "red", None, False, (1, 2)]
UNKNOWN_NODES = [77, "zz"]
# numbers of many digits, very close together or far apart; only compared, never computed with
# (see Rec.wide: what is not beyond 16ths must be nearer to 0 than the rest)
WIDE_TIMES = [[1600000000, 1600000001, 1600000001.5, 1600003600, 1700000000], [0, 0.1, 0.2, 0.1 + 0.2, 0.3, 1 / 3],
              [2 ** 53, 2 ** 53 + 2, 2 ** 60, 10 ** 18, 0], [1e-9, 2e-9, 1e-300, 0, 0.7], [-1e+20, -0.7, -0.1, 0, 0.1],
              [1600000000000, 1600000000001, 1600000000002, 1600000000003], [-1700000000.25, -1600000000, 0, 0.1],
              [-INF, -3, 0, 2, 2.5, INF], [0, 1, 2, INF]]


def time_domains(rng):
    """(values, ordered domain or None when numeric)"""
    r = rng.random()
    if r < 0.35:
        return list(range(-2, 5)), None
    if r < 0.5:
        return [0, 1, 2], None
    if r < 0.65:
        return [x / 4 for x in range(-6, 10)], None
    if r < 0.8:
        return list(range(0, 60, 3)), None
    if r < 0.88:
        d = ["", "a", "aa", "b", "c", "d"]
        return d, d
    if r < 0.92:
        return sorted(rng.choice(WIDE_TIMES)), "wide"
    if r < 0.95:
        d = [datetime.date(2020, 1, 1) + datetime.timedelta(days=i) for i in range(6)]
        return d, d
    if r < 0.97:
        d = [fractions.Fraction(i, 7) for i in range(-3, 4)] if rng.random() < 0.5 else \
            [decimal.Decimal(i) / 10 for i in range(-1, 5)]
        return d, d
    return [-1000, -3, 0, 0.5, 7, 1000, 5000], None


class Driver:
    codemode = False
    KEYS, VALUES = KEYS, VALUES
    NODE_DOMAINS = NODE_DOMAINS
    GRAPH_ATTRS = True
    size = 1          # how many times larger than usual the graphs to build from are

    def __init__(self, rng, kind, directed, numeric=False, zero_len=0.12, nodes=None, times=None, bad=0.04):
        self.rng = rng
        self.bad = bad
        self.kind, self.dir = kind, directed
        self.nodes = nodes if nodes is not None else rng.choice(self.NODE_DOMAINS)
        while True:
            vals, dom = time_domains(rng)
            if dom is None or not numeric:
                break
        if times is not None:
            vals, dom = times, None
        self.times, self.numeric = vals, dom is None
        wide, dom = dom == "wide", None if dom == "wide" else dom
        attr = {}
        if rng.random() < 0.5:
            attr["name"] = rng.choice(["G", "", "graph"])
        if rng.random() < 0.5:
            attr["k"] = rng.choice([1, "v"])
        self.rec = Rec(kind, directed, [] if self.codemode else self.nodes, dom, attr, codemode=self.codemode)
        if wide:
            self.rec.wide(vals)
        if self.codemode:
            for n in self.nodes:
                self.rec.label(n)
        self.zero_len = zero_len
        self.added = []
        self.containers = []
        self.kept_real = []
        self.model = False
        self.files = Files(rng)

    @property
    def g(self):
        return self.rec.g

    # ------------------------------------------------------------- choices
    def node(self, unknown=0.0):
        if self.rng.random() < unknown:
            return self.rng.choice(UNKNOWN_NODES)
        n = self.rng.choice(self.nodes)
        if type(n) is int and not self.codemode and self.rng.random() < 0.02:
            return float(n)          # an equal label
        return another(n) if self.rng.random() < 0.2 else n

    def known(self, n):
        return n in self.g

    def attrdict(self, p=0.6):
        r = self.rng
        if r.random() > p:
            return {}
        return {k: r.choice(self.VALUES) for k in r.sample(self.KEYS, r.randint(1, 2))}

    def span(self):
        r = self.rng
        if self.kind == "impulse":
            t = self.same(r.choice(self.times))
            return t, t
        i, j = sorted((r.randrange(len(self.times)), r.randrange(len(self.times))))
        if i == j and r.random() > self.zero_len:
            if j + 1 < len(self.times):
                j += 1
            elif i > 0:
                i -= 1
        return self.same(self.times[i]), self.same(self.times[j])

    def same(self, t):
        """the same number, of the other type now and then"""
        if self.rng.random() < 0.1:
            return another(t)
        if self.codemode or not self.numeric or self.rng.random() > 0.05 or t != int(t):
            return t
        return float(t) if isinstance(t, int) else int(t)

    def window(self, none=0.25):
        r = self.rng
        reversed_ = self.bad
        if r.random() < 0.1:
            return None, None
        b = None if r.random() < none else r.choice(self.times)
        e = None if r.random() < none else r.choice(self.times)
        if b is not None and e is not None and b > e and r.random() > reversed_:
            b, e = e, b
        if self.numeric and r.random() < 0.08 and b is not None and e is not None:
            d = r.choice([0.25, 0.5])
            b, e = b - d, e + d
        b, e = b if b is None else self.same(b), e if e is None else self.same(e)
        if self.numeric and r.random() < 0.06 and (b is None or e is None or b <= e):
            b, e = r.choice([(-INF, e), (b, INF), (-INF, INF)])
        return b, e

    def inc(self):
        r = self.rng
        if self.kind == "interval" or r.random() < 0.4:
            return []
        return [[r.random() < 0.5, r.random() < 0.5]]

    def nodearg(self, none=0.4):
        """(python argument, encoding) for u= / v= of edges()"""
        r, rec = self.rng, self.rec
        x = r.random()
        if x < none:
            return None, []
        if x < none + 0.3:
            n = self.node(0.1)
            if isinstance(n, (tuple, frozenset)) and not self.known(n):
                return [n], [[rec.nid(n)]]
            return n, [[rec.nid(n)]]
        k = r.randint(0, 3)
        ns = [self.node(0.1) for _ in range(k)]
        enc = [[rec.nid(n) for n in ns]]
        c = r.random()
        if c < 0.6:
            return ns, enc
        if c < 0.8:
            t = tuple(ns)
            if self.known(t):
                return ns, enc
            return t, enc
        if c < 0.92 or self.known(frozenset(ns)):
            return set(ns), enc
        return (frozenset(ns) if r.random() < 0.5 else dict.fromkeys(ns)), enc

    def w(self, b, e, inc=None):
        f = {"b": self.rec.bound(b), "e": self.rec.bound(e), "inc": [] if inc is None else inc}
        return f

    def wk(self, b, e, inc):
        """keyword arguments of a window: sometimes leaves out what is None"""
        kw = {}
        if b is not None or self.rng.random() < 0.3:
            kw["begin"] = b
        if e is not None or self.rng.random() < 0.3:
            kw["end"] = e
        if inc:
            kw["inclusive"] = tuple(inc[0])
        return kw

    def call(self, name, kw, *first):
        """call a method with what comes first, then the keyword arguments, some of them by position"""
        inc = ["inclusive"] * (self.kind == "impulse")
        exact = ["overlapping"] * (self.kind == "interval")
        order = {"edges": ["u", "v", "begin", "end"] + inc + ["data", "default"], "nodes": ["begin", "end"] + inc + ["data", "default"],
                 "has_edge": ["begin", "end"] + inc + exact, "remove_edge": ["begin", "end"] + inc + exact,
                 "degree": ["node", "begin", "end", "delta"] + inc}.get(
                     name.replace("in_", "").replace("out_", ""), ["begin", "end", "inclusive"])
        args, kw = list(first), dict(kw)
        k = 0 if self.rng.random() < 0.8 else self.rng.randint(1, len(order))
        for a in order[:k]:
            if not any(x in kw for x in order[order.index(a):]) or (a == "inclusive" and a not in kw):
                break
            args.append(kw.pop(a, {"data": False, "delta": False, "overlapping": True}.get(a)))
        return getattr(self.g, name)(*args, **kw)

    # ----------------------------------------------------------- mutations
    def do_add_node(self):
        n, a = self.node(), self.attrdict()
        self.rec.call("add_node", {"n": self.rec.nid(n), "a": self.rec.attrs(a)}, lambda: self.g.add_node(n, **a))

    def do_add_nodes(self):
        r = self.rng
        a = self.attrdict(0.4)
        ns, enc = [], []
        for _ in range(r.randint(0, 3)):
            n = self.node()
            d = self.attrdict(0.5)
            if d or r.random() < 0.2:
                ns.append((n, d))
            else:
                ns.append(n)
            enc.append([self.rec.nid(n), self.rec.attrs(d)])
        before = repr(ns)
        self.rec.call("add_nodes", {"ns": enc, "a": self.rec.attrs(a)}, lambda: self.g.add_nodes_from(ns, **a))
        self.foreign(ns, before)

    def ekey(self, u, v, lo, hi):
        return (u, v, lo, hi) if self.kind == "interval" else (u, v, lo)

    def do_add_edge(self):
        r = self.rng
        u, v = self.node(), self.node()
        lo, hi = self.span()
        if r.random() < 0.25:
            es = self.safe_edges()
            if es:
                e = r.choice(es)
                u, v, lo = e[0], e[1], e[2]
                hi = e[3] if self.kind == "interval" else lo
                if r.random() < 0.5:
                    u, v = v, u
        if self.kind == "interval" and lo != hi and r.random() < self.bad:
            lo, hi = hi, lo
        a = self.attrdict()
        k = self.ekey(u, v, lo, hi)
        self.added.append(k)
        self.rec.call("add_edge", {"u": self.rec.nid(u), "v": self.rec.nid(v), "lo": self.rec.tok(lo),
                                   "hi": self.rec.tok(hi), "a": self.rec.attrs(a)},
                      lambda: self.g.add_edge(*k, **a))

    def do_add_edges(self):
        r = self.rng
        es, enc = [], []
        for _ in range(r.randint(0, 4)):
            u, v = self.node(), self.node()
            lo, hi = self.span()
            if self.kind == "interval" and lo != hi and r.random() < self.bad:
                lo, hi = hi, lo
            es.append(self.ekey(u, v, lo, hi))
            enc.append([self.rec.nid(u), self.rec.nid(v), self.rec.tok(lo), self.rec.tok(hi)])
        if es and r.random() < 2 * self.bad:
            i = r.randrange(len(es))
            es[i] = es[i][:-1] if r.random() < 0.6 else es[i] + (1,)
            enc[i] = enc[i][:3]
        a = self.attrdict(0.5)
        self.added += [e for e in es if len(e) == len(self.ekey(0, 0, 0, 0))]
        arg = es if r.random() < 0.7 else tuple(es)
        before = repr(arg)
        self.rec.call("add_edges", {"es": enc, "a": self.rec.attrs(a)}, lambda: self.g.add_edges_from(arg, **a))
        self.foreign(arg, before)

    def foreign(self, obj, before):
        if self.rng.random() < 0.3:
            self.rec.call("foreign", {"before": before, "after": repr(obj)}, lambda: None)
        # the caller goes on using what was passed in
        if isinstance(obj, list):
            for x in obj:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                    x[1]["caller"] = "changed"
            obj.clear()
        if self.rng.random() < 0.3:
            self.rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def safe_edges(self):
        if self.rec.dark and self.added:      # without asking the graph
            return self.added[-20:]
        return self.real_edges()

    def real_edges(self):
        try:
            return list(self.g.edges())
        except Exception:
            return []

    def pair(self):
        r = self.rng
        es = self.safe_edges()
        if es and r.random() < 0.7:
            e = r.choice(es)
            u, v = e[0], e[1]
            if r.random() < 0.3:
                u, v = v, u
            return u, v, e
        return self.node(0.1), self.node(0.1), None

    def pairwindow(self, op):
        r = self.rng
        u, v, e = self.pair()
        exact = self.kind == "interval" and r.random() < 0.25
        b, en = self.window()
        if exact and e is not None and r.random() < 0.7:
            b, en = e[2], e[3]
        elif exact:
            if r.random() > max(0.2, self.bad):
                b, en = self.span()
        elif e is not None and r.random() < 0.25:
            b, en = (e[2], e[3]) if self.kind == "interval" else (e[2], e[2])
        inc = self.inc() if not exact else []
        kw = self.wk(b, en, inc)
        if exact:
            kw["overlapping"] = False
        f = self.w(b, en, inc)
        f.update({"u": self.rec.nid(u), "v": self.rec.nid(v), "exact": exact})
        return u, v, kw, f

    def do_remove_edge(self):
        u, v, kw, f = self.pairwindow("remove_edge")
        self.rec.call("remove_edge", f, lambda: self.call("remove_edge", kw, u, v))

    def do_remove_node(self):
        n = self.node(0.05)
        b, e = self.window() if self.rng.random() < 0.7 else (None, None)
        inc = self.inc()
        kw = self.wk(b, e, inc)
        f = self.w(b, e, inc)
        f["n"] = self.rec.nid(n)
        self.rec.call("remove_node", f, lambda: self.call("remove_node", kw, n))

    def do_set_attr(self):
        r = self.rng
        if r.random() < 0.5:
            v = r.choice(["new", "", "other"])
            self.rec.call("set_attr", {"a": self.rec.attrs({"name": v})}, lambda: setattr(self.g, "name", v))
        else:
            k, v = r.choice(["k", "z"]), r.choice([1, "v", None])
            self.rec.call("set_attr", {"a": self.rec.attrs({k: v})}, lambda: self.g.graph.__setitem__(k, v))

    def do_train(self):
        if not self.numeric or (not self.real_edges() and self.rng.random() < 0.7):
            return
        FORCED[0] = None
        size = self.rng.choice([3, 7])
        random.seed(self.rng.randrange(10 ** 6))
        self.rec.call("train", {}, lambda: self.g.generate_predictive_model(training_size=size))
        self.model = True

    # -------------------------------------------------------------- queries
    def force(self):
        FORCED[0] = self.rng.choice(["node", "interval"]) if self.model else None

    def do_edges(self):
        r, rec = self.rng, self.rec
        u, us = self.nodearg()
        v, vs = self.nodearg(0.6)
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        if u is not None:
            kw["u"] = u
        if v is not None:
            kw["v"] = v
        x = r.random()
        data, key, dflt = "F", "", None
        if x < 0.25:
            data = "T"
            kw["data"] = True
        elif x < 0.4:
            data, key = "K", r.choice(self.KEYS)
            kw["data"] = key
            if r.random() < 0.6:
                dflt = r.choice([0, "none", None])
                kw["default"] = dflt
        f = self.w(b, e, inc)
        f.update({"us": us, "vs": vs, "data": data, "key": rec.key(key), "def": rec.val(dflt)})

        def decode(res):
            if not isinstance(res, list):
                raise BadShape("list")
            if data == "F":
                return [rec.edge(x) for x in res]
            if data == "T":
                return [rec.edge(x) + [rec.attrs(d)] for x, d in res]
            return [rec.edge(x) + [rec.val(y)] for x, y in res]
        self.force()
        rec.call("edges", f, lambda: self.call("edges", kw), decode)

    def do_has_edge(self):
        u, v, kw, f = self.pairwindow("has_edge")
        self.force()
        self.rec.call("has_edge", f, lambda: self.call("has_edge", kw, u, v), isbool)

    def do_nodes(self):
        r, rec = self.rng, self.rec
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        x = r.random()
        data, key, dflt = "F", "", None
        if x < 0.4:
            data = "T"
            kw["data"] = True
        elif x < 0.7:
            data, key = "K", r.choice(self.KEYS)
            kw["data"] = key
            if r.random() < 0.6:
                dflt = r.choice([0, "none"])
                kw["default"] = dflt
        f = self.w(b, e, inc)
        f.update({"data": data, "key": rec.key(key), "def": rec.val(dflt)})

        def decode(res):
            if data == "F":
                return [[rec.nid(x)] for x in res]
            if data == "T":
                return [[rec.nid(x), rec.attrs(d)] for x, d in res]
            return [[rec.nid(x), rec.val(y)] for x, y in res]
        rec.call("nodes", f, lambda: self.call("nodes", kw), decode)

    def do_has_node(self):
        n = self.node(0.1)
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        f = self.w(b, e, inc)
        f["n"] = self.rec.nid(n)
        self.rec.call("has_node", f, lambda: self.call("has_node", kw, n), isbool)

    def do_number_of_nodes(self):
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        self.rec.call("number_of_nodes", self.w(b, e, inc), lambda: self.call("number_of_nodes", kw), isint)

    def do_contains(self):
        n = self.node(0.2)
        self.rec.call("contains", {"n": self.rec.nid(n)}, lambda: n in self.g, isbool)

    def degree_call(self):
        r = self.rng
        d = r.choice(["", "in", "out"]) if self.dir else ""
        return d, {"": "degree", "in": "in_degree", "out": "out_degree"}[d]

    def plain_node(self):
        for _ in range(8):
            n = self.node(0.1)
            if not isinstance(n, (tuple, frozenset)) or self.known(n):
                return n
        return UNKNOWN_NODES[0]

    def do_degree(self):
        r = self.rng
        d, name = self.degree_call()
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        f = self.w(b, e, inc)
        if r.random() < 0.3:
            f.update({"n": [], "dir": d})
        else:
            n = self.plain_node()
            kw["node"] = n
            f.update({"n": [self.rec.nid(n)], "dir": d})
        self.force()
        self.rec.call("degree", f, lambda: self.call(name, kw), frac)

    def do_delta(self):
        rec = self.rec
        d, name = self.degree_call()
        b, e = self.window()
        inc = self.inc()
        kw = self.wk(b, e, inc)
        n = self.plain_node()
        f = self.w(b, e, inc)
        f.update({"n": [rec.nid(n)], "dir": d})
        self.force()
        rec.call("delta", f, lambda: self.call(name, dict(kw, node=n, delta=True)),
                 lambda res: [[rec.tok(t), isint(c)] for t, c in res])

    def do_interval(self):
        rec = self.rec
        rec.call("interval", {}, lambda: self.g.interval(), lambda x: [rec.tok(x[0]), rec.tok(x[1])])

    def do_stamps(self):
        if self.kind != "interval":
            return self.do_interval()
        r, rec = self.rng, self.rec
        which = r.choice(["all", "begin", "end"])
        name = {"all": "unique_timestamps", "begin": "unique_begin_timestamps", "end": "unique_end_timestamps"}[which]
        b, e = self.window()
        inc = [] if r.random() < 0.4 else [[r.random() < 0.5, r.random() < 0.5]]
        kw = self.wk(b, e, inc)
        f = self.w(b, e, inc or [[True, True]])
        f["which"] = which
        rec.call("stamps", f, lambda: self.call(name, kw), lambda res: [rec.tok(t) for t in list(res)])

    # ---------------------------------------------------------- conversions
    def flags(self):
        r = self.rng
        m, ed, td, nd = (r.random() < 0.5 for _ in range(4))
        kw = {"multigraph": m, "edge_data": ed, "node_data": nd,
              ("edge_interval_data" if self.kind == "interval" else "edge_timestamp_data"): td}
        for k in list(kw):
            if kw[k] is False and r.random() < 0.5:
                del kw[k]
        return kw, {"multi": m, "ed": ed, "td": td, "nd": nd}

    def keep(self, f, real, ev):
        """later on, look at the result again, and change it"""
        if f["keep"]:
            self.kept_real.append(real if ev["exc"] == "" and ev["shape"] else None)

    def do_to_subgraph(self):
        r, rec = self.rng, self.rec
        kw, f = self.flags()
        b, e = self.window()
        inc = self.inc()
        if inc:
            kw["inclusive"] = tuple(inc[0])
        f.update(self.w(b, e, inc))
        f["keep"] = r.random() < 0.5
        name = r.choice(["to_subgraph", "to_networkx_graph"])
        box = []

        def run():
            x = getattr(self.g, name)(b, e, **kw) if r.random() < 0.7 else getattr(self.g, name)(begin=b, end=e, **kw)
            box.append(x)
            return x
        ev = rec.call("to_subgraph", f, run, rec.static)
        self.after_conversion(f, box, ev, rec.static)

    def after_conversion(self, f, box, ev, project):
        if ev["exc"] or not ev["shape"]:
            ev["keep"] = False
            return
        if f["keep"]:
            self.kept_real.append((box[0], project))
        elif self.rng.random() < 0.5:
            self.spoil(box[0])
            self.rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def spoil(self, x):
        """change a conversion result in every way a caller can"""
        if isinstance(x, tuple):
            x = x[0]
        gs = [x] if isinstance(x, nx.Graph) else (list(x) if isinstance(x, list) else list(x.snapshots.values()))
        rest = []
        if len(gs) > 1 and self.rng.random() < 0.6:      # the others have nothing to do with this one
            self.rng.shuffle(gs)
            gs, rest = gs[:1], gs[1:]

        def look():
            return repr([(list(y.nodes(data=True)), list(y.edges(data=True)), y.graph) for y in rest])
        before = look()
        for y in gs:
            for n, d in y.nodes(data=True):
                d["spoiled"] = 1
                d.pop("w", None)
            for u, v, d in y.edges(data=True):
                d["spoiled"] = 1
                d.pop("w", None)
                for k in list(d):
                    d[k] = "spoiled"
            y.graph["spoiled"] = 1
            try:
                y.add_edge("spoil1", "spoil2")
                y.remove_node(next(iter(y.nodes())))
            except nx.NetworkXError:      # a frozen view: it shows in the attributes it shares
                pass
        if rest:
            self.rec.call("foreign", {"before": before, "after": look()}, lambda: None)

    def do_recheck(self):
        if not self.kept_real:
            return
        i = self.rng.randrange(len(self.kept_real))
        real, project = self.kept_real[i]
        self.rec.call("recheck", {"idx": i + 1}, lambda: real, project)

    def do_to_snapshots(self):
        r, rec = self.rng, self.rec
        if not self.numeric or not self.real_edges():
            return
        kw, f = self.flags()
        try:
            lo, hi = self.g.interval()
            d16 = int((hi - lo) * SCALE)
        except Exception:
            lo, d16 = 0, 16
        f.update({"n": [], "len": [], "keep": False})
        ticks = {int((t - lo) * SCALE) for x in self.real_edges() for t in x[2:]}

        def apart(num, den, n):
            """no edge begins or ends where two slices of num/den ticks meet, so their floating point does not matter"""
            return not any(t * den == num * i for t in ticks for i in range(1, n))
        x = r.random()
        if x < 0.5:
            n = r.choice([2, 3, 4, 5, 6, 3, 5, 6, 7, 9, 10, 13])
            if d16 % n and n not in (2, 4) and not apart(d16, n, n):
                n = 2
            kw["number_of_snapshots"] = n
            f["n"] = [n]
        elif x < 0.6:
            ln, num, den = r.choice([(0.1, 8, 5), (0.3, 24, 5), (0.7, 56, 5), (1 / 3, 16, 3), (1.1, 88, 5), (2 / 3, 32, 3),
                                     (5.3, 424, 5), (40 / 7, 640, 7)])
            n = -(-d16 * den // num)
            if d16 * den % num == 0 or n > 40 or not apart(num, den, n):
                return
            kw["length_of_snapshots"] = ln
            f["len"] = [num, den]
        elif x < 0.85:
            ln = r.choice([0.25, 0.5, 1, 2, 1.5, 3])
            if d16 / SCALE / ln > 40:
                ln = max(1, d16 // SCALE // 10)
            kw["length_of_snapshots"] = ln
            f["len"] = [rec.tok(ln), 1]
        else:
            y = r.randrange(6)
            if y == 0:
                kw["number_of_snapshots"] = 1
                f["n"] = [1]
            elif y == 1:
                n = r.choice([0, -1])
                kw["number_of_snapshots"] = n
                f["n"] = [n]
            elif y == 2:
                kw["number_of_snapshots"] = 2.5
                f["n"] = [0]
            elif y == 3:
                ln = r.choice([0, -1, -0.5])
                kw["length_of_snapshots"] = ln
                f["len"] = [rec.tok(ln), 1]
            elif y == 4:
                kw["number_of_snapshots"], kw["length_of_snapshots"] = 2, 1
                f["n"], f["len"] = [2], [SCALE, 1]
        rl = r.random() < 0.5
        if rl:
            kw["return_length"] = True
        f["rlen"] = []
        box = []

        def run():
            x = self.g.to_snapshots(**kw)
            box.append(x)
            return x

        def decode(x):
            if rl:
                x, ln = x
                p, q = frac(ln)
                f2 = [[p * SCALE, q]]
            else:
                f2 = []
            self._rlen = f2
            return [rec.static(y) for y in x]

        self._rlen = []
        f["keep"] = r.random() < 0.3
        ev = rec.call("to_snapshots", f, run, decode)
        ev["rlen"] = self._rlen
        self.after_conversion(f, box, ev, decode)

    def do_to_snapshot_graph(self):
        r, rec = self.rng, self.rec
        kw, f = self.flags()
        f["keep"] = r.random() < 0.4
        box = []

        def run():
            x = self.g.to_snapshot_graph(**kw)
            box.append(x)
            return x

        def decode(x):
            return [[rec.tok(k[0]), rec.tok(k[1]), rec.static(y)] for k, y in x.snapshots.items()]
        ev = rec.call("to_snapshot_graph", f, run, decode)
        self.after_conversion(f, box, ev, decode)

    # ------------------------------------------------------------- building
    def nxattr(self):
        r = self.rng
        d = {k: v for k, v in self.attrdict(0.5).items() if k not in ("x y", "0")}
        if r.random() < 0.3:
            # names that resemble those of the time attributes
            for k in r.sample(["e", "n", "in", "be", "b", "ime", "stamp", "sta", "when2", "ends", "Begin", "graph"], 2):
                d[k] = r.choice(self.VALUES)
        if r.random() < 0.15:
            # names of the parameters of methods, or keys which could not name any
            for k in r.sample(["u", "v", "t", "self", "attr", "begin", "end", "timestamp", "x y", "0", "cls", "node"], 2):
                d[k] = r.choice(self.VALUES)
        return d

    def do_build_nx(self):
        r, rec = self.rng, self.rec
        G = r.choice([nx.DiGraph, nx.MultiDiGraph] if self.dir else [nx.Graph, nx.MultiGraph])()
        custom = r.random() < 0.4
        kb, ke, kt = ("start", "stop", "when") if custom else ("begin", "end", "timestamp")
        for _ in range(r.randint(0, 6 * self.size)):
            lo, hi = self.span()
            d = self.nxattr()
            if self.kind == "interval":
                d[kb], d[ke] = lo, hi
            else:
                d[kt] = lo
            if custom and r.random() < 0.3:
                d["weight"] = r.choice([1, "v"])
            G.add_edges_from([(self.node(), self.node(), d)])
        tk = (kb, ke) if self.kind == "interval" else (kt, kt)
        es = [[rec.nid(u), rec.nid(v), rec.tok(d[tk[0]]), rec.tok(d[tk[1]]),
               rec.attrs({k: x for k, x in d.items() if k not in tk})] for u, v, d in G.edges(data=True)]
        if self.kind == "interval":
            kw = {"begin": kb, "end": ke} if custom else {}
        else:
            kw = {"timestamp": kt} if custom else {}
        before = repr((list(G.nodes(data=True)), list(G.edges(data=True))))
        self.build("build_nx", {"es": es}, lambda: rec.cls.from_networkx_graph(G, **kw))
        self.rec.call("foreign", {"before": before,
                                  "after": repr((list(G.nodes(data=True)), list(G.edges(data=True))))}, lambda: None)
        self.source = G

    def build(self, op, f, make):
        """replace the graph under test by a newly built one"""
        rec = self.rec
        box = {}

        def run():
            box["g"] = make()
            rec.g = box["g"]
            return box["g"]
        f["isdir"] = False
        self._isdir = False

        def decode(x):
            self._isdir = isinstance(x, (dnx.IntervalDiGraph, dnx.ImpulseDiGraph))
            want = (dnx.IntervalGraph if self.kind == "interval" else dnx.ImpulseGraph)
            if not isinstance(x, want):
                raise BadShape("class")
            return 0
        ev = rec.call(op, f, run, decode)
        ev["isdir"] = self._isdir
        self.model = False
        return ev

    def spoil_source(self):
        G = getattr(self, "source", None)
        if G is None:
            return
        for u, v, d in list(G.edges(data=True)):
            d["spoiled"] = 1
            d.pop("w", None)
        G.add_edge("spoil1", "spoil2", begin=0, end=1)
        self.rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def do_change_built(self):
        """changing the built graph must not change its source"""
        G = getattr(self, "source", None)
        if G is None:
            return
        before = repr((list(G.nodes(data=True)), list(G.edges(data=True))))
        es = self.safe_edges()
        if not es:
            return
        e = self.rng.choice(es)
        lo, hi = (e[2], e[3]) if self.kind == "interval" else (e[2], e[2])
        a = {"fresh": 1}
        rec = self.rec
        rec.call("add_edge", {"u": rec.nid(e[0]), "v": rec.nid(e[1]), "lo": rec.tok(lo), "hi": rec.tok(hi),
                              "a": rec.attrs(a)}, lambda: self.g.add_edge(*e, **a))
        rec.call("foreign", {"before": before, "after": repr((list(G.nodes(data=True)), list(G.edges(data=True))))},
                 lambda: None)

    def do_build_snap(self):
        if self.kind != "interval" or not self.numeric:
            return self.do_build_nx()
        r, rec = self.rng, self.rec
        SG = dnx.SnapshotDiGraph() if self.dir else dnx.SnapshotGraph()
        snaps = []
        multi = r.random() < 0.25
        mk = {(False, False): nx.Graph, (False, True): nx.MultiGraph, (True, False): nx.DiGraph,
              (True, True): nx.MultiDiGraph}[self.dir, multi]
        pos = 0
        for _ in range(r.randint(0, 5 * self.size)):
            G = mk()
            for _ in range(r.randint(0, 4 if r.random() < 0.8 else 4 * self.size)):
                G.add_edges_from([(self.node(), self.node(), self.nxattr())])
            snaps.append(G)
            ln = r.randint(0, 2)
            pos += r.randint(0, 2)
            SG.insert(G, start=pos, end=pos + ln)
            pos += ln + 1
        b = r.choice([0, -2, 3, 0.5])
        p = r.choice([1, 2, 0.5])
        kw = {}
        if b != 0 or r.random() < 0.5:
            kw["begin"] = b
        if p != 1 or r.random() < 0.5:
            kw["period"] = p
        enc = [[[rec.nid(u), rec.nid(v), rec.attrs(d)] for u, v, d in G.edges(data=True)] for G in snaps]

        def look():
            return repr([(list(G.nodes(data=True)), list(G.edges(data=True))) for G in snaps]) + repr(list(SG.snapshots))
        before = look()
        self.build("build_snap", {"snaps": enc, "begin": rec.tok(b), "period": rec.tok(p)},
                   lambda: rec.cls.from_snapshot_graph(SG, **kw))
        rec.call("foreign", {"before": before, "after": look()}, lambda: None)
        if snaps:
            self.source = r.choice(snaps)

    # --------------------------------------------------------------- histories
    def run(self, weights, length):
        r = self.rng
        names = list(weights)
        ws = [weights[n] for n in names]
        self.changes = [n for n in names if n in ("add_edge", "add_edges", "add_node", "remove_edge", "remove_node")]
        if r.random() < 0.25:
            self.rec.dark = random.Random(r.random())
        self.other = None
        if r.random() < 0.15:
            self.other = self.rec.cls() if r.random() < 0.8 else \
                getattr(dnx, r.choice(["IntervalGraph", "IntervalDiGraph", "ImpulseGraph", "ImpulseDiGraph"]))()
        drained = r.randrange(length) if not self.codemode and r.random() < 0.08 else -1
        for i in range(length):
            if i == drained:
                self.drain()
            if self.other is not None and r.random() < 0.3:
                self.elsewhere()
            if self.rec.asked and self.changes and r.random() < 0.1:
                self.again()
            else:
                getattr(self, "do_" + r.choices(names, ws)[0])()
        self.rec.light()
        FORCED[0] = None
        return self.rec.t

    def elsewhere(self):
        """change another graph, and ask it what this one was asked; nothing of that may show in this one"""
        r, rec = self.rng, self.rec
        asked = r.sample(rec.asked, min(len(rec.asked), 2))
        steps = [r.choice(["edge", "edge", "node", "attr", "remove", "remove_node", "ask"]) for _ in range(r.randint(1, 4))]
        (u, v), (lo, hi) = (self.node(), self.node()), self.span()
        times = [lo, hi][:2 if isinstance(self.other, dnx.IntervalGraph) else 1]
        mine = rec.g
        rec.g = self.other
        try:
            signal.alarm(rec.limit)
            for s in steps:
                try:
                    if s == "edge":
                        self.other.add_edge(u, v, *times, elsewhere=1)
                    elif s == "node":
                        self.other.add_node(u, elsewhere=1)
                    elif s == "attr":
                        self.other.graph["elsewhere"] = 1
                        self.other.name = "elsewhere"
                    elif s == "remove":
                        self.other.remove_edge(u, v)
                    elif s == "remove_node":
                        self.other.remove_node(u)
                    for _, _, fn, decode in asked if s == "ask" else []:
                        fn()
                except Timeout:
                    break
                except Exception:
                    pass
        except Timeout:
            pass
        finally:
            signal.alarm(0)
            rec.g = mine
        if r.random() < 0.3:
            rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def drain(self):
        """take everything away"""
        r, rec = self.rng, self.rec
        if r.random() < 0.5:
            for e in self.real_edges()[:20]:
                self.remove_pair(e[0], e[1])
        if r.random() < 0.6:
            for n in self.nodes[:12]:
                f = dict(self.w(None, None, []), n=rec.nid(n))
                rec.call("remove_node", f, lambda n=n: self.g.remove_node(n))

    def remove_pair(self, u, v):
        f = dict(self.w(None, None, []), u=self.rec.nid(u), v=self.rec.nid(v), exact=False)
        self.rec.call("remove_edge", f, lambda: self.g.remove_edge(u, v))

    def again(self):
        """ask what was asked before once more, after some change or none"""
        r, rec = self.rng, self.rec
        asked = r.sample(rec.asked, min(len(rec.asked), r.randint(1, 3)))
        if r.random() < 0.5:
            self.ask(asked)
        x = r.random()
        if x < 0.5:       # as many edges as before
            self.do_remove_edge()
            self.do_add_edge()
        elif x < 0.9:
            for _ in range(r.randint(1, 2)):
                getattr(self, "do_" + r.choice(self.changes))()
        self.ask(asked)

    def ask(self, asked):
        rec = self.rec
        for op, f, fn, decode in asked:
            if {"n", "us", "u"} & set(f) and any(isinstance(n, (tuple, frozenset)) for n in self.nodes):
                continue      # while it is no node, a tuple is read as several
            if "keep" in f:
                f = dict(f, keep=False)
            self.force()
            ev = rec.call(op, f, fn, decode)
            if "keep" in f and ev["exc"] == "" and ev["shape"] and self.rng.random() < 0.5:
                self.spoil(rec.raw)
                rec.call("foreign", {"before": "", "after": ""}, lambda: None)

    def do_spoil_source(self):
        self.spoil_source()


def record(rng, st, i):
    times = None
    if st.get("times") == "dense":
        times = rng.choice([list(range(0, 400)), [x / 2 for x in range(-100, 100)], list(range(0, 1000, 7))])
    nodes = list(range(rng.randint(5, 14))) if times else None
    if st.get("size", 1) > 1:
        nodes = list(range(rng.choice([5, 15, 40])))
    d = Driver(rng, st["kind"], rng.choice(st["dirs"]), numeric=st.get("numeric", False),
               zero_len=st.get("zero_len", 0.12), nodes=nodes, times=times, bad=st.get("bad", 0.04))
    d.size = st.get("size", 1)
    return d.run(st["weights"], rng.randint(*st["length"]))
