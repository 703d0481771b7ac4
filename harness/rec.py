"""Recording of executions of the real dynetworkx classes as JSON traces."""
import copy
import json
import os
import pathlib
import re
import signal
import sys
import tempfile
import warnings
from fractions import Fraction

REPO = os.environ.get("DNX_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import networkx as nx  # noqa: E402
import numpy, pandas  # noqa: E401,E402,F401
try:
    from sklearn.linear_model import LinearRegression  # noqa: F401
except ImportError:
    pass
# compile /repo's sources as they are now, whatever bytecode lies around
sys.pycache_prefix = "/nonexistent-pycache"
import dynetworkx as dnx  # noqa: E402
assert os.path.realpath(dnx.__file__).startswith(os.path.realpath(REPO) + os.sep), dnx.__file__
from networkx.exception import NetworkXError  # noqa: E402

BIG = 10 ** 9
CURRENT = []      # the recordings begun, newest last
NUMERAL = re.compile(r"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?")
SCALE = 16


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class BadShape(Exception):
    """The real code returned something that is not of the documented form."""


# ---------------------------------------------------------------- forced plan
FORCED = [None]


class Files:
    """the files of one history: some at a path used before, given as text or as a Path"""

    def __init__(self, rng):
        self.rng, self.path = rng, None

    def new(self, text, plain=True):
        r = self.rng
        if self.path is None or r.random() < 0.5:
            fd, self.path = tempfile.mkstemp(suffix=r.choice(["", "", ".txt", ".csv", ".edges"]))
            os.close(fd)
        if not plain and r.random() < 0.1:      # line ends of other systems
            text = text.replace("\n", "\r\n")
        with open(self.path, "wb") as f:
            f.write(text.encode())
        return self.path

    def given(self, path):
        return path if self.rng.random() < 0.8 else pathlib.Path(path)


class Thing:
    """a label that has no order and is not the only object equal to it"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Thing) and self.k == other.k

    def __hash__(self):
        return hash(("thing", self.k))

    def __repr__(self):
        return "Thing(%d)" % self.k


def another(n):
    """an object equal to n and, where there is more than one such, not the same"""
    if isinstance(n, Thing):
        return Thing(n.k)
    if type(n) is tuple:
        return tuple(another(x) for x in n)
    if type(n) is str:
        return "".join(list(n))
    if type(n) in (int, float):
        return type(n)(repr(n))
    return n


def install_forced_plan():
    """Let the driver choose which evaluation plan a trained model prefers."""
    try:
        from sklearn.linear_model import LinearRegression
    except ImportError:
        return
    real = LinearRegression.predict

    def predict(self, X):
        out = real(self, X)
        if FORCED[0] is None:
            return out
        out = copy.deepcopy(out)
        for row in out:
            row[0], row[1] = (0.0, 1.0) if FORCED[0] == "node" else (1.0, 0.0)
        return out

    LinearRegression.predict = predict


install_forced_plan()

CLASSES = {("interval", False): "IntervalGraph", ("interval", True): "IntervalDiGraph",
           ("impulse", False): "ImpulseGraph", ("impulse", True): "ImpulseDiGraph"}


def codes(s):
    return [ord(c) for c in s]


# queries that can be asked again as they are, those that answer with a list, and events always followed by a look
PURE = {"edges", "has_edge", "nodes", "has_node", "number_of_nodes", "contains", "degree", "delta", "interval", "stamps",
        "to_subgraph", "to_snapshot_graph"}
LISTS = {"edges", "delta", "stamps", "get", "order", "size", "has_node", "is_directed", "is_multigraph", "stat"}
SEEN = {"build_nx", "build_snap", "load", "train", "reset"}


class Rec:
    """One trace: a real graph, the encoding of its labels and times, the events."""

    def __new__(cls, *_, **__):
        self = super().__new__(cls)
        self.asked, self.raw = [], None
        self.dark = None               # a source of coin flips when some events are not followed by a look at the graph
        CURRENT.append(self)
        return self

    def __init__(self, kind, directed, nodes, times=None, attr=None, codemode=False, name=None, limit=20):
        self.kind, self.dir = kind, directed
        self.cls = getattr(dnx, CLASSES[kind, directed])
        self.codemode = codemode
        self.limit = limit
        self.ids = {}
        for n in nodes:
            self.nid(n)
        self.domain = times            # None: numbers; else ordered list of values
        self.odd = {}
        self.evs = []
        self.labels = []
        attr = attr or {}
        self.g = self.cls(**attr)
        self.t = {"kind": kind, "dir": directed, "attr": self.attrs(attr), "evs": self.evs,
                  "labels": self.labels}
        self.last = self.observe()
        self.t["obs0"] = self.last
        self.kept = []

    # ------------------------------------------------------------- encodings
    def nid(self, n):
        try:
            if n not in self.ids:
                self.ids[n] = len(self.ids) + 1
            return self.ids[n]
        except TypeError:
            raise BadShape("unhashable node")

    def tok(self, t):
        if self.domain is not None:
            for i, x in enumerate(self.domain):
                if type(x) is type(t) and x == t:
                    return i * SCALE
        elif isinstance(t, (int, float)) and not isinstance(t, bool):
            if t == t and abs(t) < 10 ** 7 and (t * SCALE) == int(t * SCALE):
                return int(t * SCALE)
            if abs(t) == float("inf"):
                return 2 * BIG + 10 if t > 0 else -2 * BIG - 10
            if t == t:       # equal numbers, equal tokens
                return self.odd.setdefault(float(t) if float(t) == t else t, BIG + len(self.odd))
        try:
            return self.odd.setdefault(repr(t), BIG + len(self.odd))
        except Exception:
            raise BadShape("time")

    def wide(self, times):
        """numbers beyond 16ths: their tokens have the order of the numbers; no other number may lie between two of
        them, or between one of them and 0"""
        some = sorted({float(t) for t in times if 10 ** 7 <= abs(t) < float("inf") or abs(t) < 10 ** 7 and t * SCALE != int(t * SCALE)})
        for i, t in enumerate(some):
            self.odd[t] = (BIG + 1000 if t > 0 else -2 * BIG) + i

    def nums(self, lines):
        """the numerals of a text that the specification does not compute itself, with their tokens"""
        out = {}
        for x in lines:
            for s in NUMERAL.findall(x):
                t = self.tok(float(s))
                if abs(t) >= BIG // 2 or "e" in s or "E" in s:
                    out[s] = t
        return [[codes(s), t] for s, t in sorted(out.items())]

    def val(self, v):
        if self.codemode:
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return ["n", self.tok(v), []]
            return ["s", 0, codes(str(v))]
        if isinstance(v, bool):
            return "b:%r" % v
        if isinstance(v, (int, float)):
            return "n:%r" % float(v)
        if isinstance(v, str):
            return "s:" + v
        return "o:%r" % (v,)

    def key(self, k):
        return codes(str(k)) if self.codemode else str(k)

    def attrs(self, d):
        if not isinstance(d, dict):
            raise BadShape("attributes")
        return sorted([[self.key(k), self.val(v)] for k, v in d.items()],
                      key=repr)

    def bound(self, t):
        return [] if t is None else [self.tok(t)]

    def edge(self, e):
        if not isinstance(e, tuple) or len(e) != (4 if self.kind == "interval" else 3):
            raise BadShape("edge %r" % (e,))
        lo, hi = (e[2], e[3]) if self.kind == "interval" else (e[2], e[2])
        return [self.nid(e[0]), self.nid(e[1]), self.tok(lo), self.tok(hi)]

    def static(self, r):
        """projection of a networkx graph"""
        if not isinstance(r, nx.Graph):
            raise BadShape("not a networkx graph")
        tk = ("begin", "end") if self.kind == "interval" else ("timestamp",)
        es = []
        for u, v, d in r.edges(data=True):
            ts = [[self.tok(d[k])] if k in d else [] for k in tk]
            if len(ts) == 1:
                ts.append([])
            es.append([self.nid(u), self.nid(v), self.attrs({k: x for k, x in d.items() if k not in tk})] + ts)
        return {"dir": r.is_directed(), "multi": r.is_multigraph(),
                "nodes": sorted(([self.nid(n), self.attrs(d)] for n, d in r.nodes(data=True)), key=repr),
                "edges": sorted(es, key=repr)}

    # ---------------------------------------------------------- observations
    def observe(self):
        o = {"ok": True, "nodes": [], "edges": [], "len": 0, "num": 0, "name": "", "str": "", "gattr": [], "iv": []}
        g = self.g
        try:
            signal.alarm(self.limit)
            for x in g.edges(data=True):
                e, d = x
                o["edges"].append(self.edge(e) + [self.attrs(d)])
            for x in g.nodes(data=True):
                n, d = x
                o["nodes"].append([self.nid(n), self.attrs(d)])
            o["len"] = int(len(g))
            o["num"] = int(g.number_of_nodes())
            o["name"] = str(g.name)
            o["str"] = str(g)
            o["gattr"] = self.attrs(dict(g.graph))
            if o["edges"]:
                iv = g.interval()
                o["iv"] = [[self.tok(iv[0]), self.tok(iv[1])]]
        except Exception as ex:
            o = {"ok": False, "nodes": [], "edges": [], "len": 0, "num": 0, "name": "", "str": repr(ex)[:60],
                 "gattr": [], "iv": []}
        finally:
            signal.alarm(0)
        o["nodes"].sort(key=repr)
        o["edges"].sort(key=repr)
        return o

    # ----------------------------------------------------------------- calls
    def call(self, op, fields, fn, decode=None, observe=True):
        """Run fn() on the real graph and log the event."""
        ev = {"op": op, "exc": "", "shape": True, "blind": False}
        ev.update(fields)
        res = raw = None
        if op in PURE:
            self.asked = self.asked[-7:] + [(op, dict(fields), fn, decode)]
        try:
            signal.alarm(self.limit)
            raw = fn()
            if decode is not None:
                try:
                    res = decode(raw)
                except Timeout:
                    raise
                except NetworkXError:
                    raise            # lazily raised refusal
                except Exception as ex:
                    ev["shape"] = False
                    ev["why"] = repr(ex)[:80]
        except NetworkXError:
            ev["exc"] = "NetworkXError"
        except Timeout:
            ev["exc"] = "Timeout"
        except Exception as ex:
            ev["exc"] = type(ex).__name__
            ev["why"] = str(ex)[:80]
        finally:
            signal.alarm(0)
        if ev["exc"] == "" and ev["shape"] and decode is not None:
            ev["res"] = res
        self.raw = raw
        if isinstance(raw, list) and op in LISTS:      # the list is the caller's now
            if len(self.evs) % 2:
                raw.clear()
            else:
                raw.append(None)
        ev["obs"] = []
        if observe and self.dark and op not in SEEN and self.dark.random() < 0.75:
            ev["blind"], self.last = True, None
        elif observe:
            o = self.observe()
            if o != self.last:
                ev["obs"] = [o]
                self.last = o
        self.evs.append(ev)
        return ev

    def light(self):
        """look at the graph at last"""
        if self.dark:
            self.dark = None
            self.call("foreign", {"before": "", "after": ""}, lambda: None)

    def stuck(self, ex):
        """the trace so far, when what the code did leaves the driver nothing to go on with; no such trace is a
        behaviour of the specification"""
        ev = {"op": "stuck", "exc": "", "shape": False, "why": repr(ex)[:200], "obs": [], "blind": False}
        self.evs.append(ev)
        return self.t

    def label(self, n):
        """register a node label for text traces (position = node id)"""
        if isinstance(n, (int, float)) and not isinstance(n, bool):
            x = ["n", self.tok(n), []]
        else:
            x = ["s", 0, codes(str(n))]
        i = self.nid(n)
        while len(self.labels) < i:
            self.labels.append(["?", len(self.labels), []])
        self.labels[i - 1] = x
        return i


def frac(x):
    """a float as [numerator, denominator]; exact ones exactly"""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise BadShape("number")
    f = Fraction(x).limit_denominator(5000)
    if abs(float(f) - x) > 1e-9 or abs(f.numerator) > BIG:
        raise BadShape("number")
    return [f.numerator, f.denominator]


def isint(x):
    if isinstance(x, bool) or not isinstance(x, int) or abs(x) > BIG:
        raise BadShape("int")
    return x


def isbool(x):
    if not isinstance(x, bool):
        raise BadShape("bool")
    return x
