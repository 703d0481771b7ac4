"""Files of the edge-based graph classes: saved, loaded back, written by hand."""
import os
import random

import graphs
from rec import BadShape, FORCED, SCALE, codes, dnx

DELIMS = [" ", " ", ",", ";", "\t", "|", "::", ".*", " , ", "$", "||", "("]


def ok_text(s, delim, comments):
    return not (set(s) & set("= \t\n\r#%")) and not any(x in s for x in (delim, comments) if x) and \
        not (set(s) & set(delim))


class Driver(graphs.Driver):
    codemode = True
    KEYS = ["w", "color", "x-y", "Key", "0"]
    VALUES = [0, 1, 2.5, -3, "", "red", None, False, 12.25, "a:b", "Z9", "{0}", "\u00e9t\u00e9", "\\n", "'q\"",
              "%d", "[1]"]
    NODE_DOMAINS = [[0, 1, 2, 3], [1, 2, 30, -4], ["a", "b", "cc", "d1"], [0.5, 1.0, 2.5, -3.0], [7, "x", 12, "Y"],
                    ["A.b", "-", "x/y", "0x"],
                    ["\u00e9", "\u65e5\u672c", "{x}", "\\t"]]
    TIMES = [list(range(-3, 6)), [0, 1, 2], [x / 4 for x in range(-6, 10)], [100, 5, 17, 2000, 12.5],
             list(range(0, 40, 3))]

    WIDE_NODES = [[10 ** 12, 10 ** 12 + 1, 3], [0.1, 0.30000000000000004, 1e-07, 12.125], ["a", "b", "cc", "d1"],
                  [0, 1, 2, 3], [123456789, -123456789, 2 ** 40]]
    WIDE_VALUES = [0, 0.1, 1 / 3, 1e-09, 2.5e+30, 2 ** 53, 123456789, 1234567.1, -0.001, "red", "A.b"]
    # every number lies beyond 16ths, except those nearer to 0 than the others
    WIDE_TIMES = [[0, 0.1, 0.2, 0.1 + 0.2, 1 / 3], [1600000000, 1600000001, 1600000060.5, 1600003600],
                  [-1e+20, -0.1, 0, 1e-07, 2e-07, 0.7], [3, 12345678, 12345679, 123456789012, 2 ** 53],
                  [-98765432.125, -98765432, -1 / 3, 0], [0.001, 0.002, 1234567.001, 1234567.002, 1234567.01]]

    lines = 7         # of files written by hand, at most

    def __init__(self, rng, kind, directed, wide=False, **kw):
        self.wide = wide
        if wide:
            self.NODE_DOMAINS, self.VALUES, self.TIMES = self.WIDE_NODES, self.WIDE_VALUES, self.WIDE_TIMES
            self.NODE_DOMAINS = [x for x in self.NODE_DOMAINS]
        times = sorted(rng.choice(self.TIMES))
        super().__init__(rng, kind, directed, numeric=True, times=times, **kw)
        if wide:
            self.numeric = False
            self.rec.wide(times)
            for n in self.nodes:
                self.rec.label(n)
        self.nodetype = "int"
        if all(isinstance(n, str) for n in self.nodes):
            self.nodetype = rng.choice(["str", "str", "int"])
        elif all(isinstance(n, (int, float)) for n in self.nodes):
            self.nodetype = "float" if any(isinstance(n, float) for n in self.nodes) else rng.choice(["int", "float"])
        self.last_file = None

    def delim(self):
        r = self.rng
        for _ in range(40):
            d = r.choice(DELIMS)
            if r.random() < self.bad:
                return "="
            texts = [str(n) for n in self.nodes] + [str(v) for v in self.VALUES] + self.KEYS
            texts += [str(float(t)) for t in self.times] + ["-1"]
            if all(d not in t and not (set(d) & set(t)) for t in texts):
                return d
        return " "

    def opts(self, d, comments, order=None, dur=None, timetype="float", merge=None):
        base = ["u", "v", "begin", "end"] if self.kind == "interval" else ["u", "v", "t"]
        return {"delim": codes(d), "comments": codes(comments), "order": base if order is None else order,
                "dur": [] if dur is None else [self.rec.tok(dur)], "nodetype": self.nodetype, "timetype": timetype,
                "merge": [] if merge is None else [self.rec.tok(merge)]}

    def kwargs(self, d, comments, order=None, dur=None, timetype="float", merge=None, predict=False):
        r, kw = self.rng, {}
        if d != " " or r.random() < 0.3:
            kw["delimiter"] = d
        if comments != "#" or r.random() < 0.2:
            kw["comments"] = comments
        if self.nodetype != "int" or r.random() < 0.2:
            kw["nodetype"] = {"int": int, "str": str, "float": float}[self.nodetype]
        if timetype != "float" or r.random() < 0.2:
            kw["intervaltype" if self.kind == "interval" else "timestamptype"] = {"int": int, "float": float}[timetype]
        if order is not None:
            kw["order"] = tuple(order) + ((dur,) if dur is not None else ())
        if merge is not None:
            kw["merge"] = (True, merge)
        if predict:
            kw["predict"] = True
        return kw

    def load(self, path, lines, kw, opts, predict):
        rec = self.rec
        opts["nums"] = rec.nums(lines)
        f = {"lines": [codes(x) for x in lines], "opts": opts, "predict": predict, "isdir": False}
        FORCED[0] = None
        if predict:
            random.seed(self.rng.randrange(10 ** 6))
        ev = self.build("load", f, lambda: rec.cls.load_from_txt(self.files.given(path), **kw))
        self.model = predict and not ev["exc"]
        return ev

    def do_save(self):
        r, rec = self.rng, self.rec
        d = self.delim()
        old = "" if r.random() < 0.6 else "8 9 1 1\n" * r.randint(1, 30)
        path = self.files.new(old)      # what the file held before
        f = {"opts": dict(self.opts(d, "#"), nums=[]), "lines": []}
        try:
            kw = {"delimiter": d} if d != " " or r.random() < 0.5 else {}
            ev = rec.call("save", f, lambda: self.g.save_to_txt(self.files.given(path), **kw))
            lines = open(path).read().split("\n")
            if ev["exc"] == "ValueError":
                rec.call("foreign", {"before": old, "after": "\n".join(lines)}, lambda: None)
            ev["lines"], ev["opts"]["nums"] = [codes(x) for x in lines], rec.nums(lines)
            if not ev["exc"] and r.random() < 0.7:
                predict = r.random() < 0.1
                self.load(path, lines, self.kwargs(d, "#", predict=predict), self.opts(d, "#"), predict)
        finally:
            os.remove(path)

    def number(self, t):
        r = self.rng
        if t == int(t) and abs(t) < 10 ** 18:
            return r.choice(["%d" % t, "%d" % t, "%.1f" % t, "%d." % t] + (["+%d" % t] if t >= 0 else []))
        s = repr(float(t))
        return s if r.random() < 0.7 or not s.startswith("0.") else s[1:]

    def do_load(self):
        r, rec = self.rng, self.rec
        d = self.delim()
        comments = r.choice(["#", "#", "%", "//", "rem"])
        if any(c in x for x in [d] + [str(n) for n in self.nodes] for c in comments):
            comments = "#"
        times = self.times
        timetype = "float"
        merge = dur = None
        order = ["u", "v", "begin", "end"] if self.kind == "interval" else ["u", "v", "t"]
        custom = r.random() < 0.5
        if self.kind == "interval":
            x = r.random()
            if self.wide:
                pass
            elif x < 0.3:
                merge = r.choice([0, 0, 1, 2, 5])
                times = r.choice([list(range(0, 12)), list(range(-5, 30))])
            elif x < 0.6:
                dur = r.choice([1, 2, 5, 1.5])
                order = ["u", "v", r.choice(["begin", "end"])]
                custom = True
        if all(t == int(t) for t in times) and r.random() < 0.3 and (dur is None or dur == int(dur)):
            timetype = "int"
        if custom:
            r.shuffle(order)
        lines = []
        odd = r.random() < self.bad * 3
        for _ in range(r.randint(0, self.lines)):
            u, v = self.node(), self.node()
            if merge is not None and r.random() < 0.6:
                u, v = self.nodes[0], self.nodes[1]
                if r.random() < 0.3:
                    u, v = v, u
            i, j = sorted((r.randrange(len(times)), r.randrange(len(times))))
            if i == j and (merge is not None or r.random() < 0.6):
                i, j = (i, i + 1) if i + 1 < len(times) else (i - 1, i)
            if merge is not None and j > i + 4:
                j = i + r.randint(1, 4)
            num = (lambda t: "%d" % t) if timetype == "int" else self.number
            col = {"begin": num(times[i]), "end": num(times[j]), "t": num(times[i])}
            for c, n in (("u", u), ("v", v)):
                col[c] = str(n)
                if isinstance(n, int) and r.random() < 0.05 and n >= 0:
                    col[c] = "+%d" % n
            if odd and r.random() < 0.3:
                c = r.choice(order)
                col[c] = r.choice(["x", "1.5.2", "-", "1a"] + (["2.5"] if timetype == "int" and c not in "uv" else []))
                if c in "uv":
                    rec.label(col[c])
            attrs = self.attrdict(0.5 if merge is None else 0.15)
            if merge is not None and attrs:
                attrs = {"w": 1}
            elif merge is None and r.random() < 0.05:
                # named like the parameters of methods
                attrs[r.choice(["u", "v", "t", "begin", "end", "self", "attr"])] = r.choice(self.VALUES)
            fields = [col[c] for c in order]
            fields += [k + "=" + (str(x) if not isinstance(x, (int, float)) or isinstance(x, bool) else self.number(x))
                       for k, x in attrs.items()]
            line = d.join(fields)
            if r.random() < 0.15:
                line += r.choice(["", " "]) + comments + r.choice(["", " note", "a=b" + d + "c"])
            elif r.random() < 0.1 and not line.endswith("="):
                line += "  "
            lines.append(line)
            if r.random() < 0.2:
                lines.append(r.choice(["", "  ", comments + " remark", "\t"]))
        if lines and r.random() < 0.7:
            lines.append("")
        shown = list(order)
        if r.random() < self.bad * 2:
            shown, dur = r.choice([["u", "v"], ["u", "begin", "end", "v", "w"], ["u", "w", "t"], ["v", "begin", "end", "x"],
                                   ["u", "v", "x", "y"], ["u", "v", "when"], ["u", "v", "t", "x"], ["x", "u", "v", "t"],
                                   ["u", "v", "begin", "end", "x"], ["u", "x", "begin", "end"], ["x", "v", "t"], []]), None
            custom = True
        path = self.files.new("\n".join(lines), False)
        try:
            predict = r.random() < 0.1
            self.load(path, lines, self.kwargs(d, comments, shown if custom else None, dur, timetype, merge, predict),
                      self.opts(d, comments, shown, dur, timetype, merge), predict)
        finally:
            os.remove(path)


def record(rng, st, i):
    d = Driver(rng, st["kind"], rng.random() < 0.5, wide=rng.random() < st.get("wide", 0), bad=st.get("bad", 0.04))
    d.lines = st.get("lines", 7)
    for _ in range(st.get("size", 0)):
        d.do_add_edge()
    return d.run(st["weights"], rng.randint(*st["length"]))
