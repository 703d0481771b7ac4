"""Small files that TLC enumerated from TextModel, written with various labels, numbers, delimiters and remarks, and
loaded (and saved and loaded again) by the real classes."""
import os

import text
from script import line


class Driver(text.Driver):
    def words(self, row, order, d, comments, time, values):
        r = self.rng
        num = (lambda t: "%d" % t) if self.timetype == "int" else self.number
        u, v = (self.labels[n - 1] for n in row["p"])
        col = {"u": str(u), "v": str(v), "begin": num(time(row["lo"])), "end": num(time(row["hi"])),
               "t": num(time(row["lo"]))}
        fields = [col[c] for c in order]
        if row["w"]:
            x = values[row["w"] - 1]
            fields.append(self.key + "=" + (self.number(x) if isinstance(x, (int, float)) and not isinstance(x, bool)
                                            else str(x)))
        s = d.join(fields)
        remark = comments + r.choice(["", " note", "a=b" + d + "c", d, " " + s])
        return {"none": [s], "tail": [s + r.choice(["", " "]) + remark], "remark": [remark, s],
                "blank": [s] + r.choice([[""], [" \t"], ["", ""]])}[row["noise"]]

    def run_file(self, x, st):
        r, rec = self.rng, self.rec
        opt = x["opt"]
        self.labels = r.sample(self.nodes, 3)
        for n in self.labels:
            rec.label(n)
        self.key = r.choice(self.KEYS)
        values = r.sample([v for v in self.VALUES if v != ""], 2)
        grace, dur = (opt[k][0] if opt[k] else None for k in ("grace", "dur"))
        step = r.choice([1, 1, 2, 3, 10]) if grace is not None or r.random() < 0.7 else r.choice([0.5, 0.25])
        start = r.choice([0, 0, 1, -2, 40]) * (step if step >= 1 else 1)

        def time(t):
            return start + t * step
        whole = all(float(time(q[k])) == int(time(q[k])) for q in x["rows"] for k in ("lo", "hi")) and \
            (dur is None or dur * step == int(dur * step))
        self.timetype = r.choice(["int", "float"]) if whole else "float"
        comments = r.choice(["#", "#", "%", "//"])
        self.times = [time(t) for t in range(-1, 6)]
        d = self.delim()
        if any(c in s for s in [d] + [str(n) for n in self.nodes] for c in comments):
            comments = "#"
        lines = []
        for row in x["rows"]:
            lines += self.words(row, opt["order"], d, comments, time, values)
        if lines and r.random() < 0.7:
            lines.append("")
        base = ["u", "v", "begin", "end"] if self.kind == "interval" else ["u", "v", "t"]
        custom = opt["order"] != base or r.random() < 0.2
        grace = None if grace is None else grace * step
        dur = None if dur is None else dur * step
        path = self.files.new("\n".join(lines), False)
        try:
            self.load(path, lines, self.kwargs(d, comments, opt["order"] if custom else None, dur, self.timetype,
                                               grace, False),
                      self.opts(d, comments, opt["order"], dur, self.timetype, grace), False)
        finally:
            os.remove(path)
        if x["rows"] and r.random() < st.get("again", 0):
            self.do_save()
        return rec.t


def record(rng, st, i):
    x = line(st["file"], st["pick"][i])
    return Driver(rng, x["kind"], x["dir"], bad=0.0).run_file(x, st)
