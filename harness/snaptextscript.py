"""Small files of snapshots that TLC enumerated from SnapTextModel, written with various numbers, delimiters, span
keys and remarks, loaded (and saved and loaded again) by the real snapshot graph classes."""
import os

import snaps
from script import line


class Driver(snaps.Driver):
    def run_file(self, x, st):
        r = self.rng
        d, s, e = self.options()
        comments = r.choice(["#", "#", "%", "//"]) if d != "//" else "#"
        one = r.choice([1, 2, 0.5, -1, 12, 1.25])
        step, start = r.choice([1, 2, 0.5, 0.25]), r.choice([0, 0, -2, 7, -0.5])

        def num(y):
            return "%d" % y if y == int(y) and r.random() < 0.6 else repr(float(y))
        lines = []
        for row in x["rows"]:
            m = d.join(" ".join(num(one * v) for v in q) for q in row["m"])
            tail = [s + "=" + num(start + row["s"] * step), e + "=" + num(start + row["e"] * step)]
            if r.random() < 0.15:
                tail.reverse()
            text = m + " " + " ".join(tail)
            remark = comments + r.choice(["", " note", "1=2", d + "0", " " + text])
            lines += {"none": [text], "tail": [text + r.choice(["", " "]) + remark], "remark": [remark, text],
                      "blank": [text] + r.choice([[""], [" \t"], ["", "  "]])}[row["noise"]]
        text = "\n".join(lines) + r.choice(["", "\n"])
        path = self.files.new(text, False)
        try:
            self.load(path, text, d, s, e, comments)
        finally:
            os.remove(path)
        if r.random() < st.get("again", 0):
            self.do_save()
        return self.rec.t


def record(rng, st, i):
    x = line(st["file"], st["pick"][i])
    return Driver(rng, x["dir"], text=True, bad=0.0).run_file(x, st)
