"""seedtable.py [CATCHLOG]: write the table of planted bugs into DESIGN.md (CATCHLOG: lines "id prop rc=N ...")"""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "DESIGN.md")
old = open(P).read()
rc = dict(re.findall(r"^\| (\S+) \| .* \| (\S+) \|$", old, re.M))
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        m = re.match(r"(\S+) (C\d+) rc=(\d)", line)
        if m:
            rc[m[1]] = m[2] if m[3] == "1" else "missed"
rows = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), rc.get(d, m["property"])))
head = old.split("<!-- seeds -->")[0] if "<!-- seeds -->" in old else old.replace("SEEDTABLE\n", "")
open(P, "w").write(head.rstrip("\n") + "\n\n<!-- seeds -->\n" + "\n".join(rows) + "\n")
