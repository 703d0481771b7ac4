"""confirm.py FILE MUTANTS.jsonl PROPS [LINES]: run whole checks (quick) on the mutants mutate.py found uncaught.

LINES lo-hi restricts to mutants of those lines.  A development aid."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutate  # noqa: E402

rel, path, props = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
lo, hi = (int(x) for x in sys.argv[4].split("-")) if len(sys.argv) > 4 else (0, 10 ** 9)
src = open("/repo/" + rel).read()
ss = {(s[0], s[5], s[4][:100]): s for s in mutate.sites(src)}
R = "/tmp/mut/confirm%d" % os.getpid()
os.makedirs("/tmp/mut", exist_ok=True)
subprocess.check_call(["cp", "-a", "/repo", R])
for line in open(path):
    d = json.loads(line)
    if d["caught"] or not lo <= d["line"] <= hi or d["what"] == "swap args" and "max(" in d["new"]:
        continue
    s = ss.get((d["line"], d["what"], d["new"]))
    if s is None:
        print("?", d)
        continue
    with open(os.path.join(R, rel), "w") as f:
        f.write(mutate.apply(src, s))
    got = []
    for p in props:
        r = subprocess.run(["bash", os.path.join(os.path.dirname(HERE), "check.sh"), p], capture_output=True, text=True,
                           env=dict(os.environ, DNX_REPO=R))
        got.append("%s:%d" % (p, r.returncode))
        if r.returncode == 1:
            break
    print(d["line"], d["what"], "|", d["old"][:60], "->", d["new"][:50], got, flush=True)
shutil.rmtree(R)
