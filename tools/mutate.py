"""mutate.py FILE.py [--n N] [--seed S]: how many small changes of a source file the checks notice.

A development aid, not a check: every mutant of a line of the original code (git blame) that passes the stable
tests is recorded by all the stages of all properties (a few traces each) and validated against all clauses at
once.  Works in copies under /tmp/mut; prints one JSON line per mutant that passes the tests."""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(os.path.dirname(HERE), "harness")
sys.path.insert(0, H)
PY = "/opt/venv/bin/python"
BASE = "9c230a6"

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.FloorDiv}
NAMES = {"u": "v", "v": "u", "begin": "end", "end": "begin", "start": "end", "min": "max", "max": "min",
         "begin_operator": "end_operator", "end_operator": "begin_operator", "time": "end", "iedge": "edge"}
ATTRS = {"begin": "end", "end": "begin", "low": "high", "high": "low", "left": "right", "right": "left",
         "update": "setdefault", "max": "high", "values": "keys", "bisect_left": "bisect_right", "_adj": "_pred",
         "_pred": "_succ", "_succ": "_pred"}


def sites(src):
    tree = ast.parse(src)
    out = []

    def put(node, new, what):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset,
                    new if isinstance(new, str) else ast.unparse(new), what))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                m = copy.deepcopy(n)
                m.ops[i] = CMP[type(op)]()
                put(n, m, "cmp")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, "(" + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + ast.unparse(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            put(n, m, "arith")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, repr(not n.value), "const")
            elif isinstance(n.value, int):
                put(n, repr(n.value + 1), "const")
                if n.value:
                    put(n, repr(n.value - 1), "const")
            elif n.value is None:
                put(n, "0", "none")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            put(n, NAMES[n.id], "name")
        elif isinstance(n, ast.Attribute) and n.attr in ATTRS:
            m = copy.deepcopy(n)
            m.attr = ATTRS[n.attr]
            put(n, m, "attr")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, n.func.value, "no copy")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "sorted", "dict", "float", "int",
                                                             "abs", "str") and len(n.args) == 1 and not n.keywords:
                put(n, "(" + ast.unparse(n.args[0]) + ")", "no conversion")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "deepcopy":
                put(n, n.args[0], "no copy")
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    m = copy.deepcopy(n)
                    m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                    put(n, m, "swap args")
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                put(n, m, "drop keyword")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
                continue
            put(n, "pass", "delete")
        elif isinstance(n, ast.Continue):
            put(n, "break", "flow")
        elif isinstance(n, ast.Break):
            put(n, "continue", "flow")
            put(n, "pass", "flow")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "False", "branch")
            if isinstance(n, ast.If):
                put(n.test, "True", "branch")
    return out


def apply(src, s):
    lines = src.split("\n")
    b = [x.encode() for x in lines]
    l0, c0, l1, c1, new, _ = s
    head, tail = b[l0 - 1][:c0], b[l1 - 1][c1:]
    b[l0 - 1:l1] = [head + new.encode() + tail]
    return b"\n".join(b).decode()


STABLE = None


def run(job):
    k, rel, src, s, kinds, n, seed = job
    wd = "/tmp/mut/w%d" % k
    repo = os.path.join(wd, "repo")
    path = os.path.join(repo, rel)
    try:
        mut = apply(src, s)
        ast.parse(mut)
    except SyntaxError:
        return None
    with open(path, "w") as f:
        f.write(mut)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", DNX_REPO=repo)
    try:
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30",
                                "--ignore=dynetworkx/tests/test_count_temporal_motif.py", "dynetworkx"], cwd=repo,
                               env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode != 0:
            return None
        return dict(line=s[0], what=s[5], new=s[4][:100], old=src.split("\n")[s[0] - 1].strip()[:100],
                    caught=checks(kinds, n, seed, env, wd))
    finally:
        with open(path, "w") as f:
            f.write(src)


def checks(kinds, n, seed, env, wd):
    import check
    work = tempfile.mkdtemp(dir=wd)
    got = []
    try:
        for kind in kinds:
            out = os.path.join(work, "t.ndjson")
            try:
                p = subprocess.run([PY, os.path.join(HERE, "genall.py"), kind, str(seed), str(n), out], env=env,
                                   capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return ["recording timed out"]
            if p.returncode:
                return ["recording failed " + p.stderr[-200:]]
            st = json.loads(p.stdout.strip().split("\n")[-1])
            spec = {"interval": "GraphTrace", "impulse": "GraphTrace", "snap": "SnapTrace", "motif": "MotifTrace"}[kind]
            try:
                _, _, rej = check.validate("ALL", spec, out, st["traces"], st["events"], work, "2000m", True)
            except check.Broken as ex:
                return ["broken " + str(ex)[-200:]]
            got += sorted({c for r in rej for c in r[2]})
            if got:
                return got
        return got
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--n", type=int, default=10 ** 6)
    ap.add_argument("--traces", type=int, default=25)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--all-lines", action="store_true")
    ap.add_argument("--out", required=True)
    ap.add_argument("--procs", type=int, default=7)
    a = ap.parse_args()
    rel = a.file
    src = open("/repo/" + rel).read()
    blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", rel], text=True).splitlines()
    orig = {i + 1 for i, x in enumerate(blame) if x.lstrip("^").startswith(BASE)}
    ss = [s for s in sites(src) if a.all_lines or set(range(s[0], s[2] + 1)) & orig]
    random.Random(a.seed).shuffle(ss)
    ss = ss[:a.n]
    name = os.path.basename(rel)
    kinds = {"intervalgraph.py": ["interval"], "intervaldigraph.py": ["interval"], "intervaltree.py": ["interval"],
             "impulsegraph.py": ["impulse"], "impulsedigraph.py": ["impulse"], "snapshotgraph.py": ["snap"],
             "snapshotdigraph.py": ["snap"], "count_temporal_motif.py": ["motif"]}[name]
    print(len(ss), "mutants", flush=True)
    for k in range(a.procs):
        wd = "/tmp/mut/w%d" % k
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        subprocess.check_call(["cp", "-a", "/repo", wd + "/repo"])
    import queue
    free = queue.Queue()
    for k in range(a.procs):
        free.put(k)

    def one(s):
        k = free.get()
        try:
            return run((k, rel, src, s, kinds, a.traces, a.seed))
        except Exception as ex:
            return dict(line=s[0], what=s[5], new=s[4][:80], old="", caught=["harness " + repr(ex)])
        finally:
            free.put(k)
    tot = dead = 0
    with concurrent.futures.ThreadPoolExecutor(a.procs) as ex, open(a.out, "w") as f:
        for r in ex.map(one, ss):
            if r is None:
                dead += 1
                continue
            tot += 1
            f.write(json.dumps(r) + "\n")
            f.flush()
            if not r["caught"]:
                print(json.dumps(r), flush=True)
    print("killed by tests or broken:", dead, "survive the tests:", tot, flush=True)


if __name__ == "__main__":
    main()
