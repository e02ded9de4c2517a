"""Mutation run over a scratch copy of /repo: which single edits do the checks miss?

python3 tools/mutate.py OUT.jsonl [--files GLOB] [--workers N] [--sample N]
Development aid; no check uses it."""
import argparse
import ast
import concurrent.futures as cf
import copy
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = "C13 C14 C15 C16 C17 C10 C12 C02 C06 C09 C04 C18 C01 C19 C20 C05 C03 C11 C08 C07".split()
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.Mult: ast.Add, ast.Mod: ast.FloorDiv}


def mutants(tree):
    """(line, what, function that edits a copy in place)"""
    nodes = list(ast.walk(tree))
    for k, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)

        def at(f, k=k):
            def g():
                t = copy.deepcopy(tree)
                f(list(ast.walk(t))[k])
                return t
            return g
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    yield ln, "cmp %s->%s" % (type(o).__name__, CMP[type(o)].__name__), at(lambda x, i=i, o=o: x.ops.__setitem__(i, CMP[type(o)]()))
        if isinstance(n, ast.BoolOp):
            yield ln, "and/or", at(lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                yield ln, "drop operand %d" % i, at(lambda x, i=i: x.values.pop(i))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield ln, "drop not", at(lambda x: setattr(x, "op", ast.UAdd()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield ln, "bin %s" % type(n.op).__name__, at(lambda x: setattr(x, "op", BIN[type(x.op)]()))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            yield ln, "const %d+1" % n.value, at(lambda x: setattr(x, "value", x.value + 1))
            if n.value > 0:
                yield ln, "const %d-1" % n.value, at(lambda x: setattr(x, "value", x.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield ln, "bool", at(lambda x: setattr(x, "value", not x.value))
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            yield ln, "if True", at(lambda x: setattr(x, "test", ast.Constant(True)))
            yield ln, "if False", at(lambda x: setattr(x, "test", ast.Constant(False)))
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                if n.keywords[i].arg in ("help", "description", "metavar"):
                    continue
                yield ln, "drop keyword %s" % n.keywords[i].arg, at(lambda x, i=i: x.keywords.pop(i))
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
                yield ln, "min/max", at(lambda x: setattr(x.func, "id", "max" if x.func.id == "min" else "min"))
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "int", "set") and len(n.args) == 1:
                yield ln, "drop %s()" % n.func.id, at(lambda x: (setattr(x, "func", ast.Name("_id", ast.Load()))))
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                yield ln, "drop element %d" % i, at(lambda x, i=i: x.elts.pop(i))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.For, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield s.lineno, "delete %s" % type(s).__name__, at(lambda x, fld=fld, i=i: getattr(x, fld).__setitem__(i, ast.copy_location(ast.Pass(), getattr(x, fld)[i])))
                    if i + 1 < len(b) and not isinstance(n, (ast.ClassDef, ast.Module)) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                        def sw(x, fld=fld, i=i):
                            l = getattr(x, fld)
                            l[i], l[i + 1] = l[i + 1], l[i]
                        yield s.lineno, "swap with next", at(sw)


def relevant():
    out = {}
    for p in ORDER:
        d = json.load(open(os.path.join(ROOT, "evidence", p + ".json")))
        out[p] = [f.split(" ")[0].rsplit(":", 1) for f in d["coverage"]["functions_analysed"]]
    return out


def spans(tree):
    return [(n.lineno, n.end_lineno) for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def job(rel, line, what, src, rv, span, nj):
    tmp = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.pyc"))
        with open(os.path.join(r, rel), "w") as f:
            f.write(src)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r)
        t = subprocess.run([sys.executable, "-m", "unittest", "-q", "tests.issue_7.test", "tests.test_basic", "tests.test_item"], cwd=r, env=env, capture_output=True, text=True, timeout=60)
        if t.returncode:
            return "tests", ""
        # functions of the unchanged file that hold the line; outside of functions everything is relevant
        inside = [s for s in span if s[0] <= line <= s[1]]
        for p in ORDER:
            if inside and not any(f == rel and any(s[0] <= int(l) <= s[1] and abs(int(l) - s[0]) <= 2 for s in inside) for f, l in rv[p]):
                continue
            env = dict(os.environ, HSA_REPO=r, HSA_EVIDENCE=os.path.join(tmp, "ev"), VERIF_TIER="quick")
            env.pop("PYTHONPATH", None)
            try:
                c = subprocess.run([sys.executable, "-m", "hsa.run", p, "--first", "--jobs", str(nj)], cwd=ROOT, env=env, capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                continue
            if c.returncode == 1 and "VIOLATION" in c.stdout:
                return p, c.stdout.strip().split("\n")[1:4]
            if c.returncode not in (0, 1):
                return "error " + p, c.stdout[-300:] + c.stderr[-300:]
            if "UNDECIDED" in c.stdout:
                last = "undecided " + p
        return "MISSED", ""
    except subprocess.TimeoutExpired:
        return "tests", "timeout"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="*")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--sample", type=int, default=0)
    a = ap.parse_args()
    rv = relevant()
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(l)["id"]) for l in open(a.out)}
    work = []
    for dp, dn, fn in os.walk(os.path.join(REPO, "hrdc")):
        for f in sorted(fn):
            rel = os.path.relpath(os.path.join(dp, f), REPO)
            if not f.endswith(".py") or (rel.startswith("hrdc/usage/") and f not in ("usage.py",)) or not fnmatch.fnmatch(rel, a.files):
                continue
            text = open(os.path.join(REPO, rel)).read()
            tree = ast.parse(text)
            seen = {}
            for line, what, g in mutants(tree):
                seen[(line, what)] = k = seen.get((line, what), 0) + 1
                work.append(((rel, line, what, k), g, spans(tree)))
    random.Random(5).shuffle(work)
    if a.sample:
        work = work[:a.sample]
    work = [x for x in work if x[0] not in done]
    print(len(work), "mutants", flush=True)
    lock = threading.Lock()
    f = open(a.out, "a")

    def one(x):
        mid, g, sp = x
        try:
            src = ast.unparse(ast.fix_missing_locations(g())) + "\n"
            if "_id(" in src:
                src = "_id = lambda x: x\n" + src
            compile(src, "x", "exec")
        except Exception as e:
            return
        r, info = job(mid[0], mid[1], mid[2], src, rv, sp, a.jobs)
        with lock:
            f.write(json.dumps({"id": mid, "result": r, "info": info}) + "\n")
            f.flush()
    with cf.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, work))


main()
