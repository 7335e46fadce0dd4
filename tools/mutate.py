"""Mutation campaign against the checks (development aid, not a check).

  mutate.py OUT.jsonl FILE[:PIDS] ...   [--seconds N] [--jobs 8] [--limit N]

Every mutant is a scratch copy of /repo/src with one AST node changed; each of
the given properties is searched for a while in one process, and the result
says which properties noticed."""
import argparse
import ast
import copy
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add],
       ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
NAMES = {"append": None, "zeros": "ones", "any": "all", "all": "any",
         "min": "max", "max": "min", "logical_and": "logical_or",
         "unique": "sort", "argmax": "argmin", "ceil": "floor",
         "invert": "array", "copy": "asarray", "union1d": "intersect1d",
         "ones": "zeros", "cos": "sin"}


def mutants(tree):
    """Yields (description, mutated tree)."""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Name) and \
                n.value.func.id == "print":
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for m in ast.walk(n):
                skip.add(m)

    def build(i, f):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        g = f(n, t)
        if g is False:
            return None
        return ast.fix_missing_locations(t)

    def replace(t, old, new):
        for n in ast.walk(t):
            for field, v in ast.iter_fields(n):
                if v is old:
                    setattr(n, field, new)
                    return True
                if isinstance(v, list) and any(x is old for x in v):
                    k = [x is old for x in v].index(True)
                    v[k] = new
                    return True
        return False

    for i, n in enumerate(nodes):
        if n in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                yield (ln, "cmp %s->%s" % (type(n.ops[0]).__name__,
                                           op.__name__),
                       build(i, lambda m, t, op=op: m.ops.__setitem__(
                           0, op())))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for op in BIN.get(type(n.op), []):
                yield (ln, "op %s->%s" % (type(n.op).__name__, op.__name__),
                       build(i, lambda m, t, op=op: setattr(m, "op", op())))
            if isinstance(n.op, ast.Mod) and isinstance(n, ast.BinOp):
                yield (ln, "drop mod", build(
                    i, lambda m, t: replace(t, m, m.left)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,
                                                            ast.Not)):
            if not (isinstance(n.operand, ast.Constant) and False):
                yield (ln, "drop unary", build(
                    i, lambda m, t: replace(t, m, m.operand)))
        if isinstance(n, ast.BoolOp):
            o = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield (ln, "boolop", build(
                i, lambda m, t, o=o: setattr(m, "op", o())))
            for k in range(len(n.values)):
                yield (ln, "drop operand %d" % k, build(
                    i, lambda m, t, k=k: replace(
                        t, m, m.values[1 - k] if len(m.values) == 2 else
                        ast.BoolOp(m.op, m.values[:k] + m.values[k + 1:]))))
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) \
                and n.value is not None:
            if isinstance(n.value, bool):
                yield (ln, "flip bool", build(
                    i, lambda m, t: setattr(m, "value", not m.value)))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    yield (ln, "const %d->%d" % (n.value, n.value + d),
                           build(i, lambda m, t, d=d: setattr(
                               m, "value", m.value + d)))
        if isinstance(n, ast.If):
            yield (ln, "if true", build(i, lambda m, t: setattr(
                m, "test", ast.Constant(True))))
            yield (ln, "if false", build(i, lambda m, t: setattr(
                m, "test", ast.Constant(False))))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Break,
                          ast.Continue)):
            if isinstance(n, ast.Expr) and not isinstance(
                    n.value, ast.Call):
                continue
            yield (ln, "drop statement", build(
                i, lambda m, t: replace(t, m, ast.Pass())))
        if isinstance(n, ast.Attribute) and NAMES.get(n.attr):
            yield (ln, "%s->%s" % (n.attr, NAMES[n.attr]), build(
                i, lambda m, t: setattr(m, "attr", NAMES[m.attr])))
        if isinstance(n, ast.Attribute) and n.attr == "T":
            yield (ln, "drop .T", build(
                i, lambda m, t: replace(t, m, m.value)))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == "copy" and n.args:
            yield (ln, "drop copy", build(
                i, lambda m, t: replace(t, m, m.args[0])))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                and n.func.id == "range" and len(n.args) >= 1:
            yield (ln, "range one less", build(
                i, lambda m, t: m.args.__setitem__(
                    min(1, len(m.args) - 1), ast.BinOp(
                        m.args[min(1, len(m.args) - 1)], ast.Sub(),
                        ast.Constant(1)))))


def run_one(job):
    src, rel, text, pids, seconds, first = job
    tmp = tempfile.mkdtemp(prefix="mut_")
    out = {}
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(tmp, "src"),
                        ignore=shutil.ignore_patterns("__pycache__",
                                                      "*.egg-info"))
        with open(os.path.join(tmp, rel), "w") as f:
            f.write(text)
        for pid in pids:
            e = dict(os.environ, VERIF_REPO=tmp, OMP_NUM_THREADS="1",
                     OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
                     PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run(
                    [PY, "-s", os.path.join(VERIF, "tools", "search_one.py"),
                     pid, str(seconds.get(pid, seconds["*"]))], env=e,
                    capture_output=True, text=True, timeout=300, cwd=VERIF)
                out[pid] = [r.returncode, r.stdout[-300:] +
                            (r.stderr[-200:] if r.returncode == 2 else "")]
            except subprocess.TimeoutExpired:
                out[pid] = [3, "timeout"]
            if first and out[pid][0] == 1:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("targets", nargs="+")
    ap.add_argument("--seconds", type=float, default=5)
    ap.add_argument("--slow", type=float, default=30)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--first", action="store_true",
                    help="stop at the first property that notices")
    ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--limit", type=int, default=10 ** 9)
    a = ap.parse_args()
    sec = {"*": a.seconds}
    for p in ("C01", "C02", "C03", "C04", "C20", "C21", "C23", "C24",
              "C25"):
        sec[p] = a.slow
    jobs = []
    for t in a.targets:
        rel, pids = t.split(":")
        path = os.path.join(REPO, "src/permaviss", rel)
        with open(path) as f:
            text = f.read()
        tree = ast.parse(text)
        base = ast.unparse(tree)
        seen = set()
        for ln, what, m in mutants(tree):
            if m is None:
                continue
            try:
                new = ast.unparse(m)
            except Exception:
                continue
            h = hashlib.sha1(new.encode()).hexdigest()
            if new == base or h in seen:
                continue
            seen.add(h)
            jobs.append((ln, what, rel, new, pids.split(","),
                         text.splitlines()[ln - 1].strip()))
    random.Random(0).shuffle(jobs)
    jobs = jobs[a.skip:a.limit]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        def go(j):
            ln, what, rel, new, pids, line = j
            r = run_one((None, os.path.join("src/permaviss", rel), new, pids,
                         sec, a.first))
            return {"file": rel, "line": ln, "what": what, "src": line,
                    "res": r}
        for k, r in enumerate(ex.map(go, jobs)):
            out.write(json.dumps(r) + "\n")
            out.flush()
            if k % 50 == 0:
                print(k, flush=True)


if __name__ == "__main__":
    sys.exit(main())
