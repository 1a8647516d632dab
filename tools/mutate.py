#!/opt/venv/bin/python
"""Mutation survey: mutate.py FILE CHECK[,CHECK...] [--every N] [--offset K] [--only OP]

Applies one small syntactic change at a time to FILE (relative to /repo) in a scratch copy and runs the checks on it; prints the
mutants no check reports. A survivor is either equivalent, outside every property, or a gap. Not part of any check.
"""
import argparse
import ast
import copy
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
NAME = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "zeros": "ones", "argmax": "argmin", "any": "all", "all": "any",
        "mean": "median", "eigh": "eigh"}


def mutants(tree):
    for node in ast.walk(tree):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and all(isinstance(x, ast.stmt) for x in v):
                for i, st in enumerate(v):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.If, ast.Assign)):
                        def undo(v=v, i=i, st=st):
                            v[i] = st
                        v[i] = ast.copy_location(ast.Pass(), st)
                        yield st.lineno, "drop: " + ast.unparse(st).split("\n")[0][:80]
                        undo()
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            o = node.ops[0]
            node.ops[0] = CMP[type(o)]()
            yield node.lineno, "cmp: " + ast.unparse(node)[:90]
            node.ops[0] = o
        if isinstance(node, (ast.BinOp, ast.AugAssign)) and type(node.op) in BIN:
            o = node.op
            node.op = BIN[type(o)]()
            yield node.lineno, "op: " + ast.unparse(node)[:90]
            node.op = o
        if isinstance(node, ast.BoolOp):
            o = node.op
            node.op = ast.Or() if isinstance(o, ast.And) else ast.And()
            yield node.lineno, "bool: " + ast.unparse(node)[:90]
            node.op = o
        if isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
            o = node.value
            for n in ([not o] if type(o) is bool else [o + 1, o - 1] if type(o) is int else [o * 1.05 if o else 0.01, o * 100 if o else -1.0]):
                node.value = n
                yield node.lineno, f"const: {o!r} -> {n!r}"
            node.value = o
        if isinstance(node, ast.Attribute) and node.attr in NAME:
            o = node.attr
            node.attr = NAME[o]
            yield node.lineno, "name: " + ast.unparse(node)
            node.attr = o
        if isinstance(node, ast.Name) and node.id in NAME and isinstance(node.ctx, ast.Load):
            o = node.id
            node.id = NAME[o]
            yield node.lineno, "name: " + o
            node.id = o
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
            keep = copy.copy(node.__dict__)
            inner = node.func.value
            node.func, node.args = ast.Name("_same", ast.Load()), [inner]
            yield node.lineno, "nocopy: " + ast.unparse(inner)
            node.__dict__.update(keep)
            node.args = []
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--tests", default="", help="test files to run on survivors, to leave out those the test suite sees")
    ap.add_argument("--lines", default="")
    a = ap.parse_args()
    wt = f"/tmp/mutate-{os.getpid()}"
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    path = f"{wt}/{a.file}"
    src = open(path).read()
    tree = ast.parse(src)
    env = {**os.environ, "VERIF_REPO": wt, "PYTHONDONTWRITEBYTECODE": "1", "VERIF_FIRST": "1", "OPENBLAS_NUM_THREADS": "1"}
    texts = []
    lo, hi = map(int, a.lines.split("-")) if a.lines else (0, 10 ** 9)
    for line, what in mutants(tree):
        if what.startswith(a.only) and lo <= line <= hi:
            texts.append((line, what, ast.unparse(ast.fix_missing_locations(tree)) + "\n\ndef _same(x):\n    return x\n"))
    seen, n, caught = set(), 0, 0
    try:
        for i, (line, what, text) in enumerate(texts):
            if i % a.every != a.offset or text in seen:
                continue
            seen.add(text)
            open(path, "w").write(text)
            n += 1
            if a.tests:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", *a.tests.split(",")], cwd=wt,
                                   env={**env, "PYTHONPATH": wt}, capture_output=True, text=True)
                if t.returncode != 0:
                    continue
            rcs = []
            for c in a.checks.split(","):
                p = subprocess.run([PY, "/verif/run.py", c], env=env, capture_output=True, text=True)
                rcs.append(p.returncode)
                if p.returncode != 0:
                    break
            if all(r == 0 for r in rcs):
                print(f"SURVIVES {a.file}:{line} {what}", flush=True)
            elif rcs[-1] != 1:
                print(f"rc={rcs[-1]} {a.file}:{line} {what}", flush=True)
            else:
                caught += 1
        print(f"{a.file}: {n} mutants of {len(texts)}, {caught} reported", flush=True)
    finally:
        subprocess.run(["rm", "-rf", wt])


if __name__ == "__main__":
    main()
