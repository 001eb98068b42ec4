#!/usr/bin/env python3
"""Mutation search for gaps: single-edit mutants of one source file that import and pass the repository's tests are run through the checks.

mutate.py FILE(relative to safe_autonomy_dynamics) CHECKS(comma separated, in order) [--only SUBSTR] [--sample N] [--seed S] [--jobs J]
Prints one line per mutant: tests (killed by the repository's tests), Cxx (the check that caught it), SURVIVED.
Works in scratch copies under /tmp/mut; nothing is recorded. Survivors are for a person to judge (equivalent or a gap).
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import random
import re
import shutil
import subprocess as sp
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCR = "/tmp/mut"
ENV = {**os.environ, "PIP_NO_INDEX": "1", "JAX_PLATFORMS": "cpu", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_NOSHRINK": "1"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult, ast.Mod: ast.Mult}
NAMES = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "tan": "sin", "floor": "ceil", "any": "all", "all": "any", "abs": "float", "zeros": "ones", "ones": "zeros", "float32": "float64"}


def doc(body):
    return body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)


def mutants(src):
    """(description, mutated source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0].value) for n in nodes if hasattr(n, "body") and isinstance(n.body, list) and doc(n.body)}
    ann = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                ann |= {id(x) for x in ast.walk(a) if not (isinstance(x, ast.Constant) and isinstance(x.value, str))}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))

    def emit(i, what, fn):
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        r = fn(m)
        if r is not None and r is not m:
            for p in ast.walk(t):
                for f, v in ast.iter_fields(p):
                    if v is m:
                        setattr(p, f, r)
                    elif isinstance(v, list):
                        for k, e in enumerate(v):
                            if e is m:
                                v[k] = r
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
        except Exception:  # pylint: disable=broad-except
            return None
        line = getattr(nodes[i], "lineno", 0)
        return f"{line}: {what} | {ast.unparse(nodes[i])[:90]!r}", s

    for i, n in enumerate(nodes):
        if id(n) in ann or id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield emit(i, "compare", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield emit(i, "binop", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield emit(i, "unary removed", lambda m: m.operand)
        if isinstance(n, ast.BoolOp):
            yield emit(i, "and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield emit(i, "not const", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                yield emit(i, "const+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value > 0:
                    yield emit(i, "const-1", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(n.value, float):
                yield emit(i, "const*1.02", lambda m: setattr(m, "value", m.value * 1.02 + (0.01 if m.value == 0 else 0)))
            elif isinstance(n.value, str):
                yield emit(i, "string", lambda m: setattr(m, "value", m.value + "_"))
        if isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            yield emit(i, "if True", lambda m: setattr(m, "test", ast.Constant(True)))
            yield emit(i, "if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) or isinstance(n, ast.Expr):
            yield emit(i, "statement removed", lambda m: ast.Pass())
        if isinstance(n, ast.AugAssign):
            yield emit(i, "aug", lambda m: setattr(m, "op", BIN.get(type(m.op), ast.Add)()))
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            yield emit(i, "name", lambda m: setattr(m, "attr", NAMES[m.attr]))
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            yield emit(i, "name", lambda m: setattr(m, "id", NAMES[m.id]))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy":
                yield emit(i, "copy removed", lambda m: m.func.value)
            for k in range(len(n.keywords)):
                yield emit(i, f"keyword {n.keywords[k].arg} removed", lambda m, k=k: m.keywords.pop(k) and None)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield emit(i, "args swapped", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield emit(i, "return None", lambda m: setattr(m, "value", ast.Constant(None)))


def run(cmd, cwd, env=None, timeout=900):
    try:
        return sp.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=timeout)
    except sp.TimeoutExpired as e:
        return sp.CompletedProcess(cmd, 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else e.stdout or "", "")


def tests(copy_):
    r = run([PY, "-m", "pytest", "test", "-q", "-x", "--deselect", "nothing", "-p", "no:cacheprovider", "--ignore=test/test_simulators/test_entities/test_CWHRotation2dSpacecraft.py", "-W", "ignore"], copy_, {"PYTHONPATH": copy_}, 300)
    return re.search(r"(\d+) passed", r.stdout) and not re.search(r"(failed|error)", r.stdout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--inner", default="4")
    ap.add_argument("--notests", action="store_true")
    a = ap.parse_args()
    rel = os.path.join("safe_autonomy_dynamics", a.file)
    src = open(os.path.join("/repo", rel)).read()
    base = ast.unparse(ast.parse(src))
    ms, seen = [], {base}
    for m in mutants(src):
        if m and m[1] not in seen and a.only in m[0]:
            seen.add(m[1])
            ms.append(m)
    if a.sample and len(ms) > a.sample:
        random.Random(a.seed).shuffle(ms)
        ms = ms[:a.sample]
    print(f"# {a.file}: {len(ms)} mutants", flush=True)
    copies = threading.local()
    made = []

    def one(m):
        if not hasattr(copies, "d"):
            copies.d = os.path.join(SCR, f"{os.getpid()}-{threading.get_ident()}")
            os.makedirs(SCR, exist_ok=True)
            sp.run(["cp", "-a", "/repo", copies.d], check=True)
            made.append(copies.d)
        d = copies.d
        with open(os.path.join(d, rel), "w") as f:
            f.write(m[1])
        if run([PY, "-B", "-c", "import " + rel[:-3].replace("/", ".")], d, {"PYTHONPATH": d}).returncode:
            return "import", m[0]
        if not a.notests and not tests(d):
            return "tests", m[0]
        for c in a.checks.split(","):
            r = run([os.path.join(V, "check"), c, "--jobs", a.inner], V, {"VERIF_REPO": d, "VERIF_SEED": "1"})
            if r.returncode == 1:
                return c, m[0]
            if r.returncode:
                return f"{c} rc={r.returncode}", m[0]
        return "SURVIVED", m[0]

    count = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for f in cf.as_completed([ex.submit(one, m) for m in ms]):
            k, what = f.result()
            count[k] = count.get(k, 0) + 1
            if k not in ("import", "tests"):
                print(f"{k:10s} {a.file}:{what}", flush=True)
    print("#", a.file, count, flush=True)
    for d in made:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
