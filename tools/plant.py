#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and records them in /verif/seeded.

plant.py DEFS.py [ID ...]   DEFS.py calls bug(id, property, edits=[(file, old, new), ...], demo=..., needs=..., breaks=...)
plant.py --recheck [ID ...] re-runs the checks of the bugs already recorded
Each bug: demo passes without, fails with the change; package imports; stable tests pass; then the property's quick check is run on it (copy via VERIF_REPO).
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess as sp
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PIP_NO_INDEX": "1", "JAX_PLATFORMS": "cpu", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
BUGS = {}
DEMO_SH = '''#!/bin/bash
# run with cwd = repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS, id
    BUGS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def run(cmd, cwd, env=None, timeout=600):
    return sp.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, timeout=timeout)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_passing"):
        if k in b:
            return b[k]
    return b


def tests_ok(copy):
    r = run([PY, "-m", "pytest", "test", "-q", "-x", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-W", "ignore"], copy, {"PYTHONPATH": copy})
    r = run([PY, "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-W", "ignore"], copy, {"PYTHONPATH": copy})
    m = re.search(r"(\d+) passed", r.stdout)
    f = re.search(r"(\d+) failed", r.stdout)
    return (m and int(m.group(1)) >= 175 and not f), r.stdout[-1500:]


def check(prop, copy, seed=1):
    try:
        r = run([os.path.join(V, "check"), prop], V, {"VERIF_REPO": copy, "VERIF_SEED": str(seed), "VERIF_OUT": copy + ".out"}, timeout=900)
    except sp.TimeoutExpired:
        return "TIMEOUT", ""
    return ("caught" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode}"), r.stdout


def make_copy(i):
    copy = os.path.join(SCR, i)
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sp.run(["cp", "-a", "/repo", copy], check=True)
    sp.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
    return copy


def one(i):
    b = BUGS[i]
    copy = make_copy(i)
    d = os.path.join(SCR, i + ".demo")
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(d + "/demo.py", "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        r = run(["bash", d + "/demo.sh"], copy)
        if r.returncode:
            return i, "BAD demo fails on the unchanged tree: " + r.stdout[-600:]
        for file, old, new in b["edits"]:
            p = os.path.join(copy, "safe_autonomy_dynamics", file)
            s = open(p).read()
            if s.count(old) != 1:
                return i, f"BAD edit matches {s.count(old)} times in {file}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sp.run(["git", "-C", copy, "diff"], stdout=sp.PIPE, text=True, check=True).stdout
        r = run(["bash", d + "/demo.sh"], copy)
        if not r.returncode:
            return i, "BAD demo passes with the change"
        how = r.stdout.strip().splitlines()[-1:] or [""]
        if "SyntaxError" in r.stdout or "ImportError" in r.stdout:
            return i, "BAD " + r.stdout[-300:]
        ok, out = tests_ok(copy)
        if not ok:
            return i, "BAD tests fail: " + out[-700:]
        dst = os.path.join(V, "seeded", i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        with open(dst + "/patch.diff", "w") as f:
            f.write(diff)
        with open(dst + "/meta.json", "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        res, out = check(b["prop"], copy)
        line = next((l for l in out.splitlines() if l.startswith("  [")), "")
        return i, f"{res}  ({how[0][:80]})  {line[:140]}"
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + ".out", ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def recheck(i, seed=1):
    copy = make_copy(i + f"-r{seed}")
    try:
        p = os.path.join(V, "seeded", i)
        r = run(["git", "apply", p + "/patch.diff"], copy)
        if r.returncode:
            return i, "BAD patch does not apply " + r.stdout
        res, out = check(json.load(open(p + "/meta.json"))["property"], copy, seed)
        line = next((l for l in out.splitlines() if l.startswith("  [")), "")
        return i, f"{res} {line[:140]} {out.strip().splitlines()[-1]}"
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + ".out", ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--recheck":
        seed = int(os.environ.get("VERIF_SEED", "1"))
        ids = a[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
        fn = lambda i: recheck(i, seed)  # noqa: E731
    else:
        exec(compile(open(a[0]).read(), a[0], "exec"))
        ids = a[1:] or list(BUGS)
        fn = one
    rec = os.path.join(V, "tools", "planted.json")  # id -> outcome of the last --recheck, for DESIGN.md's table
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for i, res in ex.map(fn, ids):
            print(f"{i:34s} {res}", flush=True)
            if a[0] == "--recheck":
                d = json.load(open(rec)) if os.path.exists(rec) else {}
                m = re.search(r"\[([\w-]+)\]", res)
                d[i] = {"outcome": res.split()[0], "sub": m.group(1) if m else ""}
                json.dump(dict(sorted(d.items())), open(rec, "w"), indent=0)
