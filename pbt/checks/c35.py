"""C35 F-16 helpers: printing, rounding, sign."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, expect_raises, fail, near, same

ASSUMPTIONS = ["printed values have magnitudes below 10000 and are multiples of 1/8, so that every number fits its column (columns of wider numbers may touch: those are printed one column at a time)", "labels contain no blanks"]
LABEL = st.one_of(st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,14}", fullmatch=True), st.from_regex(r"[A-Za-z]", fullmatch=True))


@st.composite
def cases(draw):
    r, c = draw(st.one_of(st.integers(1, 6), st.integers(1, 14))), draw(st.one_of(st.integers(1, 6), st.integers(1, 10)))
    num_ = st.one_of(st.integers(-79999, 79999).map(lambda k: k / 8), st.integers(-99, 99).map(float), st.sampled_from([0.0, 9999.0, -9999.0, 0.125]))
    rows = draw(st.sampled_from(["labels", "labels", "none", "empty list", "wrong"]))
    return {"mat": [[draw(num_) for _ in range(c)] for _ in range(r)], "label": draw(st.one_of(LABEL, st.just("a b c"), st.just(""))), "cols": [draw(LABEL) for _ in range(c)],
            "rows": [draw(LABEL) for _ in range(r + (draw(st.sampled_from([-1, 1, 2])) if rows == "wrong" else 0))] if rows in ("labels", "wrong") else None, "how": rows, "form": draw(st.sampled_from(["list", "array", "vector", "int"]))}


def check(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import printmat
    m = case["mat"]
    form = case["form"] if case["form"] != "vector" or len(m) == 1 else "array"
    arg = {"list": [list(r) for r in m], "array": np.array(m), "vector": np.array(m[0]), "int": [[int(v) for v in r] for r in m]}[form]
    if form == "int":
        m = [[float(int(v)) for v in r] for r in m]
    keep = np.array(arg, dtype=float)
    rows = [] if case["how"] == "empty list" else None if case["rows"] is None or not case["rows"] else " ".join(case["rows"])
    out = io.StringIO()

    def call():
        with contextlib.redirect_stdout(out):
            return printmat(arg, case["label"], rows, " ".join(case["cols"]))

    if case["how"] == "wrong" and case["rows"]:
        expect_raises(AssertionError, call, "matrix with a wrong number of row labels")
        rec.nt()
        rec.label("rejected")
        return
    call()
    if not same(arg, keep):
        fail("printing modified the matrix", before=keep, after=arg)
    lines = [l for l in out.getvalue().split("\n")]
    while lines and not lines[-1].strip():
        lines.pop()
    if not lines or not lines[0].startswith(case["label"]) or lines[0][len(case["label"]):].strip() != "=":
        fail("the first line is not the matrix's label", label=case["label"], output=out.getvalue())
    if len(lines) < 2 or lines[1].split() != case["cols"]:
        fail("the column labels are not printed in order", labels=case["cols"], output=out.getvalue())
    ends = [x.end() for x in re.finditer(r"\S+", lines[1])]
    if len(lines) != 2 + len(m):
        fail("one line per row expected", rows=len(m), output=out.getvalue())
    for i, (l, r) in enumerate(zip(lines[2:], m)):
        toks = l.split()
        if isinstance(rows, str):
            if not toks or toks[0] != case["rows"][i]:
                fail("row label", expected=case["rows"][i], line=l)
            toks = toks[1:]
        try:
            v = [float(t) for t in toks]
        except ValueError:
            fail("values are not numbers", line=l, expected=r)
        if len(v) != len(r) or not near(v, r, [5.01e-5 * 10 ** math.ceil(math.log10(abs(x))) if abs(x) > 0 else 1e-12 for x in r]):
            fail("the printed row is not the matrix's", row=i, got=v, expected=r)
        if [x.end() for x in re.finditer(r"\S+", l)][-len(r):] != ends:
            fail("the numbers do not line up with their column labels", row=i, header=lines[1], line=l)
    rec.nt(len(m) > 1 and len(m[0]) > 1)
    rec.label(form, "row labels" if isinstance(rows, str) else "no row labels")


@st.composite
def column_cases(draw):
    """one column of numbers of any size, not-a-number and infinity among them"""
    n = draw(st.integers(1, 6))
    num_ = st.one_of(st.floats(-1e6, 1e6), st.one_of(st.floats(-1e307, 1e307), st.sampled_from([math.nan, math.inf, -math.inf])), st.tuples(st.floats(-9.99, 9.99), st.integers(-300, 300)).map(lambda a: a[0] * 10.0**a[1]))
    return {"x": [draw(num_) for _ in range(n)], "col": draw(LABEL), "rows": [draw(LABEL) for _ in range(n)] if draw(st.booleans()) else None, "array": draw(st.booleans())}


def check_column(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import printmat
    m = [[x] for x in case["x"]]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        printmat(np.array(m) if case["array"] else m, "m", " ".join(case["rows"]) if case["rows"] else None, case["col"])
    lines = out.getvalue().rstrip().split("\n")[2:]
    if len(lines) != len(m):
        fail("one line per row expected", rows=len(m), output=out.getvalue())
    for x, l in zip(case["x"], lines):
        toks = l.split()
        try:
            v = float(toks[-1])
        except (ValueError, IndexError):
            fail("value is not a number", line=l, expected=x)
        if not (math.isnan(v) if math.isnan(x) else v == x or abs(v - x) <= 6e-5 * abs(x)):
            fail("the printed number is not the matrix's", got=v, expected=x, line=l)
    rec.nt(any(abs(x) > 1e4 or not math.isfinite(x) or 0 < abs(x) < 1e-4 for x in case["x"]))
    rec.label("labels" if case["rows"] else "plain")


def _beside(t):
    """just beside a whole number"""
    k, s, e = t
    return float(np.nextafter(k, s * math.inf)) if e == 16 else k + s * 10.0**-e


@st.composite
def num_cases(draw):
    return {"x": draw(st.one_of(gen.fl(-20, 20), st.floats(-1e9, 1e9), st.floats(-1e300, 1e300), st.tuples(st.integers(-1000, 1000), st.sampled_from([-1, 1]), st.integers(1, 16)).map(_beside), st.integers(-30, 30).map(float), st.sampled_from([0.0, -0.0, 0.5, -0.5, 1.1, -1.1, 0.9999999999, -0.9999999999])))}


def check_num(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import fix, sign
    x = case["x"]
    for v in (x, np.float64(x)):
        if fix(v) != math.trunc(x) or not isinstance(fix(v), int):
            fail("not rounded towards zero to an integer", value=x, got=fix(v))
        e = -1 if x < 0 else 1 if x > 0 else 0
        if sign(v) != e:
            fail("sign", value=x, got=sign(v))
    if sign(int(x)) != (int(x) > 0) - (int(x) < 0):
        fail("sign of an integer", value=int(x), got=sign(int(x)))
    rec.nt(x != math.trunc(x))


SUBS = [
    Sub("printing", cases, check, 5000, 25000, "captured output parsed back; non-trivial: several rows and columns, or rejected", shards=2),
    Sub("any_size", column_cases, check_column, 2000, 12000, "one column of numbers of any magnitude; non-trivial: some very large, very small or not finite"),
    Sub("rounding", num_cases, check_num, 3000, 15000, "truncation and sign; non-trivial: not a whole number"),
]
