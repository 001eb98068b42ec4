"""C25 F-16 aerodynamic tables."""
import importlib

import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.core import Sub, fail, near, num, vec

ASSUMPTIONS = ["the table values are those of the pinned commit (AeroBench's copy of the published tables)"]
LOW = "safe_autonomy_dynamics.external.aerobench.lowlevel."
# function -> (second axis, alpha axis)
FNS = {"cx": f16ref.EL, "cm": f16ref.EL, "cl": "abs", "cn": "abs", "dlda": f16ref.BETA, "dldr": f16ref.BETA, "dnda": f16ref.BETA, "dndr": f16ref.BETA, "cz": None, "dampp": None}


def lib(name):
    return getattr(importlib.import_module(LOW + name), name)


def call(name, a, x):
    """(library value, reference value) of a coefficient at (alpha, other)"""
    f, r = lib(name), getattr(f16ref, name)
    if name == "dampp":
        return vec(f(a), 9, "dampp"), r(a)
    if name == "cz":
        return num(f(a, x, x * 0.5), "cz"), r(a, x, x * 0.5)
    return num(f(a, x), name), r(a, x)


def offsets():
    """position inside a cell: on its lower knot, just beside, anywhere"""
    return st.one_of(st.just(0.0), st.sampled_from([1e-9, 1 - 1e-9, 1e-4, 0.5, 1.0]), st.integers(1, 9999).map(lambda k: k / 10000))


@st.composite
def cases(draw):
    return {"fn": draw(st.sampled_from(sorted(FNS))), "ta": draw(offsets()), "tb": draw(offsets()), "out": draw(st.booleans()), "fa": draw(gen.fl(0, 60)), "fb": draw(gen.fl(0, 120)),
            "neg": draw(st.booleans())}


def check(case, rec):
    """the whole table at one offset inside its cells, and beyond its edges"""
    fn = case["fn"]
    second = FNS[fn]
    cols = f16ref.ALPHA
    al = [c + case["ta"] * 5 for c in cols[:-1]] + [cols[-1]]
    if second is None:
        others = [-28.0 * case["tb"], 0.0, 17.0 * case["tb"]] if fn == "cz" else [0.0]
    elif second == "abs":
        others = [b + case["tb"] * 5 for b in f16ref.ABSBETA[:-1]] + [30.0]
        if case["neg"]:
            others = [-b for b in others]
    else:
        w = second[1] - second[0]
        others = [b + case["tb"] * w for b in second[:-1]] + [second[-1]]
    if case["out"]:
        al = [-10.0 - case["fa"], 45.0 + case["fa"]] + al[3:5]
        if second is not None:
            edge = 24.0 if second is f16ref.EL else 30.0
            others = [-edge - case["fb"], edge + case["fb"]] + others[1:3]
    for x in others:
        for a in al:
            got, exp = call(fn, float(a), float(x))
            if not near(got, exp, 1e-9 * (1 + np.max(np.abs(exp)))):
                fail(f"{fn} is not the linear interpolant of its table", alpha=a, other=x, got=got, expected=exp)
    rec.nt(0 < case["ta"] < 1 or case["out"])
    rec.label(fn, "beyond" if case["out"] else ("grid" if case["ta"] in (0, 1) and case["tb"] in (0, 1) else "inside"))


@st.composite
def point_cases(draw):
    return {"fn": draw(st.sampled_from(sorted(FNS))), "a": draw(st.one_of(gen.fl(-15, 50, *f16ref.ALPHA), gen.fl(-80, 120))),
            "x": draw(st.one_of(gen.fl(-35, 35, *f16ref.BETA, *f16ref.EL), gen.fl(-120, 120)))}


def check_point(case, rec):
    fn, a, x = case["fn"], case["a"], case["x"]
    got, exp = call(fn, a, x)
    if not near(got, exp, 1e-9 * (1 + np.max(np.abs(exp)))):
        fail(f"{fn} is not the linear interpolant of its table", alpha=a, other=x, got=got, expected=exp)
    got2, _ = call(fn, np.float64(a), np.float64(x))
    if not near(got, got2, 0):
        fail(f"{fn} depends on the number type of its argument", alpha=a, other=x, got=got2, expected=got)
    if fn in ("cl", "cn"):
        neg, _ = call(fn, a, -x)
        if not near(neg, -got, 1e-12 * (1 + abs(got))) or (x == 0 and got != 0):
            fail(f"{fn} is not odd in sideslip", alpha=a, beta=x, got=got, mirrored=neg)
    rec.nt(True)
    rec.label(fn)


@st.composite
def cy_cases(draw):
    v = st.tuples(gen.fl(-90, 90), gen.fl(-60, 60), gen.fl(-60, 60)).map(list)
    return {"p": draw(v), "q": draw(v), "k": draw(gen.fl(-3, 3))}


def check_cy(case, rec):
    cy = lib("cy")
    p, q, k = np.array(case["p"]), np.array(case["q"]), case["k"]
    got = num(cy(*p), "cy")
    if not near(got, f16ref.cy(*p), 1e-12 * (1 + abs(got))):
        fail("cy is not the published linear form", args=p, got=got, expected=f16ref.cy(*p))
    if not near(cy(*(p + k * q)), got + k * cy(*q), 1e-9):
        fail("cy is not linear", p=p, q=q, k=k)
    rec.nt(bool(np.all(p)))


@st.composite
def cz_cases(draw):
    return {"a": draw(gen.fl(-15, 50, *f16ref.ALPHA)), "b": draw(gen.fl(-40, 40)), "e": draw(gen.fl(-40, 40))}


def check_cz(case, rec):
    a, b, e = case["a"], case["b"], case["e"]
    got, exp = num(lib("cz")(a, b, e), "cz"), f16ref.cz(a, b, e)
    if not near(got, exp, 1e-10 * (1 + abs(exp))) or not near(lib("cz")(a, -b, e), got, 1e-12 * (1 + abs(exp))):
        fail("cz is not table * (1 - (beta/57.3)^2) - 0.19 elevator/25", alpha=a, beta=b, elevator=e, got=got, expected=exp)
    rec.nt(b != 0 and e != 0)


SUBS = [
    Sub("tables", cases, check, 3000, 20000, "each case evaluates one whole table at one offset in all of its cells, or beyond its edges; non-trivial: not on grid points", shards=4),
    Sub("points", point_cases, check_point, 8000, 60000, "single random points, oddness, number types; all non-trivial", shards=2),
    Sub("side_force", cy_cases, check_cy, 1600, 8000, "linearity of the side force; non-trivial: no zero argument"),
    Sub("normal_force", cz_cases, check_cz, 1600, 8000, "normal force; non-trivial: sideslip and elevator non-zero"),
]
