"""C27 Morelli polynomials."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.core import Sub, fail, near, vec

ANG = list(f16ref.CLAMP)
NAMES = ["Cx", "Cy", "Cz", "Cl", "Cm", "Cn"]
ASSUMPTIONS = ["coefficients are those of the pinned commit"]


def run(a):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
    return vec(Morellif16(*a), 6, "Morelli coefficients")


@st.composite
def args(draw):
    ang = []
    for k in ANG:
        lo, hi = (math.radians(v) for v in f16ref.CLAMP[k])
        ang.append(draw(st.one_of(gen.fl(lo, hi), gen.fl(lo, hi), gen.fl(2 * lo, 2 * hi), st.sampled_from([0.0, lo, hi, lo - 1e-3, hi + 1e-3]), gen.fl(lo - 0.05, lo + 0.05), gen.fl(hi - .05, hi + .05))))
    rates = [draw(gen.fl(-3, 3)) for _ in range(3)]
    geo = [draw(st.sampled_from([11.32, 5.0, 20.0])), draw(st.sampled_from([30.0, 12.5, 60.0])), draw(gen.logf(50, 2000)), draw(gen.fl(0.2, 0.5, 0.35)), draw(gen.fl(0.2, 0.5, 0.35))]
    return ang + rates + geo


@st.composite
def cases(draw):
    return {"a": draw(args()), "which": draw(st.integers(0, 4)), "far": draw(gen.fl(0, 3)), "k": draw(gen.fl(-2, 2)), "r2": [draw(gen.fl(-3, 3)) for _ in range(3)]}


def check(case, rec):
    a = [float(v) for v in case["a"]]
    got, exp = run(a), f16ref.morelli(*a)
    if not near(got, exp, 1e-9 * (1 + np.abs(exp))):
        bad = [n for n, g, e in zip(NAMES, got, exp) if not abs(g - e) <= 1e-9 * (1 + abs(e))]
        fail(f"Morelli coefficients {bad} are not the published polynomials", args=a, got=got, expected=exp)
    # beyond the range = at its end
    i = case["which"]
    lo, hi = (math.radians(v) for v in f16ref.CLAMP[ANG[i]])
    for end, d in ((lo, -1), (hi, 1)):
        at, past = list(a), list(a)
        at[i], past[i] = end, end + d * case["far"]
        if not near(run(at), run(past), 1e-12 * (1 + np.abs(run(at)))):
            fail(f"{ANG[i]} beyond its range is not treated as the range's end", args=past, got=run(past), expected=run(at))
    # linear (affine) in the body rates
    zero, b, c = list(a), list(a), list(a)
    zero[5:8] = [0.0] * 3
    b[5:8] = case["r2"]
    c[5:8] = [x + case["k"] * y for x, y in zip(a[5:8], case["r2"])]
    z = run(zero)
    if not near(run(c) - z, (got - z) + case["k"] * (run(b) - z), 1e-9 * (1 + np.abs(got) + np.abs(run(b)) + np.abs(run(c)))):
        fail("coefficients are not linear in the body rates", args=a, rates=case["r2"], factor=case["k"])
    # center of gravity shifts pitch by Cz and yaw by -Cy * chord/span
    s = list(a)
    s[11], s[12] = 0.35, 0.35
    base = run(s)
    d = a[12] - a[11]
    ex = base + d * np.array([0, 0, 0, 0, base[2], -base[1] * a[8] / a[9]])
    if not near(got, ex, 1e-9 * (1 + np.abs(ex))):
        fail("center of gravity offset does not shift the moments as it should", args=a, got=got, expected=ex)
    rec.nt(all(v != 0 for v in a))
    rec.label("cg" if d else "no-cg", "clamped" if any(not lo <= v <= hi for v, (lo, hi) in zip(a, [tuple(math.radians(w) for w in f16ref.CLAMP[k]) for k in ANG])) else "inside")


SUBS = [Sub("polynomials", cases, check, 6000, 80000, "random arguments vs reference, clamping, linearity, center of gravity; non-trivial: no zero argument", shards=4)]
