"""C26 F-16 engine and air data."""
import importlib

import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.core import Sub, fail, near, num

ASSUMPTIONS = ["below sea level the engine tables are held at 0.01 ft, as in the library", "table values are those of the pinned commit"]
LOW = "safe_autonomy_dynamics.external.aerobench.lowlevel."


def lib(name):
    return getattr(importlib.import_module(LOW + name), name)


def cmp(name, args, tol=1e-9, extra=0.0):
    got, exp = lib(name)(*args), getattr(f16ref, name)(*args)
    g, e = np.array([num(v, name) for v in np.atleast_1d(got)]), np.atleast_1d(np.array(exp, dtype=float))
    if g.shape != e.shape or not near(g, e, tol * np.maximum(1e-3, np.abs(e)) + extra):
        fail(f"{name} is not the published relation", args=args, got=got, expected=exp)
    return g


@st.composite
def air_cases(draw):
    return {"v": draw(st.one_of(gen.fl(0, 3000), gen.fl(0, 50))), "h": draw(st.one_of(gen.fl(-5000, 90000, 0, 35000, 34999, 35001), st.sampled_from([35000.0, 34999.998, 35000, 0, 10000])))}


def check_air(case, rec):
    v, h = case["v"], case["h"]
    m, q = cmp("adc", (v, h), 1e-10)
    m2, q2 = lib("adc")(2 * v, h)
    if not near(m2, 2 * m, 1e-9 * m) or not near(q2, 4 * q, 1e-9 * q):
        fail("Mach is not proportional to speed, or dynamic pressure to its square", v=v, h=h, got=(m2, q2), single=(m, q))
    rec.nt(v > 0 and h != 0)
    rec.label("stratosphere" if h >= 35000 else "troposphere")


@st.composite
def engine_cases(draw):
    pw = st.one_of(gen.fl(0, 100, 50, 25, 75, 40, 60), st.sampled_from([50.0, 49.99999, 50.00001, 0.0, 100.0, 10.0, 35.0, 15.0]))
    return {"th": draw(st.one_of(gen.fl(0, 1, .77), st.sampled_from([0.77, 0.7700001, 0.7699999, 1.0, 0, 1]))), "p3": draw(pw), "p1": draw(pw), "dp": draw(st.one_of(gen.fl(-100, 100, 25, 50), gen.fl(24, 51)))}


def check_engine(case, rec):
    g = cmp("tgear", (case["th"], ), 1e-12)
    if not 0 <= g[0] <= 100 + 1e-9:
        fail("commanded power leaves 0..100", throttle=case["th"], got=g)
    cmp("rtau", (case["dp"], ), 1e-10)
    d = cmp("pdot", (case["p3"], case["p1"]), 1e-10)
    # power moves towards a target on the same side as the command
    if case["p1"] > max(case["p3"], 0) and case["p3"] < 50 and not d[0] > 0:
        fail("power does not rise towards a higher command", power=case["p3"], command=case["p1"], rate=d)
    rec.nt(case["p3"] != case["p1"])
    rec.label("ab" if case["p1"] >= 50 else "dry", "from-ab" if case["p3"] >= 50 else "from-dry")


@st.composite
def thrust_cases(draw):
    off = st.one_of(st.just(0.0), st.sampled_from([1e-9, 0.5, 1.0]), st.integers(1, 999).map(lambda k: k / 1000))
    return {"power": draw(st.one_of(gen.fl(0, 100, 50), st.sampled_from([0.0, 49.9999, 50.0, 100.0, 50]))), "th": draw(off), "tm": draw(off), "out": draw(st.booleans()), "fh": draw(gen.fl(0, 40000)), "fm": draw(gen.fl(0, 0.5))}


def check_thrust(case, rec):
    hs = [h + case["th"] * 1e4 for h in f16ref.ALT[:-1]] + [5e4]
    ms = [m + case["tm"] * 0.2 for m in f16ref.MACH[:-1]] + [1.0]
    if case["out"]:
        hs = [-case["fh"] / 8, 0.0, 5e4 + case["fh"]] + hs[1:2]
        ms = [1.0 + case["fm"], 0.0] + ms[1:2]
    for h in hs:
        for m in ms:
            cmp("thrust", (case["power"], h, float(m)), 1e-9, 0.01 if h < 0 else 1e-6)
    rec.nt(0 < case["th"] < 1 or case["out"])
    rec.label("afterburner" if case["power"] >= 50 else "dry", "beyond" if case["out"] else "inside")


SUBS = [
    Sub("air_data", air_cases, check_air, 6000, 40000, "speed and altitude; non-trivial: both non-zero"),
    Sub("engine", engine_cases, check_engine, 6000, 40000, "throttle gearing, power lag and its branches; non-trivial: power differs from command"),
    Sub("thrust", thrust_cases, check_thrust, 4000, 30000, "each case evaluates all cells of the thrust tables at one offset and power, or beyond the edges; non-trivial: off the grid", shards=3),
]
