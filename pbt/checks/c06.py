"""C06 the sun."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, fail, near, vec

UNIT = {"radian": 1.0, "degree": math.pi / 180, "turn": 2 * math.pi}


@st.composite
def cases(draw):
    kw = {}
    if draw(st.integers(0, 3)):
        kw["n"] = draw(st.one_of(gen.fl(-1, 1), gen.fl(0, 0.01), st.just(0.0)))
    kw["integration_method"] = draw(st.sampled_from(["RK45", "RK45", "Euler"]))
    if draw(st.integers(0, 3)) == 0:
        kw["use_jax"] = True
    steps = [draw(st.one_of(gen.logf(1e-3, 1e4), st.sampled_from([1.0, 10.0]))) for _ in range(draw(st.integers(1, 15)))]
    kinds = ["none", "empty"] if draw(st.booleans()) else ["none", "empty", "array", "list", "dict"]
    return {"kw": kw, "theta": draw(st.one_of(st.none(), gen.fl(-20, 20), gen.fl(-20, 20), gen.fl(-3000, 3000))), "unit": draw(st.sampled_from([None] + list(UNIT))), "steps": steps,
            "actions": [draw(st.sampled_from(kinds)) for _ in steps]}


def check(case, rec):
    import pint
    from safe_autonomy_dynamics.cwh.sun_model import SunEntity
    kw = dict(case["kw"])
    th = 0.0
    if case["theta"] is not None:
        th = case["theta"]
        kw["theta"] = th if case["unit"] is None else pint.get_application_registry().Quantity(th / UNIT[case["unit"]], case["unit"])
    sun = SunEntity(name="sun", **kw)
    n = kw.get("n", ref.N_CW)
    t = 0.0
    mag = abs(th)
    for dt, a in zip(case["steps"], case["actions"]):
        if a in ("none", "empty"):
            sun.step(dt, None if a == "none" else np.array([]))
            t += dt
        else:  # no control: refused, or without effect
            try:
                sun.step(dt, {"array": np.array([0.5]), "list": [-1.0], "dict": {"rate": 0.5}}[a])
                t += dt
            except Exception:  # noqa: BLE001  pylint: disable=broad-except
                rec.label("command-refused")
            rec.label("command-given")
        mag = max(mag, abs(th + n * t))
        ex = th + n * t
        tol = ((3e-6 if not kw.get("use_jax") else 2e-5) * mag + 1e-7) * (1 + len(case["steps"]) // 50)
        got = vec(sun.state, 1, "sun state")[0]
        if not abs(got - ex) <= tol or not abs(float(sun.theta) - got) <= 0:
            fail("sun angle is not theta0 + n t", theta0=th, n=n, t=t, got=got, accessor=sun.theta, expected=ex, tolerance=tol)
        if not t:
            continue
        d = vec(sun.state_dot, 1, "sun rate")[0]
        if not abs(d - n) <= 1e-6 * abs(n) + 1e-12:
            fail("reported rate of the sun is not the mean motion", n=n, got=d)
    rec.nt(n != 0 and len(case["steps"]) > 1)
    rec.label(kw["integration_method"], "jax" if kw.get("use_jax") else "numpy", "unit" if case["unit"] and case["theta"] else "plain")


SUBS = [
    Sub("history", cases, check, 2400, 12000, "random initial angle (any unit), mean motion, method, 1-15 steps; non-trivial: n!=0 and several steps", shards=3),
    Sub("long_run", lambda: gen.long(cases(), 40, 250, keys=("steps", "actions")), check, 50, 1000, "histories cycled over 40-250 steps; non-trivial: as history", shards=2),
]
