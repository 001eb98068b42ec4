"""C28 F-16 equations of motion."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.core import Sub, fail, near, num, same, vec

ASSUMPTIONS = ["pitch stays 0.2 degrees away from vertical and angle of attack / sideslip below 85 degrees (the equations are singular there)", "aerodynamic data are those of the pinned commit"]
NAMES = ["vt", "alpha", "beta", "phi", "theta", "psi", "P", "Q", "R", "pos_n", "pos_e", "alt", "pow"]


@st.composite
def state(draw, wide=True):
    """13 states over the flight envelope"""
    d = math.radians
    al = draw(st.one_of(gen.fl(d(-10), d(45)), gen.fl(d(-20), d(60)) if wide else gen.fl(d(-5), d(25))))
    be = draw(st.one_of(gen.fl(d(-30), d(30)), st.just(0.0), gen.fl(d(-5), d(5)), gen.fl(d(-50), d(50)) if wide else st.just(0.0)))
    rate = gen.fl(-2, 2)
    return [draw(gen.logf(150, 1500)), al, be, draw(st.one_of(gen.fl(-math.pi, math.pi), st.just(0.0))), draw(st.one_of(gen.fl(d(-87), d(87)), gen.fl(d(-89.8), d(89.8), d(89.8), d(-89.8)), gen.fl(d(91), d(180)), gen.fl(d(-180), d(-91))) if wide else gen.fl(d(-87), d(87))), draw(st.one_of(gen.fl(-4, 4), gen.fl(-4, 4), gen.fl(-300, 300))), draw(rate), draw(rate), draw(rate),
            draw(gen.fl(-1e5, 1e5)), draw(gen.fl(-1e5, 1e5)), draw(st.one_of(gen.fl(0, 60000, 35000, 10000), gen.fl(0, 5000), gen.fl(-3000, 0), gen.fl(50000, 90000))), draw(gen.fl(0, 100, 50))]


@st.composite
def controls(draw):
    return [draw(gen.fl(0, 1, .77)), draw(gen.fl(-25, 25)), draw(gen.fl(-21.5, 21.5)), draw(gen.fl(-30, 30))]


def compare(got, exp, x, what):
    """xd against reference, with the scale of its terms"""
    vt, om = x[0], np.max(np.abs(x[6:9]))
    sc = np.array([100 + om * vt] + [(100 + om * vt) / vt] * 2 + [1 + om / abs(math.cos(x[4]))] * 3 + [1 + om] * 3 + [vt] * 3 + [100])
    sc = np.maximum(sc, np.abs(exp))
    if not near(got, exp, 1e-9 * sc):
        bad = [n for n, g, e, s in zip(NAMES, got, exp, sc) if not abs(g - e) <= 1e-9 * s]
        fail(f"{what}: derivatives of {bad} do not satisfy the flight equations", state=x, got=got, expected=exp)


HOLD = ["own", "slice", "strided", "readonly", "reversed"]


def hold(x, how):
    """the same numbers as an array of their own, a part of a larger one, a strided or reversed view, or read-only memory"""
    n = len(x)
    if how == "slice":
        return np.concatenate([[7.0], x, [8.0, 9.0, 10.0]])[1:n + 1]
    if how == "strided":
        b = np.full(2 * n, 5.0)
        b[::2] = x
        return b[::2]
    if how == "reversed":
        return np.array(x[::-1], dtype=float)[::-1]
    a = np.array(x, dtype=float)
    if how == "readonly":
        a.flags.writeable = False
    return a


def run(x, u, model, adj):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
    out = subf16_model(x, u, model) if adj is None else subf16_model(x, u, model, adj)
    if len(out) != 5:
        fail("five results expected", got=out)
    return vec(out[0], 13, "derivative"), [num(v, n) for v, n in zip(out[1:], ("Nz", "Ny", "az", "ay"))]


@st.composite
def cases(draw):
    return {"x": draw(state()), "u": draw(controls()), "model": draw(st.sampled_from(["stevens", "morelli"])), "adj": draw(st.sampled_from([None, True, False])), "form": draw(st.sampled_from(["array", "list", "tuple"])), "hold": draw(st.sampled_from(HOLD)),
            "dpos": [draw(gen.fl(-1e6, 1e6)) for _ in range(2)], "turn": draw(gen.fl(-7, 7))}


def check(case, rec):
    x = hold(case["x"], case["hold"])
    u = {"array": np.array(case["u"], dtype=float), "list": list(case["u"]), "tuple": tuple(case["u"])}[case["form"]]
    x0 = x.copy()
    got, out = run(x, u, case["model"], case["adj"])
    if not same(x, x0) or not same(u, case["u"]) or got is x:
        fail("evaluating the derivative modified its arguments", state_before=x0, state_after=x, control=u)
    adj = case["adj"] is not False
    exp, *eo = f16ref.subf16(x0, case["u"], case["model"], adj)
    compare(got, exp, x0, case["model"])
    sc = 100 + np.abs(eo) + 15 * np.max(np.abs(exp[6:9]))
    if not near(out, eo, 1e-9 * sc):
        fail("load factors / pilot-station accelerations do not follow from the forces", state=x0, control=case["u"], adjust_cy=case["adj"], got=np.array(out), expected=np.array(eo))
    # speed over ground
    if not near(np.linalg.norm(got[9:12]), x[0], 1e-9 * x[0]):
        fail("ground velocity does not have the airspeed's magnitude", state=x, got=got[9:12])
    # position does not matter; heading only turns the ground velocity
    y = x0.copy()
    y[9:11] += case["dpos"]
    g2, o2 = run(y, u, case["model"], case["adj"])
    if not same(g2, got) or not same(o2, out):
        fail("the derivative depends on horizontal position", state=y, got=g2, expected=got)
    y = x0.copy()
    y[5] += case["turn"]
    g3, o3 = run(y, u, case["model"], case["adj"])
    c, s = math.cos(case["turn"]), math.sin(case["turn"])
    e3 = got.copy()
    e3[9:11] = c * got[9] - s * got[10], s * got[9] + c * got[10]
    if not near(g3, e3, 1e-9 * (np.abs(e3) + np.array([0] * 9 + [x[0]] * 2 + [0, 0])) + 1e-12) or not near(o3, out, 1e-9 * sc):
        fail("turning the heading changes more than the direction of the ground velocity", state=y, got=g3, expected=e3)
    rec.nt(case["x"][2] != 0 and case["x"][6] != 0 and case["x"][7] != 0)
    rec.label(case["model"], f"adjust={case['adj']}")


@st.composite
def sym_cases(draw):
    x, u = draw(state()), draw(controls())
    return {"x": x, "u": u}


def check_sym(case, rec):
    """the tabulated model without lateral motion stays in its plane (wings level, no sideslip, no lateral controls), apart from the engine's gyroscopic moment"""
    x, u = np.array(case["x"], dtype=float), list(case["u"])
    x[[2, 3, 6, 8]] = 0.0
    u[2] = u[3] = 0.0
    got, out = run(x, u, "stevens", False)
    # the only lateral influence left: spinning engine with pitch rate
    he = 160.0
    ex = np.array([0.0, 0.0, 1.642e-6 * he * x[7], 1.587e-5 * he * x[7]])
    if not near([got[2], got[3], got[6], got[8]], ex, 1e-9) or not near(out[1], 0, 1e-12) or not near(got[5], 0, 1e-12):
        fail("symmetric flight does not stay symmetric", state=x, control=u, got=got, side=out)
    if not near(got[4], x[7], 1e-12):
        fail("pitch angle rate is not the pitch rate in wings-level flight", got=got[4], expected=x[7])
    rec.nt(x[7] != 0)


@st.composite
def bad_cases(draw):
    return {"x": draw(state()), "u": draw(controls()), "how": draw(st.sampled_from(["model", "short-x", "long-x", "short-u", "long-u"]))}


def check_bad(case, rec):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
    from pbt.core import expect_raises
    x, u, m = np.array(case["x"], dtype=float), np.array(case["u"], dtype=float), "stevens"
    if case["how"] == "model":
        m = "unknown"
    elif case["how"].endswith("x"):
        x = x[:12] if case["how"].startswith("short") else np.append(x, [0.0] * 3)
    else:
        u = u[:3] if case["how"].startswith("short") else np.append(u, 0.0)
    expect_raises((AssertionError, ValueError), lambda: subf16_model(x, u, m), case["how"])
    rec.nt()
    rec.label(case["how"])


SUBS = [
    Sub("equations", cases, check, 6000, 80000, "random flight states vs vector-form equations, invariance under position and heading; non-trivial: sideslip, roll rate and pitch rate non-zero", shards=5),
    Sub("symmetry", sym_cases, check_sym, 1000, 10000, "longitudinal flight stays longitudinal; non-trivial: pitching"),
    Sub("rejected", bad_cases, check_bad, 100, 500, "wrong sizes or model name; all non-trivial"),
]
