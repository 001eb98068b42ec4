"""C30 closed-loop F-16."""
import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.checks import c28, c29
from pbt.core import Sub, expect_raises, fail, near, num, same, vec

ASSUMPTIONS = ["the stability-axis roll rate uses the angle of attack measured from trim, and the v2 variant the state derivative, as in AeroBench"]


def run(x, r, ctl, model, v2, kw=True):
    from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
    if model is None:
        out = controlled_f16(x, r, ctl)
    elif v2 is None:
        out = controlled_f16(x, r, ctl, model)
    else:
        out = controlled_f16(x, r, ctl, f16_model=model, v2_integrators=v2) if kw else controlled_f16(x, r, ctl, model, v2)
    return vec(out[0], len(x), "derivative"), vec(out[1], 7, "controls"), num(out[2], "Nz"), num(out[3], "ps"), num(out[4], "Ny+r")


@st.composite
def cases(draw):
    x = draw(st.one_of(c29.state16(), c28.state().map(lambda s: s + [0.0] * 3)))
    return {"x": x, "r": draw(c29.refs()), "model": draw(st.sampled_from([None, "stevens", "morelli"])), "v2": draw(st.sampled_from([None, False, True])), "kw": draw(st.booleans()), "hold": draw(st.sampled_from(c28.HOLD)),
            "dpos": [draw(gen.fl(-1e5, 1e5)), draw(gen.fl(-1e5, 1e5))], "dint": [draw(gen.fl(-5, 5)) for _ in range(3)]}


def check(case, rec):
    ctl = c29.make()
    x, r = c28.hold(case["x"], case["hold"]), c28.hold(case["r"], case["hold"])
    x0, r0 = x.copy(), r.copy()
    got = run(x, r, ctl, case["model"], case["v2"], case["kw"])
    if not same(x, x0) or not same(r, r0):
        fail("evaluating the closed loop modified its inputs", state_before=x0, state_after=x, reference=r)
    model = case["model"] or "morelli"
    v2 = bool(case["v2"]) and case["model"] is not None
    exp = f16ref.controlled(x0, r0, model, v2)
    c28.compare(got[0][:13], exp[0][:13], x0, f"closed loop ({model})")
    sc = 100 + np.abs(exp[0][13:16]) + 15 * np.max(np.abs(exp[0][6:9]))
    if not near(got[0][13:16], exp[0][13:16], 1e-9 * sc):
        fail("integrator rates are not measured minus reference", state=x0, reference=r0, model=model, v2=v2, got=got[0][13:], expected=exp[0][13:])
    if not near(got[1], exp[1], 1e-11 * (1 + np.abs(exp[1]) + np.max(np.abs(x0[[1, 2, 6, 7, 8, 13, 14, 15]])) * 400)):
        fail("reported controls are not throttle, surfaces in radians and references", state=x0, reference=r0, got=got[1], expected=exp[1])
    for nm, g, e in zip(("Nz", "ps", "Ny+r"), got[2:], exp[2:]):
        if not near(g, e, 1e-9 * (np.max(sc) + abs(e))):
            fail(f"reported {nm} is not that of the current state", state=x0, model=model, v2=v2, got=g, expected=e)
    if not near(got[0][13:16], np.array(got[2:]) - r0[:3], 1e-9 * sc):
        fail("integrator rates do not belong to the reported signals", rates=got[0][13:], signals=got[2:], reference=r0)
    # horizontal position influences nothing
    y = x0.copy()
    y[9:11] += case["dpos"]
    g2 = run(y, r, ctl, case["model"], case["v2"])
    if not all(same(a, b) for a, b in zip(got, g2)):
        fail("horizontal position influences the closed loop", state=y, got=g2[0], expected=got[0])
    # integrator values act only through the surfaces: where the commands are equal nothing else changes
    y = x0.copy()
    y[13:] += case["dint"]
    g3 = run(y, r, ctl, case["model"], case["v2"])
    e3 = f16ref.controlled(y, r0, model, v2)
    c28.compare(g3[0][:13], e3[0][:13], y, "closed loop with other integrator values")
    if not near(g3[0][9:12], got[0][9:12], 1e-9 * (1 + x0[0])):
        fail("integrator values change the velocity over ground", got=g3[0][9:12], expected=got[0][9:12])
    rec.nt(bool(np.any(f16ref.llc(r0, x0)[0])) and bool(np.any(r0[:3])))
    rec.label(model, "v2" if v2 else "v1", "saturated" if np.any(f16ref.llc(r0, x0)[2] != f16ref.llc(r0, x0)[1]) else "linear")


@st.composite
def plain_cases(draw):
    return {"x": draw(c29.state16()), "r": draw(c29.refs()), "model": draw(st.sampled_from(["stevens", "morelli"]))}


def check_parts(case, rec):
    """composition of the library's own parts"""
    from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
    ctl = c29.make()
    x, r = np.array(case["x"], dtype=float), np.array(case["r"], dtype=float)
    got = run(x, r, ctl, case["model"], False)
    u = ctl.get_u_deg(r, x)[1]
    xd, nz, ny, _, _ = subf16_model(x[:13].copy(), u, case["model"])
    if not near(got[0][:13], xd, 1e-12 * (1 + np.abs(xd))) or not near(got[2], nz, 1e-12 * (1 + abs(nz))) or not near(got[4], ny + x[8], 1e-12 * (10 + abs(ny))):
        fail("the closed loop is not the open loop under the controller's commands", state=x, reference=r, got=got[0][:13], expected=xd)
    rec.nt(bool(np.any(r)))
    rec.label(case["model"])


@st.composite
def bad_cases(draw):
    return {"x": draw(c29.state16()), "r": draw(c29.refs()), "how": draw(st.sampled_from(["model", "list-state", "refs", "controller"]))}


def check_bad(case, rec):
    from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
    x, r, ctl, m = np.array(case["x"], dtype=float), np.array(case["r"]), c29.make(), "morelli"
    if case["how"] == "model":
        m = "other"
    elif case["how"] == "list-state":
        x = list(case["x"])
    elif case["how"] == "refs":
        r = r[:3]
    else:
        ctl = None
    expect_raises((AssertionError, ValueError, TypeError), lambda: controlled_f16(x, r, ctl, m), case["how"])
    rec.nt()
    rec.label(case["how"])


SUBS = [
    Sub("closed_loop", cases, check, 6000, 40000, "random 16-element states and references vs reference closed loop; non-trivial: off trim with references", shards=5),
    Sub("composition", plain_cases, check_parts, 3000, 15000, "closed loop vs the library's own plant and controller; non-trivial: some reference", shards=2),
    Sub("rejected", bad_cases, check_bad, 200, 500, "wrong arguments; all non-trivial"),
]
