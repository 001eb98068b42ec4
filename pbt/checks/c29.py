"""C29 F-16 low-level controller."""
import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.checks import c28
from pbt.core import Sub, expect_raises, fail, near, same, vec

ASSUMPTIONS = ["gains and trim point are those of the pinned commit", "the throttle reference is added to the trim throttle (as in AeroBench)"]


@st.composite
def state16(draw):
    """from exactly at trim to far off"""
    style = draw(st.sampled_from(["trim", "near", "near", "far", "wild"]))
    trim = list(f16ref.TRIM_X) + [0.0] * 3
    if style == "trim":
        return trim
    if style == "near":
        k = draw(st.sampled_from([1e-3, 1e-2, 0.1]))
        return [t + k * draw(gen.fl(-1, 1)) for t in trim]
    x = draw(c28.state()) + [draw(gen.fl(-3, 3)) for _ in range(3)]
    if style == "wild":
        x[13:] = [draw(gen.fl(-1e3, 1e3)) for _ in range(3)]
    return x


@st.composite
def refs(draw):
    return [draw(st.one_of(st.just(0.0), gen.fl(-2, 7))), draw(st.one_of(st.just(0.0), gen.fl(-3, 3))), draw(st.one_of(st.just(0.0), gen.fl(-1, 1))),
            draw(st.one_of(gen.fl(0, 1), gen.fl(-1, 2), st.just(0.0), st.sampled_from([0.8605, -0.1395])))]


@st.composite
def cases(draw):
    return {"calls": [{"x": draw(state16()), "r": draw(refs()), "form": draw(st.sampled_from(["array", "list"])), "hold": draw(st.sampled_from(c28.HOLD)), "extra": draw(st.integers(0, 2)), "m": [draw(gen.fl(-9, 9)) for _ in range(3)]}
                      for _ in range(draw(st.integers(1, 4)))]}


def make():
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    return LowLevelController()


def check(case, rec):
    ctl = make()
    kept = []
    for c in case["calls"]:
        x = c28.hold(c["x"] + [5.5] * c["extra"], c["hold"])
        r = c28.hold(c["r"], c["hold"]) if c["form"] == "array" else list(c["r"])
        x0 = x.copy()
        out = ctl.get_u_deg(r, x)
        if not same(x, x0) or not same(r, c["r"]):
            fail("the controller modified its inputs", state_before=x0, state_after=x, reference=r)
        dev, exp, raw = f16ref.llc(c["r"], x0)
        got_dev, u = vec(out[0], 8, "deviation"), vec(out[1], 4, "command")
        if not near(got_dev, dev, 1e-12 * (1 + np.abs(dev))):
            fail("the controller's deviation from trim is wrong", state=x0, got=got_dev, expected=dev)
        scale = 1 + np.abs(dev).max() * 400
        if not near(u, exp, 1e-12 * scale):
            fail("command is not trim + saturated feedback", state=x0, reference=c["r"], got=u, expected=exp, unsaturated=raw)
        if np.any(u < f16ref.U_LO) or np.any(u > f16ref.U_HI):
            fail("a surface or the throttle leaves its limits", got=u)
        if same(x0[:16], list(f16ref.TRIM_X) + [0.0] * 3) and not any(c["r"]) and not same(u, f16ref.TRIM_U):
            fail("at equilibrium without references the equilibrium command is expected", got=u)
        nz, ps, nyr = c["m"]
        d = vec(ctl.get_integrator_derivatives(r, nz, ps, nyr), 3, "integrator rates")
        if not near(d, [nz - c["r"][0], ps - c["r"][1], nyr - c["r"][2]], 1e-12 * 20):
            fail("integrator rates are not measured minus reference", reference=c["r"], measured=c["m"], got=d)
        if ctl.get_num_integrators() != 3:
            fail("three integrators expected", got=ctl.get_num_integrators())
        for a, v in kept:
            if not same(a, v):
                fail("an earlier result changed", was=v, now=a)
        kept += [(out[0], got_dev), (out[1], u)]
        if rec is not None:
            rec.nt(bool(np.any(dev != 0)))
            rec.label("saturated" if np.any(raw != exp) else "linear")
        # the caller may use the returned arrays as scratch
        if c["extra"] == 1:
            kept = kept[:-2]
            out[0][...] = 1e9
            out[1][...] = 1e9
    # a fresh controller gives the same answers: nothing was accumulated
    c = case["calls"][0]
    if not near(make().get_u_deg(np.array(c["r"]), np.array(c["x"], dtype=float))[1], f16ref.llc(c["r"], c["x"])[1], 1e-9):
        fail("a new controller is affected by calls on an earlier one", state=c["x"], reference=c["r"])


NAMES = ["ThrottleMin", "ElevatorMinDeg", "AileronMinDeg", "RudderMinDeg"]


@st.composite
def limit_cases(draw):
    """control limits of one controller set to other values"""
    lo = [draw(st.one_of(st.just(v), gen.fl(v * 1.5 - .5, v / 2))) for v in f16ref.U_LO]
    hi = [draw(st.one_of(st.just(v), gen.fl(v / 2, v * 2))) for v in f16ref.U_HI]
    return {"lo": [float(v) for v in lo], "hi": [float(v) for v in hi], "calls": [{"x": draw(state16()), "r": draw(refs())} for _ in range(draw(st.integers(1, 3)))]}


def check_limits(case, rec):
    ctl, other = make(), make()
    for nm, lo, hi in zip(NAMES, case["lo"], case["hi"]):
        setattr(ctl.ctrlLimits, nm, lo)
        setattr(ctl.ctrlLimits, nm.replace("Min", "Max"), hi)
    for c in case["calls"]:
        dev, exp, raw = f16ref.llc(c["r"], c["x"])
        own = np.minimum(np.maximum(raw, case["lo"]), case["hi"])
        tol = 1e-12 * (1 + np.abs(dev).max() * 400)
        u = vec(ctl.get_u_deg(np.array(c["r"]), np.array(c["x"], dtype=float))[1], 4, "command")
        if not near(u, own, tol):
            fail("command is not saturated at the controller's own limits", low=case["lo"], high=case["hi"], state=c["x"], reference=c["r"], got=u, expected=own, unsaturated=raw)
        if not near(other.get_u_deg(np.array(c["r"]), np.array(c["x"], dtype=float))[1], exp, tol):
            fail("another controller is affected by this one's limits", low=case["lo"], high=case["hi"])
        rec.nt(not near(own, exp, 1e-9))


@st.composite
def lin_cases(draw):
    return {"i": draw(st.sampled_from([1, 2, 6, 7, 8, 13, 14, 15])), "d": draw(gen.fl(-0.02, 0.02)), "j": draw(st.sampled_from([0, 3, 4, 5, 9, 10, 11, 12])), "e": draw(gen.fl(-100, 100))}


def check_lin(case, rec):
    """near trim the feedback is linear in each fed-back state and blind to the others"""
    ctl = make()
    trim = np.array(list(f16ref.TRIM_X) + [0.0] * 3)
    z = np.zeros(4)
    u = lambda x: np.array(ctl.get_u_deg(z, x)[1], dtype=float)  # noqa: E731
    a, b, c = trim.copy(), trim.copy(), trim.copy()
    a[case["i"]] += case["d"]
    b[case["i"]] -= case["d"]
    c[case["j"]] += case["e"]
    if not near(u(a) + u(b), 2 * f16ref.TRIM_U, 1e-9):
        fail("feedback is not linear about trim", state=case["i"], deviation=case["d"], up=u(a), down=u(b))
    if not same(u(c), f16ref.TRIM_U):
        fail("a state that is not fed back changes the command", state=case["j"], deviation=case["e"], got=u(c))
    rec.nt(case["d"] != 0)
    rec.label(str(case["i"]))


@st.composite
def closed_cases(draw):
    return {"name": "q_" + draw(st.text(alphabet="abcxyz", min_size=1, max_size=5)), "where": draw(st.sampled_from(["controller", "limits"])), "gain": draw(st.sampled_from(["new", "", "OLD"]))}


def check_closed(case, rec):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    ctl = make()
    obj = ctl if case["where"] == "controller" else ctl.ctrlLimits
    expect_raises(TypeError, lambda: setattr(obj, case["name"], 1), "a new attribute on a closed object")
    expect_raises((AssertionError, ValueError), lambda: LowLevelController(case["gain"]), f"gain set {case['gain']!r}")
    rec.nt()


SUBS = [
    Sub("feedback", cases, check, 3000, 40000, "1-4 calls on one controller; non-trivial: off trim", shards=3),
    Sub("own_limits", limit_cases, check_limits, 800, 8000, "one controller with other control limits beside an untouched one; non-trivial: the command differs from the default one", shards=2),
    Sub("linearity", lin_cases, check_lin, 800, 8000, "perturbations about trim; non-trivial: non-zero"),
    Sub("closed", closed_cases, check_closed, 100, 500, "closed objects and unknown gain sets; all non-trivial"),
]
