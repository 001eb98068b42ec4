"""Shipped dynamics models built directly, with limits, rate limits and wrap centers of the caller's choosing."""
import importlib
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import fail, near, vec

CLASS = {
    "point": "safe_autonomy_dynamics.cwh.point_model:CWHDynamics", "rot2d": "safe_autonomy_dynamics.cwh.rotational_model:CWHRotation2dDynamics",
    "sixdof": "safe_autonomy_dynamics.cwh.sixdof_model:SixDOFDynamics", "sun": "safe_autonomy_dynamics.cwh.sun_model:SunDynamics",
    "dub2": "safe_autonomy_dynamics.dubins:Dubins2dDynamics", "dub3": "safe_autonomy_dynamics.dubins:Dubins3dDynamics",
    "int1": "safe_autonomy_dynamics.integrators:IntegratorDynamics", "int2": "safe_autonomy_dynamics.integrators:IntegratorDynamics",
    "int3": "safe_autonomy_dynamics.integrators:IntegratorDynamics",
}
KEYS = {
    "point": ["m", "n"], "rot2d": ["m", "inertia", "ang_acc_limit", "ang_vel_limit", "n", "use_jax"], "sixdof": ["m", "inertia_diag", "ang_acc_limit", "ang_vel_limit", "n", "body_frame_thrust"],
    "sun": ["n"], "dub2": [], "dub3": ["g"], "int1": ["m", "damping"], "int2": ["m", "damping"], "int3": ["m", "damping"],
}
# components whose value matters up to whole turns at most
PERIODIC = {"point": [], "rot2d": [2], "sixdof": [], "sun": [0], "dub2": [0, 1, 2], "dub3": [0, 1, 2, 3, 4, 5], "int1": [0], "int2": [0, 1], "int3": [0, 1, 2]}
LIMITS = {"smin": "state_min", "smax": "state_max", "dmin": "state_dot_min", "dmax": "state_dot_max"}


def wide(x, n, inf):
    return np.full(n, float(x)) if np.ndim(x) == 0 else np.array([inf if v is None else v for v in x], dtype=float)


class Model(ref.RefModel):
    """reference of a dynamics model: as the entity's, but only with the limits the model itself declares"""

    def __init__(self, d):
        kw = dict(d["kw"])
        if d["k"] in ("rot2d", "sixdof"):  # reaction wheels are the entity's matter
            kw.update(acc_limit_wheel=1e30, vel_limit_wheel=1e30)
        super().__init__({"k": d["k"], "kw": kw})
        self.method = d["method"]
        if d["k"] in ("dub2", "dub3"):
            self.smin, self.smax = np.full(self.n, -math.inf), np.full(self.n, math.inf)
            self.wrap = [None] * self.n
        for key in LIMITS:
            if d.get(key) is not None:
                setattr(self, key, wide(d[key], self.n, -math.inf if key.endswith("min") else math.inf))
        if d.get("wrap") is not None:
            self.wrap = list(d["wrap"])


def build(d, **over):
    kw = {k: v for k, v in d["kw"].items() if k in KEYS[d["k"]]}
    if "inertia_diag" in kw:
        kw["inertia_matrix"] = np.diag(ref.as3(kw.pop("inertia_diag")))
    if d["k"] == "rot2d" and d["jax"]:
        kw["use_jax"] = True
    if d["k"].startswith("int"):
        kw["mode"] = d["k"][3] + "d"
    n = len(ref.LAYOUT[d["k"]])
    for key, name in LIMITS.items():
        if d.get(key) is not None:
            kw[name] = float(d[key]) if np.ndim(d[key]) == 0 else wide(d[key], n, -math.inf if key.endswith("min") else math.inf)
    if d.get("wrap") is not None:
        kw["angle_wrap_centers"] = np.array([math.nan if c is None else c for c in d["wrap"]])
    kw["integration_method"] = d["method"]
    if d.get("samples"):
        kw["trajectory_samples"] = d["samples"]
    kw.update(over)
    mod, cls = CLASS[d["k"]].split(":")
    return getattr(importlib.import_module(mod), cls)(**kw)


@st.composite
def cases(draw, methods=("RK45", "RK45", "Euler"), jax=True, limits=True, wrap="periodic", kinds=tuple(ref.KINDS) + ("rot2d", "sixdof", "rot2d"), nmax=3, samples=False, caught=True):
    """{"d": dynamics, "s": state, "steps": [{"u", "dt"}]}: limits around where the state is and goes"""
    sp = draw(gen.spec(kinds=list(kinds), methods=("RK45", ), jax=False))
    k = sp["k"]
    kw = {a: v for a, v in sp["kw"].items() if a in KEYS[k]}
    d = {"k": k, "kw": kw, "method": draw(st.sampled_from(list(methods))), "jax": bool(jax and k == "rot2d" and draw(st.integers(0, 2)) == 0)}
    if d["jax"]:
        kw["use_jax"] = True
    em = ref.RefModel(sp)
    s = em.s0.copy()
    if k == "dub3":
        s[4:6] = np.clip(s[4:6], -1.2, 1.2)
    cap = {"sixdof": 4.0, "dub3": 10.0}.get(k, 20.0)
    if k == "dub3":  # without limits of its own the bank must stay off the vertical
        cap = 0.5 / 0.2
    steps = []
    for _ in range(draw(st.integers(1, nmax))):
        u = [gen.place(draw(gen.frac()), max(lo, -3.0 if k != "dub3" else -0.2), min(hi, 3.0 if k != "dub3" else 0.2)) for lo, hi in zip(em.umin, em.umax)]
        if k in ("dub2", "dub3"):
            u[-1] = draw(gen.fl(-20, 20))
        steps.append({"u": u, "dt": min(draw(gen.logf(0.02, 20)), cap)})
    mdl = Model(d)
    rate = np.abs(mdl.raw(s, np.array(steps[0]["u"]))) + 1e-3
    ch = rate * steps[0]["dt"]
    n = mdl.n
    if wrap and draw(st.booleans()):
        d["wrap"] = [draw(st.sampled_from([None, 0.0, math.pi, -2.0, 10.0])) if draw(st.booleans()) else None for _ in range(n)]
        d["wrap"] = [c if np.isinf(mdl.smin[i]) and (i in PERIODIC[k] or wrap == "any") else None for i, c in enumerate(d["wrap"])]
    wraps = d.get("wrap") or mdl.wrap
    if k == "sixdof":
        wraps = d.get("wrap") or [None] * n
    free = [w is None for w in wraps]
    C = st.sampled_from([0.0, 0.3, 1.5, 1.5, 50.0] + ([-0.3] if caught else []))
    if limits and draw(st.integers(0, 3)):
        lo = [ref.f32(s[i] - draw(C) * ch[i]) if free[i] and draw(st.booleans()) else None for i in range(n)]
        hi = [ref.f32(s[i] + draw(C) * ch[i]) if free[i] and draw(st.booleans()) else None for i in range(n)]
        for i in range(n):
            if lo[i] is not None and not lo[i] + 0.1 * ch[i] < mdl.smax[i]:
                lo[i] = None
            if hi[i] is not None and not max(lo[i] if lo[i] is not None else -math.inf, mdl.smin[i]) + 0.1 * ch[i] < hi[i]:
                hi[i] = None
        if k in ("dub2", "dub3"):  # a speed to fly with
            if lo[-1] is None or lo[-1] < 1:
                lo[-1] = max(1.0, ref.f32(s[-1] - 50))
            if hi[-1] is not None and hi[-1] < lo[-1] + 1:
                hi[-1] = None
        if k == "sixdof":
            lo[3:7], hi[3:7] = [None] * 4, [None] * 4
        top = ref.f32(float(np.max(np.abs(s))) * draw(st.sampled_from([0.5, 0.9, 1.1, 3.0])) + draw(st.sampled_from([0.01, 1.0])))
        if draw(st.integers(0, 2)):
            if draw(st.integers(0, 4)):
                d["smin"] = lo
            if draw(st.integers(0, 4)):
                d["smax"] = hi
        elif k not in ("sixdof", "dub2", "dub3") or top > 5 and (k == "sixdof" or top > 20 + np.max(s[3:])):  # one number for all components
            if draw(st.integers(0, 4)):
                d["smin"] = -top
            if draw(st.integers(0, 4)):
                d["smax"] = top * draw(st.sampled_from([1.0, 0.75]))
            if "smin" in d and draw(st.integers(0, 2)) == 0:  # a number for one side, an array for the other
                d["smax"] = [None if v is None or v < -top + 0.1 * ch[i] else v for i, v in enumerate(hi)]
            if d.get("wrap"):
                d["wrap"] = [None] * n
    if limits and draw(st.booleans()):
        if draw(st.integers(0, 3)) == 0:
            r = float(np.max(rate))
            d["dmin"], d["dmax"] = -ref.f32(r * draw(st.sampled_from([0.3, 0.7, 2.0]))), ref.f32(r * draw(st.sampled_from([0.3, 0.7, 2.0])))
        else:
            if draw(st.integers(0, 3)):
                d["dmin"] = [-ref.f32(rate[i] * draw(st.sampled_from([0.3, 0.7, 2.0]))) if draw(st.booleans()) else None for i in range(n)]
            if draw(st.integers(0, 3)):
                d["dmax"] = [ref.f32(rate[i] * draw(st.sampled_from([0.3, 0.7, 2.0]))) if draw(st.booleans()) else None for i in range(n)]
    if samples and d["method"] == "RK45" and not d["jax"]:
        d["samples"] = draw(st.integers(1, 8))
    return {"d": d, "s": s.tolist(), "steps": steps}


def run(case, dyn=None):
    """yields (model, dynamics, state, command, dt, next state, reported derivative)"""
    mdl = Model(case["d"])
    dyn = dyn or build(case["d"])
    s = np.array(case["s"])
    for stp in case["steps"]:
        u = np.array(stp["u"], dtype=float)
        nxt, dot = dyn.step(stp["dt"], s.copy(), u.copy())
        nxt, dot = vec(nxt, mdl.n, "next state"), vec(dot, mdl.n, "state derivative")
        yield mdl, dyn, s, u, stp["dt"], nxt, dot
        s = nxt


def label(case, rec, mdl):
    d = case["d"]
    rec.label(mdl.kind, d["method"] + ("-jax" if d["jax"] else ""), *[k for k in list(LIMITS) + ["wrap"] if d.get(k) is not None])


def check_limits(case, rec):
    hit = False
    for mdl, _, s, u, dt, got, _ in run(case):
        mag = np.maximum(np.where(np.isfinite(mdl.smax), np.abs(mdl.smax), 0), np.where(np.isfinite(mdl.smin), np.abs(mdl.smin), 0))
        tol = (1e-6 if mdl.jax else 1e-12) * mag
        if np.any(got < mdl.smin - tol) or np.any(got > mdl.smax + tol):
            fail("state left the limits its dynamics model was given", model=case["d"]["k"], start=s, command=u, dt=dt, got=got, state_min=mdl.smin, state_max=mdl.smax)
        hit |= bool(np.any(np.abs(got - mdl.smin) <= tol) or np.any(np.abs(got - mdl.smax) <= tol))
    rec.nt(hit)
    label(case, rec, mdl)


def check_wrap(case, rec):
    """against the same model with wrapping turned off"""
    d = case["d"]
    plain = build(d, angle_wrap_centers=np.full(len(ref.LAYOUT[d["k"]]), math.nan))
    turned = False
    for mdl, _, s, u, dt, got, _ in run(case):
        raw = vec(plain.step(dt, s.copy(), u.copy())[0], mdl.n, "unwrapped state")
        for i, c in enumerate(mdl.wrap):
            tol = (3e-6 if mdl.jax else 1e-12) * (abs(raw[i]) + abs(c or 0) + 4)
            if c is None:
                if abs(got[i] - raw[i]) > 1e-3 * tol:
                    fail(f"{mdl.names[i]} has no wrap centre but was changed", got=got, unwrapped=raw, centers=mdl.wrap)
                continue
            k = (got[i] - raw[i]) / (2 * math.pi)
            if not abs(got[i] - c) <= math.pi + tol or not abs(k - round(k)) * 2 * math.pi <= tol:
                fail(f"{mdl.names[i]} is not the unwrapped value less whole turns within pi of {c}", got=got, unwrapped=raw, centers=mdl.wrap)
            turned |= abs(k) > 0.5
    rec.nt(turned)
    label(case, rec, mdl)


def check_rates(case, rec):
    """derivative at the start and all along a step; adaptive motion is the limited flow"""
    acts = False
    for mdl, dyn, s, u, dt, got, _ in run(case):
        mdl.check_deriv(s, u, vec(dyn.compute_state_dot(0.0, s.copy(), u.copy()), mdl.n, "derivative"), "derivative under given limits")
        if mdl.method != "Euler":
            mdl.check_flow(s, u, dt, got, "motion under given limits")
        acts |= not near(mdl.raw(s, u), mdl.limited(s, u), 1e-9)
    rec.nt(acts)
    label(case, rec, mdl)


def check_dot(case, rec):
    """the derivative handed out with a step is that of its end"""
    told = False
    for mdl, _, s, u, dt, got, dot in run(case):
        if not mdl.jax and (np.any((got <= mdl.smin) & (dot < 0)) or np.any((got >= mdl.smax) & (dot > 0))):
            fail("a component on its limit is reported as moving out", state=got, derivative=dot, state_min=mdl.smin, state_max=mdl.smax)
        w = 1e-6 * np.maximum(np.abs(got), 1e-6)
        if np.any(np.abs(got - mdl.smin) <= w) or np.any(np.abs(got - mdl.smax) <= w):
            rec.label("limited-end")  # final limiting may have moved it there
            continue
        raw = np.abs(mdl.raw(s, u))
        reach = np.abs(s) + 2 * dt * (raw + dt * np.max(raw))
        if any(c is not None and reach[i] > min(-mdl.smin[i], mdl.smax[i]) for i, c in enumerate(mdl.wrap)):
            rec.label("limited-then-wrapped")  # the end before wrapping, at a limit or beyond, no longer shows
            continue
        mdl.check_deriv(got, u, dot, "derivative reported with a step", rel=4e-5 if mdl.jax else 2e-6)
        told |= not near(mdl.limited(s, u), mdl.limited(got, u), 1e-6 * np.max(np.abs(dot)))
    rec.nt(told)
    label(case, rec, mdl)


def check_euler(case, rec):
    for mdl, _, s, u, dt, got, _ in run(case):
        exp, tol = mdl.euler(s, u, dt)
        if tol is None:
            rec.label("edge-skip")
            continue
        if not near(mdl.diff(got, exp), 0, tol):
            fail("Euler step under given limits is not state + dt * limited derivative, limited and wrapped", start=s, control=u, dt=dt, got=got, expected=exp, tolerance=tol)
        rec.nt(not near(mdl.raw(s, u), mdl.limited(s, u), 1e-9) or not near(s + dt * mdl.limited(s, u), got, 1e-3))
    label(case, rec, mdl)
