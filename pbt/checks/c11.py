"""C11 rate and state limits act throughout a step."""
import numpy as np
from hypothesis import strategies as st

from pbt import dyn, gen, hist, ref, user
from pbt.core import Sub, fail, near, vec

ASSUMPTIONS = ["a limit met inside a single adaptive step may be straddled: up to 90% of the limit's whole effect is allowed there"]


@st.composite
def deriv_cases(draw):
    m = draw(user.model(jax=True, wrap=False))
    if not any(k in m for k in ("smin", "smax", "dmin", "dmax")):
        m["smin"], m["smax"], m["dmin"], m["dmax"] = [-1.0] * m["n"], [1.0] * m["n"], -2.0, 2.0
    big = draw(st.sampled_from([1.0, 1.0, 1.0, 1e4]))
    x = draw(user.states(m))
    r = user.RefUser(m)
    for i in range(m["n"]):  # close to a limit
        if draw(st.integers(0, 3)) == 0:
            lim = draw(st.sampled_from([r.smin[i], r.smax[i]]))
            if np.isfinite(lim):
                x[i] = ref.f32(lim + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([3e-6, 3e-5, 3e-4])))
    return {"m": m, "x": x, "u": [draw(gen.fl(-3, 3)) * big for _ in range(m["nu"])], "t": draw(gen.fl(0, 5))}


def check_deriv(case, rec):
    m = case["m"]
    dyn, r = user.build(m), user.RefUser(m)
    x, u, t = np.array(case["x"]), np.array(case["u"]), case["t"]
    got = vec(dyn.compute_state_dot(t, x.copy(), u.copy()), r.n, "derivative")
    exp = r.limited(t, x, u)
    raw = r.raw(t, x, u)
    sc = np.abs(r.A) @ np.abs(x) + np.abs(r.B) @ np.abs(u) * 1.5 + np.abs(r.c) * (abs(t) + abs(x[0] * u[0]))
    tol = (1e-5 if m["jax"] else 1e-10) * (sc + 1)
    if not near(got, exp, tol):
        fail("derivative is not the equations of motion after rate and state limits", state=x, control=u, t=t, got=got, expected=exp, unlimited=raw,
             state_min=r.smin, state_max=r.smax, rate_min=r.dmin, rate_max=r.dmax)
    acts = bool(np.any(np.abs(exp - raw) > 1e-6))
    rec.nt(acts)
    rec.label(m["type"], "jax" if m["jax"] else "numpy", "limited" if acts else "free")
    if np.any(x < r.smin) or np.any(x > r.smax):
        rec.label("beyond-limit")
    if np.any(x == r.smin) or np.any(x == r.smax):
        rec.label("at-limit")


@st.composite
def entity_deriv_cases(draw):
    sp = draw(gen.spec(kinds=["dub2", "dub3", "rot2d", "sixdof"], jax=True))
    mdl = ref.RefModel(sp)
    s = []
    for i in range(mdl.n):
        lo, hi = mdl.smin[i], mdl.smax[i]
        if np.isfinite(lo):
            w = hi - lo
            s.append(ref.f32(draw(st.sampled_from([lo - 0.1 * w, lo - 1e-3 * w, lo + 1e-3 * w, (lo + hi) / 2, hi - 1e-3 * w, hi + 1e-3 * w, hi + 0.1 * w,
                                            lo + 3e-6 * w, hi - 3e-6 * w, lo - 3e-6 * w, hi + 3e-6 * w]))))
            # exactly at the limit when that is a single-precision number
            if draw(st.booleans()) and ref.f32(lo) == lo and ref.f32(hi) == hi:
                s[-1] = draw(st.sampled_from([lo, hi]))
            if mdl.names[i] == "v":
                s[-1] = max(s[-1], 1.0)
        elif mdl.names[i] in ("q1", "q2", "q3", "q4"):
            s.append(0.5)
        else:
            s.append(draw(gen.fl(-3, 3)))
    return {"spec": sp, "s": s, "u": [draw(gen.frac()) for _ in range(mdl.nu)], "boost": draw(st.sampled_from([1.0, 1.0, 2.0]))}


def check_entity_deriv(case, rec):
    e, mdl = hist.start(case)
    s = np.array(case["s"])
    u = gen.control(mdl, case["u"]) * case["boost"]  # the derivative has no command limits of its own
    got = vec(e.dynamics.compute_state_dot(0.0, s.copy(), u.copy()), mdl.n, "derivative")
    mdl.check_deriv(s, u, got)
    rec.nt(not near(mdl.raw(s, u), mdl.limited(s, u), 1e-9))
    rec.label(mdl.kind, "jax" if mdl.jax else "numpy")


@st.composite
def flow_cases(draw):
    sp = draw(gen.spec(kinds=["dub2", "dub3", "rot2d", "sixdof", "rot2d"]))
    mdl = ref.RefModel(sp)
    for i, nm in enumerate(mdl.names):  # start at, beyond or close to limits
        if np.isfinite(mdl.smin[i]) and draw(st.integers(0, 2)):
            lo, hi = mdl.smin[i], mdl.smax[i]
            w = hi - lo
            v = draw(st.sampled_from([lo, hi, lo + 0.02 * w, hi - 0.02 * w, hi + 0.1 * w, lo - 0.05 * w]))
            sp["init"][nm] = max(ref.f32(v), 1.0) if nm == "v" else ref.f32(v)
    steps = [{"u": [draw(st.one_of(st.sampled_from([1.0, -1.0]), gen.frac())) for _ in range(mdl.nu)], "dt": draw(gen.logf(0.1, 15))} for _ in range(draw(st.integers(1, 3)))]
    return {"spec": sp, "steps": steps}


def check_flow(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        hi = mdl.check_flow(s, u, dt, got, "motion under limits")
        k = mdl.kink(s, u, dt, hi, part=1.0)
        strong = bool(np.any(k > 1e-3 * (mdl.scale(s, u, dt, hi) + 1e-9)))
        rec.nt(strong)
        rec.label(mdl.kind, "limited" if strong else "free")


@st.composite
def chain_cases(draw):
    """double integrator with a speed limit: the distance follows the saturated speed (closed form)"""
    return {"vmax": draw(st.sampled_from([0.5, 1.0, 4.0])), "v0": draw(st.one_of(gen.fl(-1, 1), st.sampled_from([1.0, 1.0, -1.0]))), "a": draw(gen.fl(-4, 4)),
            "dt": draw(gen.logf(0.05, 10)), "amax": draw(st.sampled_from([None, 0.5, 2.0])), "n": draw(st.integers(1, 6)), "jax": draw(st.integers(0, 11)) == 0,
            "xdmax": draw(st.sampled_from([None, None, 0.25]))}


def check_chain(case, rec):
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    vm, a, dt, n = case["vmax"], case["a"], case["dt"], case["n"]
    if case["jax"]:
        n, dt = 1, min(dt, 0.5)
    am = case["amax"] or np.inf
    xd = case["xdmax"] or np.inf
    dyn = BaseLinearODESolverDynamics(A=np.array([[0.0, 1.0], [0.0, 0.0]]), B=np.array([[0.0], [1.0]]), state_min=np.array([-np.inf, -vm]), state_max=np.array([np.inf, vm]),
                                      state_dot_min=np.array([-xd, -am]), state_dot_max=np.array([xd, am]), use_jax=case["jax"],
                                      integration_method="RK45_JAX" if case["jax"] else "RK45")
    x = np.array([0.0, case["v0"] * vm])
    acc = float(np.clip(a, -am, am))
    strong = False
    for i in range(n):
        p0, v0 = x
        x = vec(dyn.step(dt, x.copy(), np.array([a]))[0], 2, "state")
        # saturated speed, then distance of the (rate limited) speed, integrated on a fine grid
        t = np.linspace(0, dt, 4001)
        v = np.clip(v0 + acc * t, -vm, vm)
        d = np.trapz(np.clip(v, -xd, xd), t)
        free = v0 * dt + acc * dt * dt / 2
        steady = abs(v0) >= vm and v0 * acc >= 0 or abs(v[-1]) < 0.97 * vm and abs(v0) < 0.97 * vm
        ve = float(v[-1])
        steady = steady and (xd == np.inf or min(abs(v0), abs(ve)) >= 1.03 * xd and v0 * ve > 0 or max(abs(v0), abs(ve)) < 0.97 * xd)
        tol = (1e-4 if case["jax"] else 1e-6) * (abs(p0) + abs(d) + abs(acc) * dt * dt + 1)
        tv = 1e-5 * vm + 1e-5
        if not steady:  # the limit is met or left inside the step: the adaptive solver's tolerance and its straddling of the kink
            tol, tv = tol + 0.9 * abs(free - d) + 3e-3 * (abs(d) + vm * dt) + 0.15 * abs(acc) * dt * dt, 3e-3 * vm + 0.15 * abs(acc) * dt + tv
        if not abs(x[0] - p0 - d) <= tol or not abs(x[1] - v[-1]) <= tv:
            fail("distance does not follow the saturated speed", start=[p0, v0], vmax=vm, command=a, amax=am, rate_limit=xd, dt=dt, step=i, got=x - [p0, 0],
                 expected=[d, v[-1]], unlimited=free, tolerance=tol)
        strong |= abs(free - d) > 0.05 * abs(free)
        rec.label("steady" if steady else "crossing")
    rec.nt(strong)
    rec.label("saturated" if strong else "free", "jax" if case["jax"] else "numpy")


SUBS = [
    Sub("derivative", deriv_cases, check_deriv, 1500, 15000, "user-defined models at/inside/beyond limits, numpy and jax; non-trivial: a limit acts", shards=3),
    Sub("entity_derivative", entity_deriv_cases, check_entity_deriv, 1000, 10000, "aircraft and spacecraft at/beyond limits; non-trivial: a limit acts"),
    Sub("throughout", flow_cases, check_flow, 700, 7000, "steps during which limits are met, vs limited reference flow; non-trivial: limits change the motion", shards=4),
    Sub("saturated_distance", chain_cases, check_chain, 600, 6000, "double integrator with speed/acceleration limits (numpy and jax solvers), closed form; non-trivial: saturation matters", shards=4),
    Sub("long_run", lambda: gen.long(flow_cases(), 20, 60), check_flow, 30, 500, "throughout cases cycled over 20-60 steps; non-trivial: as throughout", shards=4),
    Sub("shipped_dynamics", dyn.cases, dyn.check_rates, 500, 6000, "the shipped dynamics models with chosen limits: derivative and motion; non-trivial: a limit acts at the start of a step", shards=4),
]
