"""C12 reported state derivative."""
import numpy as np
from hypothesis import strategies as st

from pbt import dyn, gen, hist, ref, user
from pbt.core import Sub, fail, near, vec

ASSUMPTIONS = ["exact value demanded only where final limiting did not move the state; elsewhere only that a limited component is not reported moving out"]


@st.composite
def cases(draw, jax=False, methods=("RK45", "RK45", "Euler"), kinds=None, nmax=4):
    c = draw(gen.entity_case(max_steps=nmax, methods=methods, kinds=kinds, samples=True, jax=jax, dts=st.one_of(gen.logf(1e-2, 10), gen.logf(1e-2, 10), gen.logf(10, 300))))
    if c["spec"]["k"] == "sixdof":
        for s in c["steps"]:
            s["dt"] = min(s["dt"], 4.0)
    elif c["spec"]["k"] == "dub3":
        for s in c["steps"]:
            s["dt"] = min(s["dt"], 40.0)
    for s in c["steps"]:
        s["over"] = draw(st.sampled_from([1.0, 1.0, 1.0, 2.5]))
        s["form"] = draw(st.sampled_from(["array", "dict", "list"]))
    if draw(st.integers(0, 2)) == 0:  # start at limits (single-precision exact ones), often resting on them
        mdl = ref.RefModel(c["spec"])
        for i, nm in enumerate(mdl.names):
            if np.isfinite(mdl.smin[i]) and ref.f32(mdl.smin[i]) == mdl.smin[i] and ref.f32(mdl.smax[i]) == mdl.smax[i]:
                c["spec"]["init"][nm] = draw(st.sampled_from([mdl.smin[i], mdl.smax[i]]))
    return c


def moved_by_limits(r, s0, u, dt, got, lo, hi, timed=None):
    """could final limiting have moved the state? Not when each component on a limit rested there all along."""
    at = (got <= lo) | (got >= hi)
    if not np.any(at):
        return False
    if np.any(at & (s0 != got)):
        return True
    path = r.hi(s0, u, dt, t_eval=np.linspace(dt / 16, dt, 16))
    return not near(path[:, at], s0[at], 0)


def check(case, rec):
    e, mdl = hist.start(case)
    if not near(vec(e.state_dot, mdl.n, "initial state derivative"), np.zeros(mdl.n), 0):
        fail("the state derivative before the first step is not zero", got=e.state_dot)
    for stp in case["steps"]:
        s0 = hist.state_of(e, mdl)
        u = gen.control(mdl, stp["u"]) * stp["over"]
        e.step(stp["dt"], hist.action(stp["form"], mdl, u) if mdl.nu else None)
        got = hist.state_of(e, mdl)
        d = vec(e.state_dot, mdl.n, "state derivative")
        uc = mdl.clip_u(u) if mdl.nu else u
        lo_bad = (got <= mdl.smin) & (d < -1e-12)
        hi_bad = (got >= mdl.smax) & (d > 1e-12)
        rounds = mdl.jax and mdl.method != "Euler"  # the state is rounded to single precision after the derivative is taken
        if np.any(lo_bad | hi_bad) and not rounds:
            fail("a component on its limit is reported as moving out", state=got, derivative=d, state_min=mdl.smin, state_max=mdl.smax, command=u)
        slack = 1e-9 + (1e-6 * np.where(np.isfinite(mdl.dmax), np.abs(mdl.dmax), 0.0) if mdl.jax else 0.0)
        if np.any(d < mdl.dmin - slack) or np.any(d > mdl.dmax + slack):
            fail("the reported derivative exceeds the rate limits", derivative=d, rate_min=mdl.dmin, rate_max=mdl.dmax)
        at = bool(np.any((got <= mdl.smin) | (got >= mdl.smax)))
        if mdl.jax and at:
            rec.label("jax-limit-skip")
            continue
        if moved_by_limits(mdl, s0, uc, stp["dt"], got, mdl.smin, mdl.smax):
            rec.label("limited-end")
            continue
        # single precision limits: the state may sit within rounding of a limit without being on it
        fin = np.isfinite(mdl.smin)
        if np.any(fin & ((np.abs(got - mdl.smin) < 1e-6 * np.abs(mdl.smin)) | (np.abs(got - mdl.smax) < 1e-6 * np.abs(mdl.smax))) & (got != mdl.smin) & (got != mdl.smax)):
            rec.label("near-limit-skip")
            continue
        mdl.check_deriv(got, uc, d, "reported state derivative (at the end of the step, under the clipped command)")
        moved = mdl.raw(s0, uc)
        rec.nt(not near(moved, mdl.raw(got, uc), 1e-6 * np.max(np.abs(moved)) + 1e-12))
        rec.label("resting-on-limit" if at else "free-end")
    rec.label(mdl.kind, mdl.method, "jax" if mdl.jax else "numpy", "samples" if "trajectory_samples" in case["spec"]["kw"] else "no-samples")


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True, wrap=False))
    return {"m": m, "x": draw(user.states(m, beyond=False)), "u": [[draw(gen.fl(-3, 3)) for _ in range(m["nu"])] for _ in range(draw(st.integers(1, 3)))],
            "dt": draw(gen.logf(1e-2, 3.0 if not m["jax"] else 0.4)), "umax": draw(st.sampled_from([None, 1.0, 2.0]))}


@st.composite
def jax_user_cases(draw):
    m = draw(user.model(types=("timed", "timed", "general"), jax=True, wrap=False, limits=False, methods=("RK45_JAX", ), nmax=2))
    m["jax"] = True
    return {"m": m, "x": draw(user.states(m, beyond=False)), "u": [[draw(gen.fl(-3, 3)) for _ in range(m["nu"])]], "dt": draw(gen.logf(0.05, 2)), "umax": None}


def check_user(case, rec):
    m = case["m"]
    r = user.RefUser(m)
    e = user.entity(user.build(m), m, case["x"], None if case["umax"] is None else [case["umax"]] * r.nu)
    if not near(vec(e.state_dot, r.n, "initial state derivative"), np.zeros(r.n), 0):
        fail("the state derivative before the first step is not zero", got=e.state_dot)
    for u in case["u"]:
        x0 = vec(e.state, r.n, "state")
        u = np.array(u)
        e.step(case["dt"], u)
        x, d = vec(e.state, r.n, "state"), vec(e.state_dot, r.n, "state derivative")
        if case["umax"] is not None:
            u = np.clip(u, -case["umax"], case["umax"])
        tol = (2e-5 if m["jax"] else 1e-9) * (1 + np.abs(r.A) @ (np.abs(x) + 1) + np.abs(r.B) @ np.abs(u) + np.abs(r.c) * (case["dt"] + abs(x[0] * u[0])))
        if m["type"] == "timed" and m["jax"]:
            tol = tol * 2
        if (not m["jax"] or m["method"] == "Euler") and (np.any((x <= r.smin) & (d < -1e-9)) or np.any((x >= r.smax) & (d > 1e-9))):
            fail("a component on its limit is reported as moving out", state=x, derivative=d)
        if m["jax"] and np.any((x <= r.smin + 1e-6) | (x >= r.smax - 1e-6)):
            rec.label("jax-limit-skip")
            continue
        if moved_by_limits(r, x0, u, case["dt"], x, r.smin, r.smax):
            rec.label("limited-end")
            continue
        exp = r.limited(case["dt"], x, u)
        if not near(d, exp, tol):
            fail("reported derivative is not the model's at the end of the step", model=m["type"], method=m["method"], state=x, control=u, dt=case["dt"], got=d, expected=exp, tolerance=tol)
        rec.nt(not near(r.limited(0.0, x0, u), exp, 1e-6))
    rec.label(m["type"], m["method"], "jax" if m["jax"] else "numpy")


@st.composite
def adaptive_jax(draw):
    c = draw(cases(kinds=["rot2d", "sun"], methods=("RK45_JAX", ), nmax=2))
    c["spec"]["kw"]["use_jax"] = True
    c["spec"]["kw"].pop("trajectory_samples", None)
    return c


SUBS = [
    Sub("entities", lambda: cases(jax=True), check, 1500, 15000, "all entities and methods, 1-4 steps; non-trivial: the derivative at the end differs from the one at the start", shards=4),
    Sub("user_models", user_cases, check_user, 900, 9000, "user-defined incl. time-dependent models; non-trivial: derivative changed over the step", shards=3),
    Sub("jax_adaptive", adaptive_jax, check, 40, 400, "jax adaptive solver; non-trivial: as entities", shards=2),
    Sub("jax_user_models", jax_user_cases, check_user, 40, 300, "user-defined (mostly time-dependent) models under the jax adaptive solver; non-trivial: derivative changed over the step", shards=4),
    Sub("long_run", lambda: gen.long(cases(jax=False)), check, 40, 800, "entities cases cycled over 25-110 steps; non-trivial: as entities", shards=4),
    Sub("shipped_dynamics", dyn.cases, dyn.check_dot, 700, 7000, "the shipped dynamics models with chosen limits and wrap centers; non-trivial: the derivative changed over the step", shards=3),
]
