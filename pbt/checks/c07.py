"""C07 out-of-range commands act as clipped; warnings iff exceeded."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, near, same, vec

OVER = [["in", 0.0], ["lo", 0], ["hi", 0], ["ulp-", 0], ["ulp+", 0], ["inf+", 0], ["inf-", 0]]


@st.composite
def component(draw):
    k = draw(st.sampled_from(["in", "in", "in", "lo", "hi", "ulp-", "ulp+", "inner-", "inner+", "inf+", "inf-", "far+", "far-", "near+", "near-"]))
    v = 0.0
    if k == "in":
        v = draw(gen.frac())
    elif k[:3] == "far":
        v = draw(gen.logf(1, 1e6))
    elif k[:4] == "near":
        v = draw(gen.logf(1e-7, 1))
    return [k, v]


@st.composite
def cases(draw):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, methods=("RK45", "RK45", "Euler")))
    nu = len(ref.CONTROLS[sp["k"]])
    style = draw(st.integers(0, 3))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        u = [draw(component()) if style else ["in", draw(gen.frac())] for _ in range(nu)]
        if style == 1:  # exactly one component out of range
            j = draw(st.integers(0, nu - 1))
            u = [c if i == j else ["in", draw(gen.frac())] for i, c in enumerate(u)]
        steps.append({"u": u, "dt": draw(gen.logf(1e-2, 5)), "form": draw(st.sampled_from(hist.FORMS + ["f32", "f32"]))})
    return {"spec": sp, "steps": steps}


def value(c, lo, hi):
    k, v = c
    w = hi - lo
    return {
        "in": lambda: gen.place(v, lo, hi), "lo": lambda: lo, "hi": lambda: hi,
        "ulp-": lambda: float(np.nextafter(lo, -math.inf)), "ulp+": lambda: float(np.nextafter(hi, math.inf)),
        "inner-": lambda: float(np.nextafter(lo, math.inf)), "inner+": lambda: float(np.nextafter(hi, -math.inf)),
        "inf+": lambda: math.inf, "inf-": lambda: -math.inf,
        "far+": lambda: hi + w * v, "far-": lambda: lo - w * v, "near+": lambda: hi + w * v, "near-": lambda: lo - w * v,
    }[k]()


def check(case, rec):
    e, mdl = hist.start(case)
    twin = ref.build(case["spec"], "twin")
    lo, hi = vec(np.broadcast_to(e.control_min, (mdl.nu, )), mdl.nu, "control_min"), vec(np.broadcast_to(e.control_max, (mdl.nu, )), mdl.nu, "control_max")
    if not near(lo, mdl.umin, 1e-9 * np.abs(mdl.umin)) or not near(hi, mdl.umax, 1e-9 * np.abs(mdl.umax)):
        fail("advertised control range is not the documented one", got_min=lo, got_max=hi, expected_min=mdl.umin, expected_max=mdl.umax)
    any_over = False
    for stp in case["steps"]:
        u = np.array([value(c, a, b) for c, a, b in zip(stp["u"], lo, hi)])
        if stp["form"] == "f32":
            u = u.astype(np.float32).astype(float)
        u_eff = np.minimum(np.maximum(u, lo), hi)
        over = bool(np.any(u_eff != u))
        any_over |= over
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e.step(stp["dt"], hist.action(stp["form"], mdl, u))
        with warnings.catch_warnings(record=True) as wt:
            warnings.simplefilter("always")
            twin.step(stp["dt"], u_eff.copy())
        said = [x for x in w if _about_limits(x)]
        if over and not said:
            fail("a command beyond the control range gave no warning", command=u, control_min=lo, control_max=hi, form=stp["form"])
        if not over and said:
            fail("a command inside the control range gave a warning", command=u, control_min=lo, control_max=hi, warning=str(said[0].message))
        if [x for x in wt if _about_limits(x)]:
            fail("a command at or inside the limits gave a warning", command=u_eff, control_min=lo, control_max=hi)
        a, b = hist.observe(e, mdl), hist.observe(twin, mdl)
        if not same(a, b):
            fail("an out-of-range command does not act as the clipped command", command=u, clipped=u_eff, got=vec(e.state, mdl.n, "state"),
                 expected=vec(twin.state, mdl.n, "state"), got_dot=e.state_dot, expected_dot=twin.state_dot)
        rec.label(stp["form"], "over" if over else "inside")
    # and the clipped value is what acts: the derivative reported is the one of the clipped command (checked against the equations)
    s = hist.state_of(e, mdl)
    if not (np.any(s <= mdl.smin) or np.any(s >= mdl.smax)):
        mdl.check_deriv(s, u_eff, vec(e.state_dot, mdl.n, "state derivative"), "derivative after a clipped command")
    rec.nt(any_over)
    rec.label(mdl.kind)


@st.composite
def jax_cases(draw):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, methods=("RK45", "Euler")))
    nu = len(ref.CONTROLS[sp["k"]])
    steps = [{"u": [[draw(st.sampled_from(["in", "in", "far+", "far-", "inf+", "inf-", "near+", "near-"])), draw(gen.logf(1e-3, 1e3))] for _ in range(nu)], "dt": draw(gen.logf(1e-2, 1))} for _ in range(draw(st.integers(1, 2)))]
    for s in steps:
        for c in s["u"]:
            if c[0] == "in":
                c[1] = draw(gen.fl(-0.984375, 0.984375))
    return {"spec": sp, "steps": steps}


def check_jax(case, rec):
    e, mdl = hist.start(case)
    any_over = False
    for stp in case["steps"]:
        u = np.array([np.float32(value(c, a, b)) for c, a, b in zip(stp["u"], mdl.umin, mdl.umax)], dtype=float)
        eff = mdl.clip_u(u)
        over = bool(np.any(eff != u))
        any_over |= over
        s = hist.state_of(e, mdl)
        twin = ref.build(case["spec"], "twin")
        twin.state = s.copy()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e.step(stp["dt"], hist.action("jax", mdl, u))
        if over != any(_about_limits(x) for x in w):
            fail("a jax command gives a warning exactly when beyond the control range", command=u, control_min=mdl.umin, control_max=mdl.umax, warnings=[str(x.message) for x in w])
        twin.step(stp["dt"], eff.copy())
        got, exp = hist.state_of(e, mdl), hist.state_of(twin, mdl)
        tol = mdl.flow_tol(s, eff, stp["dt"], rel=2e-4, state_rel=2e-6)[1] + 1e-6
        if not near(mdl.diff(got, exp), 0, tol):
            fail("an out-of-range jax command does not act as the clipped command", command=u, clipped=eff, got=got, expected=exp, tolerance=tol)
    rec.nt(any_over)
    rec.label(mdl.kind)


@st.composite
def user_cases(draw):
    nu = draw(st.integers(1, 4))
    lim = lambda sgn: draw(st.one_of(st.just(None), gen.logf(0.1, 10).map(lambda v: sgn * v), st.lists(st.one_of(gen.logf(0.1, 10).map(lambda v: sgn * v), st.just(None)), min_size=nu, max_size=nu)))  # noqa: E731
    u = st.one_of(gen.fl(-20, 20), gen.fl(-1, 1), st.sampled_from([0.0, math.inf, -math.inf]))
    return {"nu": nu, "lo": lim(-1.0), "hi": lim(1.0), "steps": [{"u": [draw(u) for _ in range(nu)], "form": draw(st.sampled_from(["array", "list", "dict"]))} for _ in range(draw(st.integers(1, 3)))]}


def check_user(case, rec):
    """control limits of a user-defined entity: scalars, arrays, one-sided, partly or wholly absent"""
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    nu = case["nu"]
    full = lambda v, inf: np.full(nu, inf) if v is None else np.full(nu, v) if np.ndim(v) == 0 else np.array([inf if x is None else x for x in v], dtype=float)  # noqa: E731
    lo, hi = full(case["lo"], -math.inf), full(case["hi"], math.inf)
    lim = {}
    for key, v, inf in (("control_min", case["lo"], -math.inf), ("control_max", case["hi"], math.inf)):
        if v is not None:
            lim[key] = v if np.ndim(v) == 0 else full(v, inf)
    e = user.entity(BaseLinearODESolverDynamics(A=np.zeros((nu, nu)), B=np.eye(nu), integration_method="Euler"), {"nu": nu}, np.zeros(nu), limits=lim)
    any_over = False
    x = np.zeros(nu)
    for stp in case["steps"]:
        u = np.array([v if math.isfinite(v) or math.isfinite(lo[i] if v < 0 else hi[i]) else 2.5 for i, v in enumerate(stp["u"])])
        eff = np.minimum(np.maximum(u, lo), hi)
        over = bool(np.any(eff != u))
        any_over |= over
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e.step(0.5, u.copy() if stp["form"] == "array" else u.tolist() if stp["form"] == "list" else {f"a{i}": v for i, v in enumerate(u.tolist())})
        if over != any(_about_limits(v) for v in w):
            fail("a warning is given exactly when some component exceeds its limit", command=u, control_min=lo, control_max=hi, warnings=[str(v.message) for v in w])
        x = x + 0.5 * eff
        if not near(vec(e.state, nu, "state"), x, 1e-12 * (1 + np.abs(x))):
            fail("a command beyond the limits of a user-defined entity does not act as the clipped command", command=u, control_min=lo, control_max=hi, got=e.state, expected=x)
    rec.nt(any_over)
    rec.label("both" if len(lim) == 2 else "upper only" if "control_max" in lim else "lower only" if lim else "none")


def _about_limits(w):
    t = str(w.message).lower()
    return issubclass(w.category, UserWarning) or "limit" in t or "clip" in t or "exceed" in t


SUBS = [
    Sub("clipping", cases, check, 3200, 16000, "random entity, 1-4 steps, each component inside/at/one ulp beyond/far beyond/infinite; non-trivial: some component out of range", shards=4),
    Sub("jax_arrays", jax_cases, check_jax, 120, 1000, "jax array commands, components inside, beyond or infinite, against the clipped numpy command; non-trivial: some component out of range", shards=3),
    Sub("user_limits", user_cases, check_user, 600, 6000, "user-defined entities with scalar, array, one-sided or no control limits; non-trivial: some component out of range", shards=1),
    Sub("long_run", lambda: gen.long(cases()), check, 80, 800, "clipping cases cycled over 25-110 steps; non-trivial: as clipping", shards=4),
]
