"""C13 integration methods."""
import numpy as np
from hypothesis import strategies as st

from pbt import dyn, gen, hist, ref, user
from pbt.core import Sub, fail, near, vec

ASSUMPTIONS = ["jax runs in single precision (the library's default); compared to single precision"]


@st.composite
def euler_cases(draw):
    c = draw(gen.entity_case(max_steps=3, methods=("Euler", ), jax=True, dts=st.one_of(gen.logf(1e-3, 20), gen.logf(1e-6, 1e-2))))
    for s in c["steps"]:
        s["over"] = draw(st.sampled_from([1.0, 1.0, 2.0]))
    return c


def check_euler(case, rec):
    e, mdl = hist.start(case)
    for stp in case["steps"]:
        s = hist.state_of(e, mdl)
        u = gen.control(mdl, stp["u"]) * stp["over"]
        e.step(stp["dt"], u.copy() if mdl.nu else None)
        got = hist.state_of(e, mdl)
        uc = mdl.clip_u(u) if mdl.nu else u
        exp, tol = mdl.euler(s, uc, stp["dt"])
        if tol is None:
            rec.label("edge-skip")
            continue
        if not near(mdl.diff(got, exp), 0, tol):
            bad = [mdl.names[i] for i in np.nonzero(~(np.abs(mdl.diff(got, exp)) <= tol))[0]]
            fail(f"Euler step is not state + dt * derivative, limited and wrapped ({bad})", start=s, control=uc, dt=stp["dt"], got=got, expected=exp, tolerance=tol)
        rec.nt(bool(np.any(np.abs(got - s) > 1e-3)))
    rec.label(mdl.kind, "jax" if mdl.jax else "numpy")


@st.composite
def user_euler_cases(draw):
    m = draw(user.model(jax=True, methods=("Euler", )))
    return {"m": m, "x": draw(user.states(m)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(1e-3, 5))}


def check_user_euler(case, rec):
    m = case["m"]
    r = user.RefUser(m)
    x, u, dt = np.array(case["x"]), np.array(case["u"]), case["dt"]
    got = vec(user.build(m).step(dt, x.copy(), u.copy())[0], r.n, "state")
    exp = r.clip(x + dt * r.limited(0.0, x, u))
    tol = (2e-5 if m["jax"] else 1e-10) * (1 + np.max(np.abs(exp)) + np.max(np.abs(x)) + dt * 10)
    if not near(r.diff(got, exp), 0, tol):
        fail("Euler step of a user-defined model is not state + dt * limited derivative at the start of the step, limited and wrapped", x=x, u=u, dt=dt, got=got, expected=exp)
    rec.nt(not near(exp, x, 1e-6))
    rec.label(m["type"], "jax" if m["jax"] else "numpy")


@st.composite
def converge_cases(draw):
    sp = draw(gen.spec(methods=("Euler", )))
    nu = len(ref.CONTROLS[sp["k"]])
    return {"spec": sp, "u": [draw(gen.frac()) for _ in range(nu)], "T": draw(gen.logf(0.2, 4))}


def check_converge(case, rec):
    """Euler error shrinks in proportion to the step"""
    mdl = ref.RefModel(case["spec"])
    u, T = gen.control(mdl, case["u"]), case["T"]
    errs = {}
    base = ref.build(case["spec"])
    s = hist.state_of(base, mdl)
    hi = mdl.finish(mdl.hi(s, u, T))
    for n in (4, 8, 16, 128):
        e = ref.build(case["spec"])
        for _ in range(n):
            e.step(T / n, u.copy() if mdl.nu else None)
        errs[n] = np.abs(mdl.diff(hist.state_of(e, mdl), hi))
    tol = 3e-5 * mdl.scale(s, u, T, hi) + 3e-5 * np.maximum(mdl.mag(s), mdl.mag(hi)) + 1e-6
    for g in mdl.groups:
        coarse = max(np.max(errs[4][g]), np.max(errs[8][g]), np.max(errs[16][g]))
        if not np.max(errs[128][g]) <= 0.35 * coarse + np.max(tol[g]):
            fail("Euler does not converge to the exact motion as steps shrink", group=[mdl.names[i] for i in g], errors={n: float(np.max(v[g])) for n, v in errs.items()},
                 start=s, control=u, T=T)
        rec.nt(coarse > 10 * np.max(tol[g]))
    rec.label(mdl.kind)


@st.composite
def adaptive_cases(draw):
    c = draw(gen.entity_case(max_steps=2, dts=st.one_of(gen.logf(1e-2, 20), gen.logf(15, 300), gen.logf(1e-6, 1e-2)), limits="any", samples=True))
    if c["spec"]["k"] == "sixdof":
        for s in c["steps"]:
            s["dt"] = min(s["dt"], 4.0)
    if c["spec"]["k"] == "dub3":
        for s in c["steps"]:
            s["dt"] = min(s["dt"], 40.0)
    return c


def check_adaptive(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        mdl.check_flow(s, u, dt, got, "RK45 result")
        rec.nt(bool(np.any(np.abs(got - s) > 1e-3)))
    rec.label(mdl.kind)


@st.composite
def variants(draw, methods):
    c = draw(gen.entity_case(kinds=["rot2d", "rot2d", "rot2d", "sun"], max_steps=2, dts=gen.logf(0.05, 8)))
    return dict(c, method=draw(st.sampled_from(list(methods))))


def check_variants(case, rec):
    """numpy RK45, jax-model RK45 and jax solver reach the same state"""
    e, mdl = hist.start(case)
    j = ref.build(case["spec"], "jax", use_jax=True, integration_method=case["method"])
    p = ref.build(case["spec"], "np", integration_method=case["method"]) if case["method"] == "Euler" else e
    for stp in case["steps"]:
        s = hist.state_of(p, mdl)
        u = gen.control(mdl, stp["u"])
        j.state = s.copy()
        p.step(stp["dt"], u.copy() if mdl.nu else None)
        j.step(stp["dt"], u.copy() if mdl.nu else None)
        a, b = hist.state_of(p, mdl), hist.state_of(j, mdl)
        if case["method"] == "Euler":
            sc = mdl.scale(s, u, stp["dt"], a)
            tol = 2e-5 * sc + 3e-6 * np.maximum(mdl.mag(s), mdl.mag(a)) + 1e-6
        else:
            tol = mdl.flow_tol(s, u, stp["dt"], rel=3e-4, state_rel=1e-5)[1] + 2e-6
        if not near(mdl.diff(a, b), 0, tol):
            fail(f"jax variant ({case['method']}) does not give the numpy result", start=s, control=u, dt=stp["dt"], numpy=a, jax=b, tolerance=tol)
        da, db = vec(p.state_dot, mdl.n, "derivative"), vec(j.state_dot, mdl.n, "derivative")
        at = np.any((a <= mdl.smin + 1e-6) | (a >= mdl.smax - 1e-6) | (b <= mdl.smin + 1e-6) | (b >= mdl.smax - 1e-6))
        if not at:
            mdl2 = ref.RefModel({"k": mdl.kind, "kw": dict(case["spec"]["kw"], use_jax=True)})
            mdl2.check_deriv(b, u, db, "derivative of the jax variant")
        rec.nt(bool(np.any(np.abs(a - s) > 1e-3)))
    rec.label(mdl.kind, case["method"])


@st.composite
def user_variants(draw):
    m = draw(user.model(methods=("RK45", ), nmax=3))
    return {"m": m, "x": draw(user.states(m)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(0.05, 1.0)), "method": draw(st.sampled_from(["RK45_JAX", "RK45"]))}


def check_user_variants(case, rec):
    m = case["m"]
    r = user.RefUser(m)
    x, u, dt = np.array(case["x"]), np.array(case["u"]), case["dt"]
    a = vec(user.build(m).step(dt, x.copy(), u.copy())[0], r.n, "state")
    b = vec(user.build(dict(m, jax=True, method=case["method"])).step(dt, x.copy(), u.copy())[0], r.n, "state")
    tol = r.flow_tol(x, u, dt, jax=True)[1]
    if not near(r.diff(a, b), 0, tol):
        fail(f"jax variant ({case['method']}) of a user-defined model does not give the numpy result", x=x, u=u, dt=dt, numpy=a, jax=b, tolerance=tol)
    rec.nt(not near(a, x, 1e-3))
    rec.label(m["type"], case["method"])


@st.composite
def turn_cases(draw):
    """damped rotations through many turns in one step"""
    dt = draw(gen.logf(0.1, 20))
    return {"w": draw(st.one_of(gen.logf(0.3, 80), gen.fl(10, 80))) / dt * draw(st.sampled_from([-1, 1])), "c": draw(st.sampled_from([0.0, 0.5, 2.0])) / dt, "b": draw(gen.fl(-2, 2)), "x": [draw(gen.fl(-5, 5)), draw(gen.fl(-5, 5))],
            "u": draw(gen.fl(-3, 3)), "dt": dt, "jit": draw(st.booleans())}


def check_turns(case, rec):
    """the jax solver over steps that need many internal ones, against the exponential"""
    import jax
    import jax.numpy as jnp
    from scipy.linalg import expm
    w, c, b, x, u, dt = case["w"], case["c"], case["b"], np.array(case["x"]), case["u"], case["dt"]
    A, B = np.array([[-c, w], [-w, -c]]), np.array([[0.0], [b]])
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    d = BaseLinearODESolverDynamics(A=jnp.asarray(A), B=jnp.asarray(B), use_jax=True, integration_method="RK45_JAX")
    f = jax.jit(d.step) if case["jit"] else d.step
    got = vec(f(dt, jnp.asarray(x, dtype=jnp.float32), jnp.asarray([u], dtype=jnp.float32))[0], 2, "state")
    M = np.zeros((3, 3))
    M[:2, :2], M[:2, 2] = A, B[:, 0] * u
    exp = (expm(M * dt) @ np.append(x, 1))[:2]
    size = np.max(np.abs(x)) + abs(b * u / w)
    if not near(got, exp, 1e-3 * (1 + abs(w * dt) / 20) * size + 1e-6):
        fail("RK45_JAX does not reach the exact solution", A=A, B=B, x=x, u=u, dt=dt, got=got, expected=exp)
    rec.nt(abs(w * dt) > 10 and size > 0.01)
    rec.label("compiled" if case["jit"] else "plain")


SUBS = [
    Sub("euler", euler_cases, check_euler, 1200, 12000, "one explicit Euler step per step, all entities; non-trivial: state moves", shards=2),
    Sub("euler_user", user_euler_cases, check_user_euler, 700, 7000, "user-defined models; non-trivial: state moves", shards=2),
    Sub("euler_converges", converge_cases, check_converge, 250, 2500, "T split in 4..128 Euler steps vs tight reference; non-trivial: coarse error is visible", shards=3),
    Sub("adaptive", adaptive_cases, check_adaptive, 500, 5000, "RK45 vs tight reference flow; non-trivial: state moves", shards=2),
    Sub("jax_variants", lambda: variants(("RK45_JAX", "RK45", "Euler")), check_variants, 90, 900, "planar spacecraft and sun, numpy vs jax; non-trivial: state moves", shards=3),
    Sub("jax_user", user_variants, check_user_variants, 60, 600, "user-defined models, numpy vs jax solvers; non-trivial: state moves", shards=3),
    Sub("jax_turns", turn_cases, check_turns, 60, 900, "jax solver on damped rotations of up to 80 rad per step vs the matrix exponential; non-trivial: over 10 rad", shards=3),
    Sub("long_run", lambda: gen.long(adaptive_cases(), 20, 60), check_adaptive, 30, 500, "adaptive cases cycled over 20-60 steps; non-trivial: as adaptive", shards=4),
    Sub("shipped_euler", lambda: dyn.cases(methods=("Euler", )), dyn.check_euler, 700, 7000, "Euler steps of the shipped dynamics models with chosen limits and wrap centers; non-trivial: limits or wrapping act", shards=3),
]
