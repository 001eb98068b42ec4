"""C22 recorded trajectories."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt import gen, hist, ref, user
from pbt.core import Skip, Sub, fail, mat, near, same, vec

ASSUMPTIONS = ["samples are taken before final limiting and wrapping; a sample between solver steps has the solver's dense-output accuracy"]


def times(N, dt):
    return dt * np.arange(1, N + 1) / N


def check_record(dyn, N, dt, n):
    t = vec(dyn.trajectory_t, N, "trajectory_t")
    if not near(t, times(N, dt), 1e-9 * dt):
        fail("sample times are not evenly spaced and ending with the step", got=t, expected=times(N, dt))
    return mat(dyn.trajectory, (N, n), "trajectory")


def unwrapped_end(got, last, smin, smax, wrap, tol):
    """the state reached is the last sample after limiting and wrapping"""
    e = np.minimum(np.maximum(last, smin), smax)
    d = got - e
    for i, c in enumerate(wrap):
        if c is not None:
            d[i] = (d[i] + math.pi) % (2 * math.pi) - math.pi
    if not near(d, 0, tol):
        fail("the last sample is not the state reached (before limiting and wrapping)", last=last, state=got)


def ref_path(raw, limited, s, u, dt, N, tight):
    te = times(N, dt)
    te[-1] = dt
    hi = tight(te)

    def path(f, **kw):
        y = np.array(solve_ivp(f, (0, dt), s, t_eval=te, **kw).y, dtype=float).T
        return y if y.shape == hi.shape else None  # the unlimited motion may leave the model's domain

    lo, free = path(limited), path(raw, rtol=1e-6, atol=1e-9)
    if lo is None:
        raise Skip()
    return lo, hi, free


@st.composite
def cases(draw):
    sp = draw(gen.spec(kinds=[k for k in ref.KINDS if k != "sun"]))
    sp["kw"]["trajectory_samples"] = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 30, 300, 1000])))
    cap = 4.0 if sp["k"] == "sixdof" else 40.0
    if sp["k"] == "rot2d" and draw(st.booleans()):
        sp["kw"]["use_jax"] = True
    nu = len(ref.CONTROLS[sp["k"]])
    return {"spec": sp, "steps": [{"u": draw(gen.fracs(nu)), "dt": min(draw(st.one_of(gen.logf(0.01, 40), gen.logf(0.01, 40), gen.logf(1e-6, 1e-2))), cap if not sp["kw"].get("use_jax") else 5.0)} for _ in range(draw(st.integers(1, 3)))]}


def check(case, rec):
    e, mdl = hist.start(case)
    kw = dict(case["spec"]["kw"])
    N = kw.pop("trajectory_samples")
    b = ref.build(dict(case["spec"], kw=kw), "without samples")
    rel, srel = (3e-4, 5e-6) if mdl.jax else (3e-6, 1e-8)
    for stp in case["steps"]:
        s, u, dt = hist.state_of(e, mdl), gen.control(mdl, stp["u"]), stp["dt"]
        b.state = e.state
        e.step(dt, u.copy())
        b.step(dt, u.copy())
        got = hist.state_of(e, mdl)
        tr = check_record(e.dynamics, N, dt, mdl.n)
        mag = mdl.mag(got) + mdl.mag(s)
        unwrapped_end(got, tr[-1], mdl.smin, mdl.smax, mdl.wrap, (1e-6 if mdl.jax else 1e-9) * mag + 1e-9 + (1e-6 if any(c is not None for c in mdl.wrap) else 0))
        lo, hi, free = ref_path(lambda t, y: mdl.raw(y, u), lambda t, y: mdl.limited(y, u), s, u, dt, N, lambda te: mdl.hi(s, u, dt, t_eval=te))  # pylint: disable=cell-var-from-loop
        binds = bool(np.any(np.isfinite(mdl.smin)) or np.any(np.isfinite(mdl.dmin)))
        if binds and free is None:
            continue
        kink = mdl.kink(s, u, dt, hi[-1])
        for g in mdl.groups:
            sc = np.max(np.abs(hi[:, g] - s[g])) + dt * np.max(np.abs(mdl.limited(s, u)[g]))
            err = 5 * np.max(np.abs(lo[:, g] - hi[:, g]))
            t = err + 10 * rel * sc + srel * np.max(mag[g]) + 1e-9
            dev = np.max(np.abs(tr[:, g] - hi[:, g]))
            if dev > t and binds:
                t += 0.9 * np.max(np.abs(free[:, g] - hi[:, g])) + np.max(kink[g])
            if dev > t:
                i = int(np.argmax(np.max(np.abs(tr[:, g] - hi[:, g]), axis=1)))
                fail(f"sample {i} does not lie on the motion of the step (components {[mdl.names[j] for j in g]})", start=s, control=u, dt=dt, got=tr[i], expected=hi[i], tolerance=t)
        gb = hist.state_of(b, mdl)
        if not near(mdl.diff(got, gb), 0, (2e-6 if mdl.jax else 1e-9) * mag + 1e-9):
            fail("requesting samples changes the step's result", with_samples=got, without=gb, samples=N)
        # the derivative belongs to the last sample; where limiting moves or holds it, rounding decides
        clear = np.all((tr[-1] - mdl.smin > 1e-6 * (1 + mag)) & (mdl.smax - tr[-1] > 1e-6 * (1 + mag)))
        da, db = vec(e.state_dot, mdl.n, "derivative"), vec(b.state_dot, mdl.n, "derivative")
        if clear and not near(da, db, 1e-6 * np.max(np.abs(db)) + 1e-9):
            fail("requesting samples changes the reported derivative", with_samples=da, without=db)
        if clear:
            mdl.check_deriv(got, u, da, "derivative reported with samples")
        rec.nt(N > 1 and bool(np.any(np.abs(tr[0] - tr[-1]) > 1e-6)))
    rec.label(mdl.kind, "jax" if mdl.jax else "numpy", "one" if N == 1 else "several")


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True, methods=("RK45", )))
    m["samples"] = draw(st.integers(1, 10))
    return {"m": m, "x": draw(user.states(m, beyond=False)), "seq": [{"u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(st.one_of(gen.logf(1e-2, 3.0 if not m["jax"] else 0.4), gen.logf(1e-6, 1e-2)))} for _ in range(draw(st.integers(1, 3)))]}


def check_user(case, rec):
    m = case["m"]
    N = m["samples"]
    r = user.RefUser(m)
    dyn, plain = user.build(m), user.build({k: v for k, v in m.items() if k != "samples"})
    x = np.array(case["x"], dtype=float)
    kept = None
    for s in case["seq"]:
        u, dt = np.array(s["u"]), s["dt"]
        got, dot = dyn.step(dt, x.copy(), u.copy())
        gp, dp = plain.step(dt, x.copy(), u.copy())
        got, dot, gp, dp = vec(got, r.n, "state"), vec(dot, r.n, "derivative"), vec(gp, r.n, "state"), vec(dp, r.n, "derivative")
        tr = check_record(dyn, N, dt, r.n)
        mag = 1 + np.max(np.abs(tr)) + np.max(np.abs(x))
        jt = 5e-6 if m["jax"] else 1e-9
        unwrapped_end(got, tr[-1], r.smin, r.smax, r.wrap, jt * mag + (1e-5 if m["jax"] else 1e-8))
        hi = r.hi(x, u, dt, t_eval=times(N, dt) * (1 - 1e-15))
        lo = solve_ivp(lambda t, y: r.limited(t, y, u), (0, dt), x, t_eval=times(N, dt) * (1 - 1e-15)).y.T  # pylint: disable=cell-var-from-loop
        free = solve_ivp(lambda t, y: r.raw(t, y, u), (0, dt), x, t_eval=times(N, dt) * (1 - 1e-15), rtol=1e-6, atol=1e-9).y.T  # pylint: disable=cell-var-from-loop
        tol = 5 * np.max(np.abs(lo - hi)) + (1e-4 if m["jax"] else 1e-6) * mag
        if r.limits_bind():
            tol += 0.9 * np.max(np.abs(free - hi)) + 3e-3 * mag
        if not near(tr, hi, tol):
            fail("samples do not lie on the motion of a user-defined model", model=m["type"], start=x, control=u, dt=dt, got=tr, expected=hi, tolerance=tol)
        if not near(r.diff(got, gp), 0, jt * mag + 1e-9):
            fail("requesting samples changes the step's result", with_samples=got, without=gp)
        if np.all((np.abs(tr[-1] - r.smin) > 1e-5) & (np.abs(tr[-1] - r.smax) > 1e-5)) and not near(dot, dp, 10 * jt * (1 + np.max(np.abs(dp)) + mag)):
            fail("requesting samples changes the reported derivative", with_samples=dot, without=dp)
        if kept is not None and not same(kept[0], kept[1]):
            fail("a step changed the record of the previous step in place", was=kept[1], now=kept[0])
        kept = (dyn.trajectory, np.array(dyn.trajectory))
        x = got
        rec.nt(N > 1 and bool(np.any(np.abs(tr[0] - tr[-1]) > 1e-6)))
    rec.label(m["type"], "jax" if m["jax"] else "numpy", "wrap" if m.get("wrap") else "no-wrap")


SUBS = [
    Sub("entities", cases, check, 1400, 7000, "1-30 samples over 1-3 steps up to 40 s; non-trivial: several samples that move", shards=5),
    Sub("user_models", user_cases, check_user, 1000, 5000, "user models incl. limits, wrap, time; non-trivial: as entities", shards=3),
    Sub("long_run", lambda: gen.long(cases(), 20, 50), check, 48, 400, "entities cases cycled over 20-50 steps; non-trivial: as entities", shards=4),
]
