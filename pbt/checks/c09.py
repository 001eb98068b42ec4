"""C09 states stay inside the model's limits."""
import numpy as np
from hypothesis import strategies as st

from pbt import dyn, gen, hist, ref, user
from pbt.core import Sub, fail, vec

ASSUMPTIONS = ["limits are honoured to 1e-6 relative (single-precision limits of aircraft, wrapping arithmetic); limits of wrapped angles lie within their turn"]
DT = st.one_of(gen.logf(1e-3, 60.0), gen.logf(1e-3, 60.0), gen.logf(1e-6, 1e-2), st.sampled_from([1.0, 10.0]))


@st.composite
def cases(draw, kinds=("dub2", "dub3", "rot2d", "sixdof"), methods=("RK45", "Euler"), jax=True, nmax=5):
    sp = draw(gen.spec(kinds=kinds, methods=methods, jax=jax, samples=True))
    mdl = ref.RefModel(sp)
    nu = mdl.nu
    ops = []
    big = draw(st.booleans())
    for _ in range(draw(st.integers(1, nmax))):
        if draw(st.integers(0, 3)) == 0:
            s = [None] * mdl.n
            for i in range(mdl.n):
                lo, hi = mdl.smin[i], mdl.smax[i]
                if np.isfinite(lo) and draw(st.booleans()):
                    w = hi - lo
                    # outside by some, but physically sane
                    v = draw(st.sampled_from([lo, hi, lo - 0.1 * w, hi + 0.1 * w, (lo + hi) / 2, hi - 1e-4 * w]))
                    s[i] = max(ref.f32(v), 1.0) if mdl.names[i] == "v" else ref.f32(v)
            ops.append({"assign": s})
        u = [draw(st.sampled_from([-1.0, 1.0])) if big else draw(gen.frac()) for _ in range(nu)]
        ops.append({"u": u, "over": draw(st.sampled_from([1.0, 1.0, 3.0])), "dt": draw(DT if sp["k"] != "sixdof" else gen.logf(1e-3, 15.0))})
    return {"spec": sp, "ops": ops}


def check(case, rec):
    e, mdl = hist.start(case)
    hit = False
    for op in case["ops"]:
        if "assign" in op:
            s = hist.state_of(e, mdl)
            e.state = np.array([b if a is None else a for a, b in zip(op["assign"], s)])
            continue
        u = gen.control(mdl, op["u"]) * op["over"]
        s = hist.state_of(e, mdl)
        e.step(op["dt"], u)
        got = hist.state_of(e, mdl)
        tol = 1e-6 * np.maximum(np.abs(np.where(np.isfinite(mdl.smax), mdl.smax, 0)), 1e-3)
        if np.any(got < mdl.smin - tol) or np.any(got > mdl.smax + tol):
            bad = [mdl.names[i] for i in np.nonzero((got < mdl.smin - tol) | (got > mdl.smax + tol))[0]]
            fail(f"state left its limits ({bad})", start=s, command=u, dt=op["dt"], got=got, state_min=mdl.smin, state_max=mdl.smax)
        hit |= bool(np.any(np.abs(got - mdl.smin) <= tol) or np.any(np.abs(got - mdl.smax) <= tol))
    rec.nt(hit)
    rec.label(mdl.kind, mdl.method + ("-jax" if mdl.jax else ""), "at-limit" if hit else "inside")


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True))
    if "smin" not in m and "smax" not in m:
        m["smin"], m["smax"] = draw(st.sampled_from([-1.0, -0.5])), draw(st.sampled_from([1.0, 0.5]))
        m.pop("wrap", None)
    if m["method"] == "RK45" and draw(st.integers(0, 2)) == 0:
        m["samples"] = draw(st.one_of(st.just(1), st.integers(1, 9)))
    return {"m": m, "x": draw(user.states(m)), "u": [[draw(gen.fl(-3, 3)) for _ in range(m["nu"])] for _ in range(draw(st.integers(1, 3)))],
            "dt": draw(gen.logf(1e-2, 5.0 if not m["jax"] else 0.5))}


def check_user(case, rec):
    m = case["m"]
    dyn, r = user.build(m), user.RefUser(m)
    e = user.entity(dyn, m, case["x"])
    hit = False
    tol = (1e-5 if m["jax"] else 1e-9) * 10
    for u in case["u"]:
        e.step(case["dt"], np.array(u))
        got = vec(e.state, r.n, "state")
        if np.any(got < r.smin - tol) or np.any(got > r.smax + tol):
            fail("state of a user-defined model left its declared limits", got=got, state_min=r.smin, state_max=r.smax, command=u, dt=case["dt"])
        hit |= bool(np.any(np.abs(got - r.smin) <= tol) or np.any(np.abs(got - r.smax) <= tol))
    rec.nt(hit)
    rec.label(m["type"], m["method"], "jax" if m["jax"] else "numpy", "at-limit" if hit else "inside")


@st.composite
def adaptive_jax_cases(draw):
    c = draw(cases(kinds=("rot2d", ), methods=("RK45_JAX", ), nmax=2))
    c["spec"]["kw"]["use_jax"] = True
    for op in c["ops"]:
        if "dt" in op:
            op["dt"] = min(op["dt"], 5.0)
    return c


SUBS = [
    Sub("jax_adaptive", adaptive_jax_cases, check, 40, 400, "planar spacecraft with the jax adaptive solver; non-trivial: a component reached its limit", shards=2),
    Sub("entities", cases, check, 1600, 16000, "aircraft and rotating spacecraft, custom limits, out-of-limit starts, long steps, all methods; non-trivial: a component reached its limit", shards=4),
    Sub("user_models", user_cases, check_user, 800, 8000, "user-defined models with scalar/array limits, numpy and jax; non-trivial: a component reached its limit", shards=3),
    Sub("long_run", lambda: gen.long(cases(), keys=("ops", )), check, 50, 800, "entities cases cycled over 25-110 steps; non-trivial: as entities", shards=4),
    Sub("shipped_dynamics", dyn.cases, dyn.check_limits, 900, 9000, "the shipped dynamics models built with state/rate limits and wrap centers of the caller's choosing; non-trivial: a component reached its limit", shards=3),
]
