"""C14 a step and its splits are equivalent; no clock."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, near, same, vec

ASSUMPTIONS = ["splitting is checked for the adaptive methods; explicit Euler is documented as inaccurate, so for it only clock independence is checked",
               "a user model that reads the time inside a step is not time-invariant and not split"]


def sup_jac(raw, points, u):
    """componentwise bound on the variational equation along a path (off-diagonals absolute)."""
    out = None
    for s in points:
        n = len(s)
        J = np.zeros((n, n))
        for j in range(n):
            h = 1e-6 * max(1.0, abs(s[j]))
            e = np.zeros(n)
            e[j] = h
            J[:, j] = (raw(s + e, u) - raw(s - e, u)) / (2 * h)
        d = np.diag(J).copy()
        J = np.abs(J)
        J[np.diag_indices(n)] = d
        out = J if out is None else np.maximum(out, J)
    return out


def parts(case):
    w = np.array(case["parts"], dtype=float)
    return case["T"] * w / np.sum(w)


@st.composite
def cases(draw, jax=False, kinds=None, methods=("RK45", ), tmax=60.0, npart=4):
    sp = draw(gen.spec(kinds=kinds, methods=methods, jax=jax, samples=True))
    T = draw(st.one_of(gen.logf(0.05, tmax), gen.logf(0.05, tmax), gen.logf(0.05, tmax) if jax else gen.logf(1e-5, 5e-2), st.sampled_from([1.0, 2.0, min(10.0, tmax)])))
    if sp["k"] == "sixdof":
        T = min(T, 6.0)
    return {"spec": sp, "u": draw(gen.fracs(len(ref.CONTROLS[sp["k"]]))), "T": T,
            "parts": draw(st.lists(st.sampled_from([1, 1, 2, 3, 7]), min_size=2, max_size=npart)), "form": draw(st.sampled_from(["array", "dict", "list"]))}


def check(case, rec):
    a, mdl = hist.start(case)
    b = ref.build(case["spec"], "split")
    u = gen.control(mdl, case["u"])
    dts = parts(case)
    act = (lambda: hist.action(case["form"], mdl, u)) if mdl.nu else (lambda: None)  # noqa: E731
    rel, srel = (3e-4, 5e-6) if mdl.jax else (3e-6, 1e-8)
    s0 = hist.state_of(a, mdl)
    T = float(np.sum(dts))
    a.step(T, act())
    whole = hist.state_of(a, mdl, "state after the whole step")
    _, tol = mdl.flow_tol(s0, u, T, rel, srel)
    path = [s0]
    tols = []
    for dt in dts:
        s = hist.state_of(b, mdl)
        b.step(float(dt), act())
        path.append(hist.state_of(b, mdl, "state after a part"))
        tols.append(mdl.flow_tol(s, u, float(dt), rel, srel)[1])
    mids = mdl.hi(s0, u, T, t_eval=np.linspace(T / 4, T, 4))
    J = sup_jac(mdl.raw, path + list(mids), u)
    if np.any(np.isfinite(mdl.smin)):
        J[np.diag_indices(mdl.n)] = np.maximum(np.diag(J), 0)
    left = T
    for dt, t in zip(dts, tols):
        left = max(0.0, left - dt)
        tol = tol + expm(J * left) @ t
    d = mdl.diff(whole, path[-1])
    if not near(d, 0, tol):
        bad = [mdl.names[i] for i in np.nonzero(~(np.abs(d) <= tol))[0]]
        fail(f"one step and its split disagree (components {bad})", start=s0, control=u, parts=dts, whole=whole, split=path[-1], difference=d, tolerance=tol)
    da, db = vec(a.state_dot, mdl.n, "derivative"), vec(b.state_dot, mdl.n, "derivative")
    if np.all((whole > mdl.smin) & (whole < mdl.smax)) and not mdl.jax and not np.any(near_any(whole, mdl, tol)):
        td = np.abs(J) @ tol + 1e-6 * (np.abs(J) @ np.abs(whole) + np.abs(da)) + 1e-9
        if not near(da, db, td):
            fail("one step and its split report different derivatives", whole=da, split=db, tolerance=td)
    moved = np.abs(mdl.diff(whole, s0))
    rec.nt(bool(np.any(moved > 50 * tol)))
    rec.label(mdl.kind, "limit" if np.any((whole <= mdl.smin) | (whole >= mdl.smax)) else "inside", "jax" if mdl.jax else "numpy", f"{len(dts)} parts")


@st.composite
def zero_cases(draw):
    c = draw(gen.entity_case(max_steps=3, methods=("RK45", "Euler"), dts=gen.logf(1e-2, 8)))
    c["at"] = draw(st.integers(0, 3))
    c["zero"] = draw(st.sampled_from([0, 0.0]))
    c["uz"] = draw(gen.fracs(len(ref.CONTROLS[c["spec"]["k"]])))
    return c


def check_zero(case, rec):
    """a step of no duration moves nothing (the derivative becomes that of its command)"""
    a, mdl = hist.start(case)
    k = case["at"] % (len(case["steps"]) + 1)
    for i in range(len(case["steps"]) + 1):
        if i == k:
            s = hist.state_of(a, mdl)
            u = gen.control(mdl, case["uz"])
            a.step(case["zero"], u.copy() if mdl.nu else None)
            n = hist.state_of(a, mdl, "state after a step of no duration")
            if not near(mdl.diff(n, s), 0, 1e-12 * (1 + np.abs(s)) + 1e-6 * (i == 0)):
                fail("a step of no duration moves the entity", before=s, after=n, command=u)
            if not (np.any(s <= mdl.smin) or np.any(s >= mdl.smax)):
                mdl.check_deriv(s, u, vec(a.state_dot, mdl.n, "state derivative"), "derivative after a step of no duration")
        if i < len(case["steps"]):
            stp = case["steps"][i]
            u = gen.control(mdl, stp["u"])
            a.step(stp["dt"], u.copy() if mdl.nu else None)
    rec.nt(not same(a.state, ref.build(case["spec"]).state))
    rec.label(mdl.kind, mdl.method)


def near_any(s, mdl, tol):
    return (s <= mdl.smin + tol) | (s >= mdl.smax - tol)


@st.composite
def user_cases(draw):
    m = draw(user.model(types=("linear", "affine", "general"), methods=("RK45", ), jax=True, wrap=False))
    return {"m": m, "x": draw(user.states(m, beyond=False)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "T": draw(gen.logf(0.05, 2.0 if not m["jax"] else 0.5)),
            "parts": draw(st.lists(st.sampled_from([1, 1, 2, 3, 7]), min_size=2, max_size=4 if not m["jax"] else 2))}


def check_user(case, rec):
    m = case["m"]
    r = user.RefUser(m)
    dyn = user.build(m)
    u, x0 = np.array(case["u"]), np.array(case["x"], dtype=float)
    dts = parts(case)
    T = float(np.sum(dts))
    whole = vec(dyn.step(T, x0.copy(), u.copy())[0], r.n, "state")
    hi, tol = r.flow_tol(x0, u, T, m["jax"])
    if np.max(np.abs(hi)) > 100:
        rec.label("far")
        return
    x, tols, path = x0, [], [x0, whole]
    for dt in dts:
        tols.append(r.flow_tol(x, u, float(dt), m["jax"])[1])
        x = vec(dyn.step(float(dt), x.copy(), u.copy())[0], r.n, "state")
        path.append(x)
    J = sup_jac(lambda s, v: r.raw(0.0, s, v), path + list(r.hi(x0, u, T, t_eval=np.linspace(T / 4, T, 4))), u)
    if r.limits_bind():
        J[np.diag_indices(r.n)] = np.maximum(np.diag(J), 0)
    left = T
    for dt, t in zip(dts, tols):
        left = max(0.0, left - dt)
        tol = tol + expm(J * left) @ t
    d = r.diff(whole, x)
    if not near(d, 0, tol):
        fail("one step and its split disagree for a user-defined model", model=m["type"], start=x0, control=u, parts=dts, whole=whole, split=x, tolerance=tol)
    rec.nt(bool(np.any(np.abs(r.diff(whole, x0)) > 50 * tol)))
    rec.label(m["type"], "jax" if m["jax"] else "numpy")


@st.composite
def clock_cases(draw):
    c = draw(gen.entity_case(max_steps=4, methods=("RK45", "Euler"), samples=True, jax=True, dts=gen.logf(1e-2, 8)))
    sp = c["spec"]
    nu = len(ref.CONTROLS[sp["k"]])
    for s in c["steps"]:
        if sp["k"] == "sixdof":
            s["dt"] = min(s["dt"], 2.0)
    c["junk"] = [{"u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(1e-2, 20)), 2.0 if sp["k"] == "sixdof" else 20)} for _ in range(draw(st.integers(1, 5)))]
    return c


def check_clock(case, rec):
    """the same steps after a different past (state put back) give the same motion"""
    a, mdl = hist.start(case)
    b = ref.build(case["spec"], "late")
    s0 = b.state
    for stp in case["junk"]:
        b.step(stp["dt"], gen.control(mdl, stp["u"]) if mdl.nu else None)
    rec.nt(not same(b.state, s0))
    b.state = s0
    for stp in case["steps"]:
        u = gen.control(mdl, stp["u"])
        a.step(stp["dt"], u.copy() if mdl.nu else None)
        b.step(stp["dt"], u.copy() if mdl.nu else None)
        oa, ob = hist.observe(a, mdl), hist.observe(b, mdl)
        if not same(oa, ob):
            fail("the motion depends on how long the simulation has already run", early=oa, late=ob, command=u, dt=stp["dt"], earlier_steps=case["junk"])
    rec.label(mdl.kind, mdl.method)


@st.composite
def timed_cases(draw):
    m = draw(user.model(types=("timed", "timed", "general", "linear"), jax=True, methods=("RK45", "RK45", "Euler")))
    k = 3 if not m["jax"] else 2
    return {"m": m, "steps": [{"x": draw(user.states(m)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(0.05, 2.0 if not m["jax"] else 0.5))} for _ in range(draw(st.integers(2, k)))],
            "samples": draw(st.booleans()) and not m["jax"] and m["method"] == "RK45"}


def check_timed(case, rec):
    """user models that read the time: every step counts it from its own start, however many came before on the same model"""
    m = dict(case["m"], samples=3) if case["samples"] else case["m"]
    dyn = user.build(m)
    r = user.RefUser(m)
    for i, stp in enumerate(case["steps"]):
        x, u = np.array(stp["x"], dtype=float), np.array(stp["u"])
        got = dyn.step(stp["dt"], x.copy(), u.copy())
        exp = user.build(m).step(stp["dt"], x.copy(), u.copy())
        for a, b, what in zip(got, exp, ("state", "derivative")):
            if not same(np.array(a), np.array(b)):
                fail(f"{what} of a step depends on the steps the dynamics model made before", step=i, got=a, fresh_model=b, start=x, control=u, dt=stp["dt"])
        rec.nt(i > 0 and not near(r.diff(vec(got[0], r.n, "state"), x), 0, 1e-3))
    rec.label(m["type"], "jax" if m["jax"] else "numpy", m["method"])


SUBS = [
    Sub("split", cases, check, 960, 5000, "any entity, one step up to 60 s against 2-4 parts; non-trivial: moved by more than 50 tolerances", shards=5),
    Sub("split_jax", lambda: cases(jax=True, kinds=["rot2d", "sun"], tmax=8.0, npart=3), check, 40, 400, "jax models; non-trivial: as split", shards=2),
    Sub("user_models", user_cases, check_user, 480, 2400, "linear/affine/general user models; non-trivial: moved by more than 50 tolerances", shards=2),
    Sub("zero", zero_cases, check_zero, 800, 4000, "a step of no duration somewhere among 0-3 others; non-trivial: the entity moved otherwise", shards=2),
    Sub("timed_models", timed_cases, check_timed, 320, 2000, "user models reading the time, several steps on one model against fresh models; non-trivial: a later step moved", shards=2),
    Sub("clock", clock_cases, check_clock, 1000, 5000, "steps repeated after a different past; non-trivial: the past had moved the entity", shards=2),
]
