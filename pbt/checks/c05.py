"""C05 integrators."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, mat, near, vec

KINDS = ["int1", "int2", "int3"]


@st.composite
def cases(draw):
    c = draw(gen.entity_case(max_steps=4, dts=st.one_of(gen.logf(1e-3, 20), gen.logf(1e-6, 1e-2), st.sampled_from([1.0, 0.1])), kinds=KINDS, samples=True))
    for stp in c["steps"]:
        stp["form"] = draw(st.sampled_from(["array", "dict", "list", "partial"]))
        stp["axis"] = draw(st.integers(0, 2))
    if draw(st.integers(0, 9)) == 0:  # heavily damped
        c["spec"]["kw"].update(damping=draw(gen.logf(10, 300)), integration_method="RK45")
        for stp in c["steps"]:
            stp["dt"] = min(stp["dt"], 1.0)
    return c


def closed(m, d, p, v, f, t):
    if d == 0:
        return p + v * t + 0.5 * f / m * t * t, v + f / m * t
    em = -np.expm1(-d * t)  # 1 - exp(-dt)
    vt = f / (m * d)
    if d * t < 1e-4:
        return p + v * t + 0.5 * (f / m - d * v) * t * t, v + (f / m - d * v) * t * (1 - d * t / 2)
    return p + vt * t + (v - vt) * em / d, vt + (v - vt) * (1 - em)


def check_flow(case, rec):
    e, mdl = hist.start(case)
    k = mdl.nu
    for stp in case["steps"]:
        s = hist.state_of(e, mdl)
        u = gen.control(mdl, stp["u"])
        dt = stp["dt"]
        if stp["form"] == "partial":
            ax = stp["axis"] % k
            u = np.where(np.arange(k) == ax, u, 0.0)
            e.step(dt, {mdl.ctrl[ax]: float(u[ax])})
        elif stp["form"] == "dict":
            e.step(dt, {n: float(x) for n, x in zip(mdl.ctrl, u)})
        elif stp["form"] == "list":
            e.step(dt, [float(x) for x in u])
        else:
            e.step(dt, u.copy())
        got = hist.state_of(e, mdl)
        p, v = closed(mdl.m, mdl.d, s[:k], s[k:], u, dt)
        ex = np.concatenate([p, v])
        lo = mdl.lo(s, u, dt)
        tol = mdl.tol(s, u, dt, lo, ex)
        if not near(got, ex, tol) and not near(got, lo, mdl.tol(s, u, dt, lo, lo)):
            fail("integrator motion is not x''=u/m-d x' per axis", start=s, thrust=u, form=stp["form"], m=mdl.m, d=mdl.d, dt=dt, got=got, expected=ex, tolerance=tol)
        pos, vel = np.atleast_1d(np.asarray(e.position, dtype=float)), np.atleast_1d(np.asarray(e.velocity, dtype=float))
        if not near(pos[:k], got[:k], 0) or not near(vel[:k], got[k:], 0):
            fail("position/velocity accessors differ from the state", position=pos, velocity=vel, state=got)
        rec.nt(bool(np.any(u)))
        rec.label(mdl.kind, stp["form"], "damped" if mdl.d else "undamped")


def check_name_only(case, rec):
    e = ref.build({"k": case["k"], "kw": {}}, name=case["name"])
    mdl = ref.RefModel({"k": case["k"]})
    if e.name != case["name"] or not near(hist.state_of(e, mdl), np.zeros(mdl.n), 0):
        fail("an integrator created from its name alone is not at rest at the origin", state=e.state, name=e.name)
    R = mat(e.orientation.as_matrix(), (3, 3), "orientation")
    if not near(R, np.eye(3), 1e-12):
        fail("a point mass has no orientation other than identity", orientation=R)
    u = np.array(case["u"][:mdl.nu])
    e.step(case["dt"], u)
    p, v = closed(1.0, 0.0, np.zeros(mdl.nu), np.zeros(mdl.nu), u, case["dt"])
    if not near(hist.state_of(e, mdl), np.concatenate([p, v]), 1e-6 * (1 + case["dt"]**2)):
        fail("default integrator (m=1, no damping) does not follow x''=u", u=u, dt=case["dt"], got=e.state)
    rec.nt(bool(np.any(u)))


@st.composite
def name_cases(draw):
    return {"k": draw(st.sampled_from(KINDS)), "name": draw(st.text(min_size=1, max_size=8)), "u": [draw(gen.fl(-1, 1)) for _ in range(3)], "dt": draw(gen.logf(0.01, 10))}


def check_matrices(case, rec):
    from safe_autonomy_dynamics.integrators import IntegratorDynamics, generate_dynamics_matrices
    m, d, k = case["m"], case["d"], case["dim"]
    A, B = np.zeros((2 * k, 2 * k)), np.zeros((2 * k, k))
    A[:k, k:] = np.eye(k)
    A[k:, k:] = -d * np.eye(k)
    B[k:] = np.eye(k) / m
    got = generate_dynamics_matrices(m, d, f"{k}d")
    if not near(mat(got[0], A.shape, "A"), A, 1e-12 * np.abs(A)) or not near(mat(got[1], B.shape, "B"), B, 1e-12 * np.abs(B)):
        fail("system matrices do not encode x''=u/m-d x'", m=m, d=d, dim=k, A=got[0], B=got[1])
    dyn = IntegratorDynamics(m=m, damping=d, mode=f"{k}d")
    s, u = np.array(case["s"][:2 * k]), np.array(case["u"][:k])
    g = vec(dyn.compute_state_dot(0.0, s, u), 2 * k, "derivative")
    if not near(g, A @ s + B @ u, 1e-9 * (np.abs(A) @ np.abs(s) + np.abs(B) @ np.abs(u)) + 1e-15):
        fail("integrator derivative wrong", s=s, u=u, got=g, expected=A @ s + B @ u)
    if k == 1:
        g1 = generate_dynamics_matrices(m, d)
        if not near(g1[0], A, 1e-12 * np.abs(A)):
            fail("default dimensionality is not 1d")
    rec.nt(d > 0)
    rec.label(f"{k}d")


@st.composite
def matrix_cases(draw):
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    return {"m": draw(gen.logf(0.01, 1e4)), "d": draw(gen.fl(0, 10)), "dim": draw(st.integers(1, 3)), "s": [v(100) for _ in range(6)], "u": [v(3) for _ in range(3)]}


SUBS = [
    Sub("flow", cases, check_flow, 2400, 12000, "1-3D integrators, commands in several forms, 1-4 steps, against the closed form; non-trivial: thrust applied", shards=4),
    Sub("name_only", name_cases, check_name_only, 400, 2000, "creation from a name alone; non-trivial: then thrust"),
    Sub("matrices", matrix_cases, check_matrices, 1200, 6000, "system matrices; non-trivial: damping present"),
    Sub("long_run", lambda: gen.long(cases()), check_flow, 80, 800, "flow cases cycled over 25-110 steps; non-trivial: as flow", shards=4),
]
