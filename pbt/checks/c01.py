"""C01 Clohessy-Wiltshire translation."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, mat, near, vec

ASSUMPTIONS = ["float32 initial states; accuracy of scipy's default RK45 is the library's stated accuracy class"]
KINDS = ["point", "rot2d", "sixdof"]


@st.composite
def flow_cases(draw):
    sp = draw(gen.spec(kinds=KINDS, samples=True))
    k = sp["k"]
    # the force must stay constant in the orbital frame: no rotation during the step
    if k == "rot2d":
        sp["init"].pop("wz", None)
    if k == "sixdof":
        if draw(st.booleans()):
            sp["kw"]["body_frame_thrust"] = False
        else:
            for a in ("wx", "wy", "wz"):
                sp["init"].pop(a, None)
    n = sp["kw"].get("n", ref.N_CW)
    long = st.integers(1, 100).map(lambda i: i / 100 / n) if n > 1e-4 else st.just(100.0)
    nu = len(ref.CONTROLS[k])
    stp = []
    for _ in range(draw(st.integers(1, 3))):
        u = draw(gen.fracs(nu))
        if k == "rot2d":
            u[2] = 0.0
        if k == "sixdof" and sp["kw"].get("body_frame_thrust", True):
            u[3:] = [0.0] * 3
        stp.append({"u": u, "dt": draw(st.one_of(gen.DTS, gen.DTS, long))})
    return {"spec": sp, "steps": stp}


def check_flow(case, rec):
    e, mdl = hist.start(case)
    idx = {"point": [0, 1, 2, 3, 4, 5], "rot2d": [0, 1, 3, 4], "sixdof": [0, 1, 2, 7, 8, 9]}[mdl.kind]
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        r, v = hist.pos_vel(mdl, s)
        f = hist.hill_thrust(mdl, s, u)
        ex = ref.cw_closed_form(mdl.m, mdl.mm, np.concatenate([r, v]), f, dt)
        ex = ex if mdl.kind != "rot2d" else ex[[0, 1, 3, 4]]
        lo, hi = mdl.lo(s, u, dt), s.copy()
        hi[idx] = ex
        tol = mdl.tol(s, u, dt, lo, hi)[idx]
        if not near(got[idx], ex, tol) and not near(got[idx], lo[idx], (mdl.tol(s, u, dt, lo, lo))[idx]):
            fail("position/velocity after a step is not the Clohessy-Wiltshire solution", start=s, hill_force=f, dt=dt, got=got[idx], expected=ex,
                 tolerance=tol)
        p, w = hist.pos_vel(mdl, got)
        if not near(vec(e.position, 3, "position"), p, 0) or not near(vec(e.velocity, 3, "velocity"), w, 0):
            fail("position/velocity accessors differ from the state", state=got, position=e.position, velocity=e.velocity)
        moved = np.linalg.norm(ref.cw_closed_form(mdl.m, mdl.mm, np.concatenate([r, v]), f, dt) - np.concatenate([r + v * dt, v])) > 1e-3
        rec.nt(moved)
        rec.label(mdl.kind, "thrust" if np.any(f) else "coast", "orbital" if mdl.mm * dt > 0.1 else "short")


@st.composite
def coast_cases(draw):
    sp = draw(gen.spec(kinds=KINDS))
    n = sp["kw"].get("n", ref.N_CW)
    long = st.integers(1, 60).map(lambda i: i / 100 / n) if n > 1e-4 else st.just(100.0)
    return {"spec": sp, "steps": [{"u": [0.0] * len(ref.CONTROLS[sp["k"]]), "dt": draw(st.one_of(gen.DTS, long))} for _ in range(draw(st.integers(1, 5)))]}


def check_coast(case, rec):
    e, mdl = hist.start(case)
    n = mdl.mm

    def inv(s):
        r, v = hist.pos_vel(mdl, s)
        return v @ v - 3 * n * n * r[0]**2 + n * n * r[2]**2, v[1] + 2 * n * r[0]

    for s, u, dt, got, i in hist.steps(case, e, mdl):
        lo = mdl.lo(s, u, dt)
        (e0, d0), (e1, d1), (el, _) = inv(s), inv(got), inv(lo)
        r, v = hist.pos_vel(mdl, s)
        r1, v1 = hist.pos_vel(mdl, got)
        te = 1e-5 * max(v @ v + 3 * n * n * (r @ r), v1 @ v1 + 3 * n * n * (r1 @ r1)) + 5 * abs(el - e0) + 1e-9
        td = 1e-5 * (abs(v[1]) + abs(v1[1]) + 2 * n * (abs(r[0]) + abs(r1[0]))) + 1e-9
        if not abs(e1 - e0) <= te:
            fail("coasting does not conserve v^2-3n^2x^2+n^2z^2", start=s, dt=dt, before=e0, after=e1, tolerance=te)
        if not abs(d1 - d0) <= td:
            fail("coasting does not conserve y'+2nx", start=s, dt=dt, before=d0, after=d1, tolerance=td)
        rec.nt(n * dt > 1e-3 and np.linalg.norm(got - s) > 1e-3)
        rec.label(mdl.kind)


def check_matrices(case, rec):
    from safe_autonomy_dynamics.cwh import CWHDynamics, generate_cwh_matrices
    m, n = case["m"], case["n"]
    A3, B3 = np.zeros((6, 6)), np.zeros((6, 3))
    A3[:3, 3:] = np.eye(3)
    A3[3, 0], A3[3, 4], A3[4, 3], A3[5, 2] = 3 * n * n, 2 * n, -2 * n, -n * n
    B3[3:] = np.eye(3) / m
    keep = [0, 1, 3, 4]
    want = {"3d": (A3, B3), "2d": (A3[np.ix_(keep, keep)], B3[np.ix_(keep, [0, 1])])}
    for mode, (A, B) in want.items():
        for rnd in range(2):
            got = generate_cwh_matrices(m, n, mode) if mode == "3d" or case["explicit"] else generate_cwh_matrices(m, n)
            a, b = mat(got[0], A.shape, "A"), mat(got[1], B.shape, "B")
            if not near(a, A, 1e-12 * np.abs(A)) or not near(b, B, 1e-12 * np.abs(B)):
                fail(f"{mode} system matrices are not the Clohessy-Wiltshire equations", m=m, n=n, A=a, B=b)
            got[0][:] = 7  # results belong to the caller
    d = CWHDynamics(m=m, n=n)
    s, u = np.array(case["s"]), np.array(case["u"])
    got = vec(d.compute_state_dot(case["t"], s, u), 6, "derivative")
    sc = np.abs(A3) @ np.abs(s) + np.abs(B3) @ np.abs(u)
    if not near(got, A3 @ s + B3 @ u, 1e-9 * sc + 1e-15):
        fail("point-mass derivative is not A s + B u", m=m, n=n, state=s, control=u, got=got, expected=A3 @ s + B3 @ u)
    rec.nt(n > 0 and any(case["s"]))


@st.composite
def matrix_cases(draw):
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    return {"m": draw(gen.logf(0.05, 1e5)), "n": draw(st.one_of(gen.fl(0, 0.01), st.sampled_from([0.0, 0.001027, 1.0]))), "explicit": draw(st.booleans()),
            "s": [v(1e4) for _ in range(3)] + [v(100) for _ in range(3)], "u": [v(10) for _ in range(3)], "t": draw(gen.fl(0, 100))}


@st.composite
def deriv_cases(draw):
    sp = draw(gen.spec(kinds=KINDS))
    return {"spec": sp, "u": draw(gen.fracs(len(ref.CONTROLS[sp["k"]]))), "t": draw(gen.fl(0, 10))}


def check_deriv(case, rec):
    """translational part of the instantaneous derivative, via the entity's dynamics"""
    e, mdl = hist.start(case)
    s, u = mdl.s0, gen.control(mdl, case["u"])
    got = vec(e.dynamics.compute_state_dot(case["t"], e.state, u), mdl.n, "derivative")
    exp = mdl.limited(s, u)
    idx = {"point": [0, 1, 2, 3, 4, 5], "rot2d": [0, 1, 3, 4], "sixdof": [0, 1, 2, 7, 8, 9]}[mdl.kind]
    full = exp.copy()
    full[idx] = got[idx]
    mdl.check_deriv(s, u, full, "translational derivative")
    rec.nt(np.any(s[:2]) and mdl.mm > 0)
    rec.label(mdl.kind)


SUBS = [
    Sub("flow", flow_cases, check_flow, 1200, 12000, "random spacecraft, orbit, mass, state, constant orbital-frame thrust, 1-3 steps; non-trivial: the path deviates from a straight line by >1e-3", shards=4),
    Sub("coast", coast_cases, check_coast, 600, 6000, "coasting histories of 1-5 steps; non-trivial: n*dt>1e-3 and the state moved", shards=2),
    Sub("matrices", matrix_cases, check_matrices, 800, 8000, "random mass/orbit; matrices and point-mass derivative; non-trivial: n>0 and non-zero state"),
    Sub("derivative", deriv_cases, check_deriv, 1500, 10000, "random spacecraft and state; instantaneous acceleration; non-trivial: in-plane offset and n>0"),
    Sub("long_run", lambda: gen.long(flow_cases()), check_flow, 40, 800, "flow cases cycled over 25-110 steps; non-trivial: as flow", shards=4),
]
