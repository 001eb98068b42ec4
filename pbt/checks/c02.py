"""C02 rigid-body attitude."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, mat, near, vec

ASSUMPTIONS = ["diagonal inertia (the documented model); unit quaternions to float32; no rate/acceleration limit active except in the 'limits' labelled derivative cases"]


@st.composite
def cases(draw, kind="sixdof", torque=True, max_steps=4):
    sp = draw(gen.spec(kinds=[kind], limits="wide"))
    k = sp["k"]
    nu = len(ref.CONTROLS[k])
    if k == "sixdof":
        base = draw(gen.logf(0.02, 5))
        ratios = draw(st.sampled_from([[1.0, 0.5, 2.0, 1.25, 0.8, 3.0]] * 3 + [[1.0, 1.0078125, 0.99609375, 1.03125]]))  # also almost symmetric bodies
        sp["kw"]["inertia_diag"] = [ref.f32(base * draw(st.sampled_from(ratios))) for _ in range(3)]
        sp["kw"]["ang_acc_limit"] = draw(st.sampled_from([0.05, 0.25, 0.5]))
        # an attitude and rates on several axes most of the time
        if draw(st.integers(0, 3)):
            sp["init"].update(zip(("q1", "q2", "q3", "q4"), draw(gen.unit_quat())))
            for a in ("wx", "wy", "wz"):
                sp["init"][a] = draw(gen.fl(-1.5, 1.5))
    else:
        sp["init"]["wz"] = draw(gen.fl(-1.5, 1.5))
    steps = []
    for _ in range(draw(st.integers(1, max_steps))):
        u = draw(gen.fracs(nu))
        if not torque:
            u = [f if i < nu // 2 else 0.0 for i, f in enumerate(u)] if k == "sixdof" else [u[0], u[1], 0.0]
        steps.append({"u": u, "dt": draw(gen.logf(0.01, 3.0))})
    return {"spec": sp, "steps": steps}


def check_flow(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        mask = got.copy()
        exp = mdl.hi(s, u, dt)
        lo = mdl.lo(s, u, dt)
        # translation is C01/C03's business
        for g in (mdl.groups[0], mdl.groups[2]):
            mask[g] = exp[g]
        mdl.check_flow(s, u, dt, mask, "attitude/body rates after a step", hi=exp, lo=lo)
        q = got[3:7]
        R = ref.rot_from_quat(q / np.linalg.norm(q))
        if not near(mat(e.orientation.as_matrix(), (3, 3), "orientation"), R, 1e-6):
            fail("orientation does not match the quaternion (scalar last, body to orbital frame)", quaternion=q, orientation=e.orientation.as_matrix(), expected=R)
        if not near(vec(e.angular_velocity, 3, "angular velocity"), got[10:], 0):
            fail("angular velocity accessor differs from the state", got=e.angular_velocity, state=got)
        w = np.abs(s[10:])
        rec.nt(np.sum(w > 0.05) >= 2)
        rec.label("torque" if np.any(u[3:]) else "torque-free", "multi-axis" if np.sum(w > 0.05) >= 2 else "single-axis")


def check_invariants(case, rec):
    e, mdl = hist.start(case)
    I = mdl.I3

    def inv(s):
        q = s[3:7] / np.linalg.norm(s[3:7])
        w = s[10:]
        return np.linalg.norm(s[3:7]), 0.5 * w @ (I * w), ref.rot_from_quat(q) @ (I * w)

    for s, u, dt, got, i in hist.steps(case, e, mdl):
        lo = mdl.lo(s, u, dt)
        a, b, l = inv(s), inv(got), inv(lo)
        tn = 1e-5 + 5 * abs(l[0] - a[0])
        if not abs(b[0] - a[0]) <= tn:
            fail("quaternion norm not kept", start=s, dt=dt, before=a[0], after=b[0], tolerance=tn)
        te = 1e-5 * a[1] + 5 * abs(l[1] - a[1]) + 1e-12
        if not abs(b[1] - a[1]) <= te:
            fail("rotational energy not conserved without moments", start=s, dt=dt, before=a[1], after=b[1], tolerance=te)
        th = 1e-5 * np.linalg.norm(a[2]) + 5 * np.max(np.abs(l[2] - a[2])) + 1e-12
        if not near(b[2], a[2], th):
            fail("angular momentum vector not conserved without moments", start=s, dt=dt, before=a[2], after=b[2], tolerance=th)
        rec.nt(np.sum(np.abs(s[10:]) > 0.05) >= 2)
        rec.label("multi-axis" if np.sum(np.abs(s[10:]) > 0.05) >= 2 else "single-axis")


def check_planar(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        al = u[2] / mdl.I
        th, w = s[2] + s[5] * dt + 0.5 * al * dt * dt, s[5] + al * dt
        tol = 2e-5 * (abs(s[5]) * dt + abs(al) * dt * dt + abs(s[2])) + 1e-6
        d = (got[2] - th + np.pi) % (2 * np.pi) - np.pi
        if not abs(d) <= tol or not abs(got[5] - w) <= 2e-5 * (abs(s[5]) + abs(al) * dt) + 1e-7:
            fail("planar rotation is not theta'=wz, wz'=M/I", start=s, moment=u[2], inertia=mdl.I, dt=dt, got=got[[2, 5]], expected=[th, w], tolerance=tol)
        if not near(e.wz, got[5], 0) or not near(e.theta, got[2], 0):
            fail("theta/wz accessors differ from the state", state=got)
        rec.nt(al != 0)
        rec.label("moment" if al else "spin")


@st.composite
def deriv_cases(draw):
    if draw(st.booleans()):
        c = draw(cases(max_steps=1))
    else:
        sp = draw(gen.spec(kinds=["sixdof", "rot2d"]))
        c = {"spec": sp, "steps": [{"u": draw(gen.fracs(len(ref.CONTROLS[sp["k"]]))), "dt": 1.0}]}
    return c


def check_deriv(case, rec):
    e, mdl = hist.start(case)
    s, u = mdl.s0, gen.control(mdl, case["steps"][0]["u"])
    got = vec(e.dynamics.compute_state_dot(0.0, e.state, u), mdl.n, "derivative")
    full = mdl.limited(s, u)
    idx = [3, 4, 5, 6, 10, 11, 12] if mdl.kind == "sixdof" else [2, 5]
    full[idx] = got[idx]
    mdl.check_deriv(s, u, full, "rotational derivative")
    w = s[10:] if mdl.kind == "sixdof" else s[5:]
    rec.nt(np.any(w) and np.any(u))
    rec.label(mdl.kind, "limits" if "ang_vel_limit" not in case["spec"]["kw"] else "custom")


SUBS = [
    Sub("flow", lambda: cases("sixdof"), check_flow, 700, 8000, "six-DOF with distinct inertias, random attitude/rates/moments, 1-4 steps; non-trivial: rates on >=2 axes", shards=4),
    Sub("invariants", lambda: cases("sixdof", torque=False), check_invariants, 450, 5000, "no moments, thrust allowed; non-trivial: rates on >=2 axes", shards=3),
    Sub("planar", lambda: cases("rot2d"), check_planar, 500, 5000, "planar spacecraft with moments; non-trivial: moment applied"),
    Sub("derivative", deriv_cases, check_deriv, 1500, 10000, "instantaneous quaternion/rate derivatives; non-trivial: rates and controls present"),
    Sub("long_run", lambda: gen.long(cases("sixdof"), 20, 60, dt=2.0), check_flow, 30, 500, "flow cases cycled over 20-60 steps; non-trivial: as flow", shards=4),
]
