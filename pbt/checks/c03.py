"""C03 thrust frames and agreement of the spacecraft models."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, near, vec


@st.composite
def sixdof(draw, limits="any", **kw):
    sp = draw(gen.spec(kinds=["sixdof"], limits=limits, **kw))
    if draw(st.integers(0, 3)):
        sp["init"].update(zip(("q1", "q2", "q3", "q4"), draw(gen.unit_quat())))
    return sp


@st.composite
def accel_cases(draw):
    sp = draw(st.one_of(sixdof(), sixdof(), gen.spec(kinds=["rot2d"])))
    return {"spec": sp, "u": draw(gen.fracs(len(ref.CONTROLS[sp["k"]])))}


def check_accel(case, rec):
    """force = commanded vector rotated by the entity's own orientation (or not at all)"""
    e, mdl = hist.start(case)
    u = gen.control(mdl, case["u"])
    idx = [7, 8, 9] if mdl.kind == "sixdof" else [3, 4]
    with_u = vec(e.dynamics.compute_state_dot(0.0, e.state, u), mdl.n, "derivative")[idx]
    without = vec(e.dynamics.compute_state_dot(0.0, e.state, 0 * u), mdl.n, "derivative")[idx]
    body = mdl.kind == "rot2d" or mdl.body
    f = np.array([u[0], u[1], u[2] if mdl.kind == "sixdof" else 0.0])
    F = vec(e.orientation.apply(f), 3, "rotated thrust") if body else f
    exp = F[:len(idx)] / mdl.m
    tol = 2e-6 * (np.linalg.norm(f) / mdl.m + np.max(np.abs(without))) + 1e-12
    if not near(with_u - without, exp, tol):
        fail("acceleration due to thrust is not the commanded force in its documented frame", state=mdl.s0, control=u, body_frame=body,
             got=with_u - without, expected=exp, tolerance=tol)
    # attitude equations never see thrust
    rot = [3, 4, 5, 6, 10, 11, 12] if mdl.kind == "sixdof" else [2, 5]
    u2 = u.copy()
    u2[:3 if mdl.kind == "sixdof" else 2] *= -0.5
    a = vec(e.dynamics.compute_state_dot(0.0, e.state, u), mdl.n, "derivative")[rot]
    b = vec(e.dynamics.compute_state_dot(0.0, e.state, u2), mdl.n, "derivative")[rot]
    if not near(a, b, 1e-9 * np.max(np.abs(a)) + 1e-15):
        fail("thrust changes the attitude derivative", state=mdl.s0, control=u, with_thrust=a, with_other_thrust=b)
    gen_att = mdl.kind == "rot2d" and abs(np.sin(2 * mdl.s0[2])) > 0.1 or mdl.kind == "sixdof" and np.sum(np.abs(mdl.s0[3:7]) > 0.1) >= 3
    rec.nt(bool(gen_att) and np.sum(np.abs(f) > 0.05) >= 2)
    rec.label(mdl.kind, "body" if body else "hill", "general-attitude" if gen_att else "simple-attitude")


@st.composite
def flow_cases(draw):
    sp = draw(st.one_of(sixdof(limits="wide"), sixdof(), gen.spec(kinds=["rot2d"])))
    if sp["k"] == "sixdof" and "ang_acc_limit" in sp["kw"]:
        base = draw(gen.logf(0.02, 5))
        sp["kw"]["inertia_diag"] = [ref.f32(base * draw(st.sampled_from([1.0, 0.5, 2.0]))) for _ in range(3)]
    nu = len(ref.CONTROLS[sp["k"]])
    return {"spec": sp, "steps": [{"u": draw(gen.fracs(nu)), "dt": draw(gen.logf(0.05, 5))} for _ in range(draw(st.integers(1, 3)))]}


def check_flow(case, rec):
    """thrust follows the attitude while the spacecraft turns during the step"""
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        mdl.check_flow(s, u, dt, got)
        turned = (np.linalg.norm(s[10:]) if mdl.kind == "sixdof" else abs(s[5])) * dt
        rec.nt(turned > 0.02 and np.any(u[:2]))
        rec.label(mdl.kind, "turning" if turned > 0.02 else "still")


@st.composite
def pair_cases(draw):
    kind = draw(st.sampled_from(["point", "rot2d", "hill", "attitude"]))
    kw = {"m": draw(gen.logf(0.5, 100)), "n": draw(gen.fl(0, 0.01))}
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    init = {a: v(1000) for a in ("x", "y", "z")}
    init.update({a + "_dot": v(10) for a in ("x", "y", "z")})
    I = draw(gen.logf(0.02, 2))
    rot = dict(ang_vel_limit=1e3, acc_limit_wheel=1e9, vel_limit_wheel=1e9, ang_acc_limit=draw(st.sampled_from([0.03125, 0.25])))
    c = {"kind": kind, "kw": kw, "init": init, "I": I, "rot": rot, "theta": v(3.14), "wz": v(0.5), "body": draw(st.booleans()),
         "Q": [draw(gen.unit_quat()), draw(gen.unit_quat())], "w": [v(0.3) for _ in range(3)], "shift": [v(500) for _ in range(6)],
         "steps": [{"u": [draw(gen.frac()) for _ in range(6)], "dt": draw(gen.logf(0.05, 8))} for _ in range(draw(st.integers(1, 6)))]}
    return c


def check_pair(case, rec):
    kw, init, k = case["kw"], case["init"], case["kind"]
    six_kw = dict(kw, inertia_diag=case["I"], **case["rot"])
    if k == "point":
        A = {"k": "point", "kw": kw, "init": init}
        B = {"k": "sixdof", "kw": dict(six_kw, body_frame_thrust=case["body"]), "init": dict(init, q4=1.0)}
    elif k == "rot2d":
        i2 = {a: b for a, b in init.items() if a in ("x", "y", "x_dot", "y_dot")}
        A = {"k": "rot2d", "kw": dict(kw, inertia=case["I"], **case["rot"]), "init": dict(i2, theta=case["theta"], wz=case["wz"])}
        B = {"k": "sixdof", "kw": six_kw, "init": dict(i2, q3=float(np.sin(case["theta"] / 2)), q4=float(np.cos(case["theta"] / 2)), wz=case["wz"])}
    elif k == "hill":
        six_kw["inertia_diag"] = [case["I"], 2 * case["I"], 3 * case["I"]]
        mk = lambda q, w: {"k": "sixdof", "kw": dict(six_kw, body_frame_thrust=False), "init": dict(init, **dict(zip(("q1", "q2", "q3", "q4"), q)), **w)}  # noqa: E731
        A, B = mk(case["Q"][0], {}), mk(case["Q"][1], dict(zip(("wx", "wy", "wz"), case["w"])))
    else:
        six_kw["inertia_diag"] = [case["I"], 2 * case["I"], 3 * case["I"]]
        att = dict(zip(("q1", "q2", "q3", "q4"), case["Q"][0]), **dict(zip(("wx", "wy", "wz"), case["w"])))
        mk = lambda ii: {"k": "sixdof", "kw": dict(six_kw, body_frame_thrust=case["body"]), "init": dict(ii, **att)}  # noqa: E731
        moved = {a: ref.f32(b + d) for (a, b), d in zip(init.items(), case["shift"])}
        A, B = mk(init), mk(moved)
    ma, mb = ref.RefModel(A), ref.RefModel(B)
    ea, eb = ref.build(A, "a"), ref.build(B, "b")
    tp = tv = tq = tw = 0.0
    for stp in case["steps"]:
        fr, dt = stp["u"], stp["dt"]
        if k == "point":
            ua, ub = fr[:3], fr[:3] + [0.0] * 3
        elif k == "rot2d":
            ua, ub = [fr[0], fr[1], fr[5]], [fr[0], fr[1], 0.0, 0.0, 0.0, fr[5]]
        elif k == "hill":
            ua, ub = fr, fr[:3] + [-f for f in fr[3:]]
        else:
            ua, ub = fr, [-f for f in fr[:3]] + fr[3:]
        ua, ub = gen.control(ma, ua), gen.control(mb, ub)
        if k == "point":
            ub[3:] = 0
        sa, sb = vec(ea.state, ma.n, "state"), vec(eb.state, mb.n, "state")
        ea.step(dt, ua)
        eb.step(dt, ub)

        # error budget of one step of either model, measured with the reference equations
        def budget(m, s, u):
            lo, hi = m.lo(s, u, dt), m.hi(s, u, dt)
            t = m.tol(s, u, dt, lo, hi, rel=1e-5, state_rel=1e-6)
            p = {"point": 0, "rot2d": 0, "sixdof": 0}[m.kind]
            v = {"point": 3, "rot2d": 3, "sixdof": 7}[m.kind]
            q = {"point": None, "rot2d": 2, "sixdof": 3}[m.kind]
            w = {"point": None, "rot2d": 5, "sixdof": 10}[m.kind]
            return t[p], t[v], (t[q] if q else 0), (t[w] if w else 0)

        ba, bb = budget(ma, sa, ua), budget(mb, sb, ub)
        # errors of earlier steps propagate: position by velocity, velocity by attitude (through thrust)
        fm = np.linalg.norm(ub[:3]) / mb.m * dt
        tq, tw = tq + ba[2] + bb[2] + tw * dt * 4, 1.5 * tw + ba[3] + bb[3]
        tv = 1.2 * tv + ba[1] + bb[1] + fm * tq * 2
        tp = 1.2 * tp + ba[0] + bb[0] + tv * dt * 2
        if k == "attitude":
            Ra, Rb = ea.orientation.as_matrix(), eb.orientation.as_matrix()
            if not near(Ra, Rb, 4 * tq + 1e-5) or not near(ea.angular_velocity, eb.angular_velocity, tw + 1e-5):
                fail("translation disturbs attitude: same attitude start and moments, different attitude history", a=Ra, b=Rb, step=stp)
            continue
        if not near(vec(ea.position, 3, "position"), vec(eb.position, 3, "position"), tp + 1e-6):
            fail(f"positions of equivalent maneuvers differ ({k})", a=ea.position, b=eb.position, tolerance=tp)
        if not near(vec(ea.velocity, 3, "velocity"), vec(eb.velocity, 3, "velocity"), tv + 1e-6):
            fail(f"velocities of equivalent maneuvers differ ({k})", a=ea.velocity, b=eb.velocity, tolerance=tv)
        if k == "rot2d":
            Ra, Rb = ea.orientation.as_matrix(), eb.orientation.as_matrix()
            if not near(Ra, Rb, 4 * tq + 1e-5) or not near(ea.angular_velocity, eb.angular_velocity, tw + 1e-5):
                fail("orientations of the planar and six-DOF spacecraft differ", a=Ra, b=Rb)
    rec.nt(any(any(s["u"]) for s in case["steps"]))
    rec.label(k)


SUBS = [
    Sub("acceleration", accel_cases, check_accel, 3000, 10000, "thrust acceleration against the orientation accessor; non-trivial: general attitude and thrust on >=2 axes"),
    Sub("flow", flow_cases, check_flow, 1200, 7000, "thrust while turning; non-trivial: turns >0.02 rad with thrust", shards=4),
    Sub("pairs", pair_cases, check_pair, 1000, 5000, "two models (or attitudes) in lock-step; non-trivial: some command", shards=4),
    Sub("long_run", lambda: gen.long(pair_cases(), 20, 60, dt=2.0), check_pair, 80, 600, "pairs cycled over 20-60 steps; non-trivial: as pairs", shards=4),
]
