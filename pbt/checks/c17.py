"""C17 accessors agree with the state vector."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, mat, near, num, same, vec

ASSUMPTIONS = ["six-DOF attitudes are given as any non-zero quaternion; orientation is that of the normalised one"]
SETTABLE = {"dub2": ["x", "y", "heading", "v"], "dub3": ["x", "y", "z", "heading", "gamma", "roll", "v"]}


def expect(what, got, want, tol=0.0, **kw):
    if not near(got, want, tol):
        fail(f"{what} does not agree with the state", got=got, expected=want, **kw)


def check_all(e, mdl, s):
    """every accessor of e against the state vector s"""
    k = mdl.kind
    g = lambda n: num(getattr(e, n), n)  # noqa: E731
    tv = lambda v: 1e-6 * (1e-30 + np.max(np.abs(v)))  # noqa: E731
    if k == "sun":
        expect("theta", g("theta"), s[0])
        return
    direct = {
        "point": {"x": 0, "y": 1, "z": 2, "x_dot": 3, "y_dot": 4, "z_dot": 5},
        "rot2d": {"x": 0, "y": 1, "theta": 2, "x_dot": 3, "y_dot": 4, "wz": 5},
        "sixdof": dict(zip(mdl.names, range(13))),
        "dub2": {"x": 0, "y": 1, "heading": 2, "yaw": 2, "v": 3},
        "dub3": {"x": 0, "y": 1, "z": 2, "heading": 3, "yaw": 3, "gamma": 4, "pitch": 4, "roll": 5, "v": 6},
        "int1": {"x": 0, "x_dot": 1}, "int2": {"x": 0, "y": 1, "x_dot": 2, "y_dot": 3},
        "int3": {"x": 0, "y": 1, "z": 2, "x_dot": 3, "y_dot": 4, "z_dot": 5},
    }[k]
    zero = {"rot2d": ["z", "z_dot", "wx", "wy"], "dub2": ["z", "gamma", "pitch", "roll"], "int1": ["y", "z", "y_dot", "z_dot"], "int2": ["z", "z_dot"]}.get(k, [])
    for nm, i in direct.items():
        expect(nm, g(nm), s[i], state=s)
    for nm in zero:
        expect(nm, g(nm), 0.0, state=s)
    d = int(k[3]) if k.startswith("int") else 3
    pos = np.atleast_1d(np.array(e.position, dtype=np.float64))
    vel = np.atleast_1d(np.array(e.velocity, dtype=np.float64))
    if pos.shape != (d, ) or vel.shape != (d, ):
        fail("position or velocity has the wrong number of components", position=pos, velocity=vel)
    expect("position", pos, [g("x"), g("y"), g("z")][:d], 0.0, state=s)
    R = mat(e.orientation.as_matrix(), (3, 3), "orientation")
    if k in ("dub2", "dub3"):
        h, ga, ro, v = (s[2], 0.0, 0.0, s[3]) if k == "dub2" else s[3:7]
        nose = np.array([math.cos(h) * math.cos(ga), math.sin(h) * math.cos(ga), -math.sin(ga)])
        expect("velocity", vel, v * nose, 1e-6 * abs(v) + 1e-12, state=s)
        expect("orientation", R, ref.euler_zyx(h, ga, ro), 1e-6, state=s)
        expect("velocity (speed along the nose)", vel, v * (R @ [1, 0, 0]), 2e-6 * abs(v) + 1e-12, state=s)
        rate = num(e.state_dot[-1], "speed rate")
        acc = vec(e.acceleration, 3, "acceleration")
        expect("acceleration (speed rate along the nose)", acc, rate * nose, 1e-6 * abs(rate) + 1e-12, state=s, speed_rate=rate)
    else:
        expect("velocity", vel, [g("x_dot"), g("y_dot"), g("z_dot")][:d], 0.0, state=s)
    if k in ("point", "int1", "int2", "int3"):
        expect("orientation", R, np.eye(3), 1e-12)
    if k == "rot2d":
        expect("orientation", R, ref.euler_zyx(s[2], 0, 0), 1e-6, state=s)
        q = vec(e.quaternion, 4, "quaternion")
        expect("quaternion", ref.rot_from_quat(q), R, 1e-6, state=s)
        expect("q1..q4", [g("q1"), g("q2"), g("q3"), g("q4")], q, 1e-12)
        expect("angular_velocity", vec(e.angular_velocity, 3, "angular_velocity"), [0, 0, s[5]], 0.0)
    if k == "sixdof":
        q = s[3:7] / np.linalg.norm(s[3:7])
        expect("orientation", R, ref.rot_from_quat(q), 1e-9, state=s)
        got = vec(e.quaternion, 4, "quaternion")
        if not near(got, q, 1e-9) and not near(got, -q, 1e-9):
            fail("quaternion does not agree with the state", got=got, expected=q)
        expect("angular_velocity", vec(e.angular_velocity, 3, "angular_velocity"), s[10:13], 0.0)


# up to more than a turn, not near the vertical bank whose turn rate is unbounded
ANGLE = st.one_of(gen.fl(-1.2, 1.2), gen.fl(-1.2, 1.2), gen.fl(1.9, 4.3), gen.fl(-4.3, -1.9), gen.fl(5.1, 7), gen.fl(-7, -5.1))


@st.composite
def cases(draw):
    sp = draw(gen.spec(methods=("RK45", "RK45", "Euler"), jax=True))
    k = sp["k"]
    if k == "sixdof" and draw(st.integers(0, 3)) == 0:  # not normalised
        sp["init"].update(q1=draw(gen.fl(-3, 3)), q2=draw(gen.fl(-3, 3)), q3=draw(gen.fl(-3, 3)), q4=draw(st.sampled_from([0.5, -2.0])))
    if k == "sixdof" and draw(st.integers(0, 3)) == 0:  # some components only
        qs = draw(st.lists(st.sampled_from(["q1", "q2", "q3", "q4"]), min_size=0, max_size=2, unique=True))
        for q in ("q1", "q2", "q3", "q4"):
            sp["init"].pop(q, None)
        sp["init"].update({q: draw(st.sampled_from([1.0, -1.0, 0.5])) for q in qs})
    rest = False
    if k in ("dub2", "dub3") and draw(st.integers(0, 2)) == 0:  # at rest
        # (a coordinated turn has no rate at rest)
        sp["kw"].update(v_min=0.0 if k == "dub2" else 0.125, v_max=64.0)
        sp["init"]["v"] = draw(st.sampled_from([0.0, 0.0, 1.0, 0.125] if k == "dub2" else [0.125, 0.5, 1.0]))
        rest = True
    nu = len(ref.CONTROLS[k])
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        o = draw(st.sampled_from(["step", "step", "assign", "set", "set"]))
        op = {"op": o, "u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(1e-2, 20)), 2.0 if k == "sixdof" else 0.25 if rest and k == "dub3" else 20.0)}
        if o == "assign":
            op["init"] = draw(gen.init_state(sp))
        if o == "set" and k in SETTABLE:
            op["name"] = draw(st.sampled_from(SETTABLE[k]))
            op["val"] = draw(ANGLE) if op["name"] in ("heading", "gamma", "roll") else draw(st.one_of(gen.fl(1, 500), gen.fl(0.125, 1) if op["name"] == "v" else gen.fl(-1e5, 1e5)))
        ops.append(op)
    return {"spec": sp, "ops": ops, "rest": rest}


def check(case, rec):
    e, mdl = hist.start(case)
    s = hist.state_of(e, mdl, "initial state")
    if not same(s, mdl.s0):
        fail("the initial state is not the given one (unnamed components at their defaults)", given=case["spec"]["init"], layout=mdl.names, got=s, expected=mdl.s0)
    check_all(e, mdl, s)
    rec.label(mdl.kind)
    for op in case["ops"]:
        k = op["op"]
        s0 = hist.state_of(e, mdl)
        if k == "step":
            e.step(op["dt"], gen.control(mdl, op["u"]) if mdl.nu else None)
        elif k == "assign":
            new = ref.RefModel({"k": mdl.kind, "kw": case["spec"]["kw"], "init": op["init"]}).s0
            e.state = new.copy()
            if not same(hist.state_of(e, mdl), new):
                fail("assigning the state did not take", given=new, got=e.state)
        elif "name" in op:
            setattr(e, op["name"], op["val"])
            exp = s0.copy()
            exp[mdl.names.index(op["name"])] = op["val"]
            if not same(hist.state_of(e, mdl), exp):
                fail(f"setting {op['name']} did not change exactly that component", before=s0, value=op["val"], got=hist.state_of(e, mdl), expected=exp)
        s = hist.state_of(e, mdl)
        check_all(e, mdl, s)
        rec.nt(not same(s, s0))
        rec.label(k if k != "set" or "name" in op else "none", "at-rest" if case["rest"] and s[-1] == 0 else "moving")


SUBS = [Sub("accessors", cases, check, 2400, 24000, "any entity, partial initial values, 0-5 of step/assign/set; non-trivial: the state changed after construction", shards=4)]
