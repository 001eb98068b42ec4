"""C19 malformed construction is rejected; valid construction works."""
import importlib
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, expect_raises, fail, mat, near, same
from pbt.checks.c18 import FIELDS as UNIT_FIELDS, WRONG

ASSUMPTIONS = ["constructor errors of entities must derive from ValueError; dynamics arguments may be rejected with any exception (the library asserts)"]

FIELDS = {**{k: sorted(v) for k, v in UNIT_FIELDS.items()}, "int1": ["x", "xdot"], "int2": ["x", "y", "xdot", "ydot"], "int3": ["x", "y", "z", "xdot", "ydot", "zdot"]}
FIELDS["sixdof"] = FIELDS["sixdof"] + ["q1", "q2", "q3", "q4"]
PARAMS = {
    "point": ["sim", "m", "n", "trajectory_samples", "integration_method"],
    "rot2d": ["sim", "m", "inertia", "ang_acc_limit", "ang_vel_limit", "inertia_wheel", "acc_limit_wheel", "vel_limit_wheel", "n", "trajectory_samples", "integration_method", "use_jax"],
    "sixdof": ["sim", "m", "inertia_matrix", "ang_acc_limit", "ang_vel_limit", "inertia_wheel", "acc_limit_wheel", "vel_limit_wheel", "thrust_control_limit", "body_frame_thrust", "n",
               "trajectory_samples", "integration_method"],
    "sun": ["n", "integration_method", "use_jax"],
    "dub2": ["z", "trajectory_samples", "integration_method", "v_min", "v_max", "heading_rate_control_min", "heading_rate_control_max", "acceleration_control_min", "acceleration_control_max"],
    "dub3": ["trajectory_samples", "integration_method", "v_min", "v_max", "gamma_min", "gamma_max", "roll_min", "roll_max", "gamma_rate_control_min", "gamma_rate_control_max",
             "roll_rate_control_min", "roll_rate_control_max", "acceleration_control_min", "acceleration_control_max"],
    "int1": ["m", "damping", "trajectory_samples", "integration_method", "y", "z", "ydot", "zdot"], "int2": ["m", "damping", "trajectory_samples", "integration_method", "z", "zdot"],
    "int3": ["m", "damping", "trajectory_samples", "integration_method"],
}
# names of the entities' internals that are not for callers, and other classes' fields
RESERVED = {"dynamics", "control_default", "control_min", "control_max", "control_map", "name", "self", "config", "kwargs"}
POOL = sorted({f for v in FIELDS.values() for f in v} | {"vx", "X", "position", "velocity", "theta_dot", "mass", "Name", "x_", "q0", "pitch", "yaw", "speed", "x-dot", "model_config", "q5", "extra"})
BAD = ["abc", "", "1.5m", "none", None, [1.0], [], {}, {"a": 1}, [1, 2], "object", "complex", "nan?", "tuple"]


def value(b):
    return {"object": object(), "complex": 1 + 2j, "tuple": (1.0, )}.get(b, b) if isinstance(b, str) else b


@st.composite
def cases(draw):
    sp = draw(gen.spec(methods=("RK45", "Euler"), jax=True, samples=True))
    k = sp["k"]
    how = draw(st.sampled_from(["noname", "unknown", "unknown", "value", "value", "dimension", "samples"]))
    c = {"spec": sp, "how": how}
    if how == "unknown":
        ok = set(FIELDS[k]) | set(PARAMS[k]) | RESERVED
        rnd = st.text("abcdefgxyzqw_0123", min_size=2, max_size=9).filter(lambda s: re.match(r"^[a-z_]\w*$", s))
        c["kw"] = draw(st.one_of(st.sampled_from([p for p in POOL if p not in ok]), rnd.filter(lambda s: s not in ok)))
        c["val"] = draw(st.sampled_from([0, 1.5, 0.0, None, "a"]))
    elif how == "value":
        c["kw"] = draw(st.sampled_from(FIELDS[k]))
        c["val"] = draw(st.sampled_from(BAD))
    elif how == "dimension":
        fs = [f for f in FIELDS[k] if f in UNIT_FIELDS.get(k, {})]
        c["kw"] = draw(st.sampled_from(fs)) if fs else draw(st.sampled_from(FIELDS[k]))
        c["val"] = draw(gen.fl(-10, 10))
        c["unit"] = draw(st.sampled_from(WRONG[UNIT_FIELDS[k][c["kw"]]] if fs else ["second", "kilogram"]))
    elif how == "samples":
        c["val"] = draw(st.sampled_from([1.5, 2.0, "3", None, [2], 0.0]))
    return c


def check(case, rec):
    import pint
    sp, how = case["spec"], case["how"]
    k = sp["k"]
    mdl = ref.RefModel(sp)
    e = ref.build(sp)  # valid construction works
    if not same(hist.state_of(e, mdl), mdl.s0) or e.name != "e":
        fail("a valid construction did not give the entity asked for", got=e.state, expected=mdl.s0)
    mod, cls = ref.CLASS[k].split(":")
    cls = getattr(importlib.import_module(mod), cls)
    from pbt.checks.c16 import shared_kwargs
    kw = shared_kwargs(sp)
    bad = dict(kw)
    kinds = ValueError
    if how == "noname":
        what = "no name"
    elif how == "samples":
        if k == "sun":
            return
        bad.update(name="e", trajectory_samples=value(case["val"]))
        kinds = Exception
        what = f"trajectory_samples={case['val']!r}"
    else:
        v = value(case["val"])
        if how == "dimension":
            v = pint.Quantity(case["val"], case["unit"])
        bad["name"] = "e"
        bad[case["kw"]] = v
        what = f"{case['kw']}={v!r}"
    expect_raises(kinds, lambda: cls(**bad), f"{cls.__name__} with {what}")
    kw["name"] = "again"
    if not same(hist.state_of(cls(**kw), mdl), mdl.s0):
        fail("a valid construction after a rejected one is wrong", expected=mdl.s0)
    rec.nt()
    rec.label(k, how)


@st.composite
def matrix_cases(draw):
    n, nu = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    how = draw(st.sampled_from(["good", "good", "wide", "tall", "flatA", "flatB", "cubeA", "cubeB", "rows", "samples"]))
    d = draw(st.integers(1, 3))
    a, b = [n, n], [n, nu]
    if how == "wide":
        a, b = [n, n + d], [n + draw(st.sampled_from([0, d])), nu]
    elif how == "tall":
        a, b = [n + d, n], [n + draw(st.sampled_from([0, d])), nu]
    elif how == "flatA":
        a = [n]
    elif how == "flatB":
        b = [n]
    elif how == "cubeA":
        a = [n, n, n]
    elif how == "cubeB":
        b = [n, nu, 1]
    elif how == "rows":
        b = [n + d if draw(st.booleans()) or n <= d else n - d, nu]
    return {"how": how, "a": a, "b": b, "samples": draw(st.sampled_from([1.5, 2.0, "3", None])) if how == "samples" else draw(st.integers(0, 5)), "jax": draw(st.booleans())}


def check_matrix(case, rec):
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    A, B = np.full(case["a"], 0.25), np.full(case["b"], 0.5)
    make = lambda: BaseLinearODESolverDynamics(A=A, B=B, trajectory_samples=case["samples"], use_jax=case["jax"])  # noqa: E731
    rec.nt(case["how"] != "good")
    rec.label(case["how"], "jax" if case["jax"] else "numpy")
    if case["how"] != "good":
        expect_raises(Exception, make, f"linear dynamics with A {case['a']}, B {case['b']}, trajectory_samples {case['samples']!r}")
        return
    d = make()
    got, _ = d.step(0.5, np.zeros(case["a"][0]), np.ones(case["b"][1]))
    if not np.all(np.isfinite(np.asarray(got))) or np.asarray(got).shape != (case["a"][0], ):
        fail("well-formed linear dynamics do not step", got=got)


MODES = ["1d", "2d", "3d", "4d", "0d", "", "3D", "2D", " 2d", "d", "cwh", "1", None, 2, 3, "2d3d"]


def mode_cases():
    return st.fixed_dictionaries({"which": st.sampled_from(["cwh", "int", "intdyn"]), "mode": st.one_of(st.sampled_from(MODES), st.text("123dD", max_size=3)), "m": gen.logf(0.1, 1e3),
                                  "n": gen.fl(0, 0.1)})


def check_mode(case, rec):
    from safe_autonomy_dynamics.cwh import generate_cwh_matrices
    from safe_autonomy_dynamics.integrators import IntegratorDynamics, generate_dynamics_matrices
    m, n, mode = case["m"], case["n"], case["mode"]
    if case["which"] == "cwh":
        f, ok = (lambda: generate_cwh_matrices(m, n, mode)), ("2d", "3d")
    elif case["which"] == "int":
        f, ok = (lambda: generate_dynamics_matrices(m, n, mode)), ("1d", "2d", "3d")
    else:
        f, ok = (lambda: (lambda d: (d.A, d.B))(IntegratorDynamics(m, n, mode))), ("1d", "2d", "3d")
    rec.label(case["which"], "known" if mode in ok else "unknown")
    rec.nt(mode not in ok)
    if mode not in ok:
        expect_raises(Exception, f, f"{case['which']} matrices with mode {mode!r}")
        return
    k = int(mode[0])
    A, B = f()
    A, B = mat(A, (2 * k, 2 * k), "A"), mat(B, (2 * k, k), "B")
    EA, EB = np.zeros((2 * k, 2 * k)), np.zeros((2 * k, k))
    EA[:k, k:] = np.eye(k)
    EB[k:] = np.eye(k) / m
    if case["which"] == "cwh":
        EA[k, 0], EA[k, k + 1], EA[k + 1, k] = 3 * n * n, 2 * n, -2 * n
        if k == 3:
            EA[5, 2] = -n * n
    else:
        EA[k:, k:] = -n * np.eye(k)
    if not near(A, EA, 1e-9 * np.abs(EA)) or not near(B, EB, 1e-9 * np.abs(EB)):
        fail(f"wrong {mode} matrices", A=A, expected_A=EA, B=B, expected_B=EB)


SUBS = [
    Sub("entities", cases, check, 3000, 15000, "valid random specs, then one defect (no name, unknown keyword, non-number, wrong dimension, sample count); all non-trivial", shards=4),
    Sub("matrices", matrix_cases, check_matrix, 1000, 5000, "linear dynamics with matrices of random shapes; non-trivial: malformed", shards=2),
    Sub("modes", mode_cases, check_mode, 1000, 5000, "matrix builders with known and unknown dimensionality; non-trivial: unknown"),
]
