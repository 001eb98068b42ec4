"""Running generated histories on real entities."""
import collections

import numpy as np

from pbt import gen, ref
from pbt.core import Sub, fail, vec  # noqa: F401


def start(case, **over):
    """(entity, reference model) of a case; the initial state must be the documented one."""
    mdl = ref.RefModel(case["spec"])
    e = ref.build(case["spec"], **over)
    return e, mdl


def state_of(e, mdl, what="state"):
    return vec(e.state, mdl.n, what)


def steps(case, e, mdl):
    """Executes the case's steps; yields (state before, command, dt, state after, index)."""
    for i, stp in enumerate(case["steps"]):
        s = state_of(e, mdl, "state before step")
        u = gen.control(mdl, stp["u"])
        e.step(stp["dt"], u.copy() if mdl.nu else None)
        yield s, u, stp["dt"], state_of(e, mdl, "state after step"), i


def hill_thrust(mdl, s, u):
    """Orbital-frame force of a command at state s."""
    if mdl.kind == "point":
        return np.array(u[:3])
    if mdl.kind == "rot2d":
        c, sn = np.cos(s[2]), np.sin(s[2])
        return np.array([c * u[0] - sn * u[1], sn * u[0] + c * u[1], 0.0])
    return ref.rot_from_quat(s[3:7]) @ u[:3] if mdl.body else np.array(u[:3])


def pos_vel(mdl, s):
    """3D position and velocity of a spacecraft state."""
    k = mdl.kind
    if k == "point":
        return s[:3], s[3:6]
    if k == "rot2d":
        return np.array([s[0], s[1], 0.0]), np.array([s[3], s[4], 0.0])
    return s[:3], s[7:10]


FORMS = ["array", "list", "dict", "shuffled", "sparse"]


def action(form, mdl, u):
    """The command u as an action object of the given form (u has mdl.nu components)."""
    u = [float(x) for x in u]
    if form == "array":
        return np.array(u, dtype=np.float64)
    if form == "f32":
        return np.array(u, dtype=np.float32)
    if form == "list":
        return u
    if form == "dict":
        return dict(zip(mdl.ctrl, u))
    if form == "shuffled":
        return dict(reversed(list(zip(mdl.ctrl, u))))
    if form == "ordered":
        return collections.OrderedDict(reversed(list(zip(mdl.ctrl, u))))
    if form == "sparse":  # zero components left out
        return {n: x for n, x in zip(mdl.ctrl, u) if x != 0}
    if form == "numpy-scalars":
        return {n: np.float64(x) for n, x in zip(mdl.ctrl, u)}
    if form == "jax":
        import jax.numpy as jnp
        return jnp.array(u, dtype=jnp.float32)
    raise ValueError(form)


def observe(e, mdl):
    """Everything a caller can read about the motion, as one flat vector."""
    parts = [np.array(e.state, dtype=np.float64), np.array(e.state_dot, dtype=np.float64)]
    if mdl.kind != "sun":
        for a in (e.position, e.velocity):
            parts.append(np.atleast_1d(np.array(a, dtype=np.float64)))
        q = e.orientation.as_quat() if mdl.kind != "sixdof" or np.any(np.array(e.state)[3:7]) else np.zeros(4)
        parts.append(np.array(q, dtype=np.float64))
    return np.concatenate([p.ravel() for p in parts])
