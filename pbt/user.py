"""User-style dynamics models built on the library's base classes, with reference equations.

A model spec is {"type": linear|affine|general|timed, "n", "nu", "A", "B", "c", "lim", "wrap", "jax", "method", ...}.
Equations: linear  x' = A x + B u
           affine  x' = A sin(x) + (B * (1 + 0.5 cos(x_0))) u
           general x' = A tanh(x) + B u + c x_0 u_0           (plain ODE base class)
           timed   x' = A x + B u cos(w t) + c t
"""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from pbt import gen, ref


@st.composite
def model(draw, types=("linear", "affine", "general", "timed"), jax=False, limits=True, wrap=True, methods=("RK45", "RK45", "Euler"), nmax=4):
    n = draw(st.integers(1, nmax))
    nu = draw(st.integers(1, 3))
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    t = draw(st.sampled_from(list(types)))
    m = {"type": t, "n": n, "nu": nu, "A": [[v(0.5) for _ in range(n)] for _ in range(n)], "B": [[v(2) for _ in range(nu)] for _ in range(n)],
         "c": [v(1) for _ in range(n)], "w": v(2), "method": draw(st.sampled_from(list(methods))), "jax": bool(jax and draw(st.booleans()))}
    if limits and draw(st.booleans()):
        style = draw(st.sampled_from(["array", "scalar", "partial"]))
        if style == "scalar":
            m["smin"], m["smax"] = -draw(st.sampled_from([1.0, 2.5, 8.0])), draw(st.sampled_from([1.0, 2.5, 8.0]))
        else:
            m["smin"] = [draw(st.sampled_from([-1.0, -0.25, -4.0])) if style == "array" or draw(st.booleans()) else None for _ in range(n)]
            m["smax"] = [draw(st.sampled_from([1.0, 0.25, 4.0])) if style == "array" or draw(st.booleans()) else None for _ in range(n)]
    if limits and draw(st.booleans()):
        style = draw(st.sampled_from(["array", "scalar", "partial"]))
        if style == "scalar":
            m["dmin"], m["dmax"] = -draw(st.sampled_from([0.5, 1.0, 3.0])), draw(st.sampled_from([0.5, 1.0, 3.0]))
        else:
            m["dmin"] = [draw(st.sampled_from([-1.0, -0.25, -4.0])) if style == "array" or draw(st.booleans()) else None for _ in range(n)]
            m["dmax"] = [draw(st.sampled_from([1.0, 0.25, 4.0])) if style == "array" or draw(st.booleans()) else None for _ in range(n)]
    if wrap and draw(st.booleans()):
        m["wrap"] = [draw(st.sampled_from([None, 0.0, 0.5, 3.0, -2.0, math.pi, 10.0])) for _ in range(n)]
        # limits on wrapped components would fight the wrap
        for k in ("smin", "smax"):
            if k in m:
                if not isinstance(m[k], list):
                    m[k] = [m[k]] * n
                m[k] = [x if w is None else None for x, w in zip(m[k], m["wrap"])]
    return m


def _lim(x, n, inf):
    if x is None:
        return np.full(n, inf)
    if isinstance(x, list):
        return np.array([inf if v is None else v for v in x])
    return np.full(n, x)


class RefUser:
    """reference equations of a user model spec"""

    def __init__(self, m):
        self.m, self.n, self.nu = m, m["n"], m["nu"]
        self.A, self.B, self.c, self.w = np.array(m["A"], dtype=float), np.array(m["B"], dtype=float), np.array(m["c"], dtype=float), m["w"]
        self.smin, self.smax = _lim(m.get("smin"), self.n, -math.inf), _lim(m.get("smax"), self.n, math.inf)
        self.dmin, self.dmax = _lim(m.get("dmin"), self.n, -math.inf), _lim(m.get("dmax"), self.n, math.inf)
        self.wrap = m.get("wrap") or [None] * self.n

    def raw(self, t, x, u):
        k = self.m["type"]
        if k == "linear":
            return self.A @ x + self.B @ u
        if k == "affine":
            return self.A @ np.sin(x) + (self.B * (1 + 0.5 * math.cos(x[0]))) @ u
        if k == "general":
            return self.A @ np.tanh(x) + self.B @ u + self.c * x[0] * u[0]
        return self.A @ x + self.B @ u * math.cos(self.w * t) + self.c * t

    def limited(self, t, x, u):
        d = np.minimum(np.maximum(self.raw(t, x, u), self.dmin), self.dmax)
        d = np.where(x <= self.smin, np.maximum(d, 0.0), d)
        return np.where(x >= self.smax, np.minimum(d, 0.0), d)

    def clip(self, x):
        return np.minimum(np.maximum(x, self.smin), self.smax)

    def lo(self, x, u, dt):
        return solve_ivp(lambda t, y: self.limited(t, y, u), (0, dt), x).y[:, -1]

    def hi(self, x, u, dt, t_eval=None):
        s = solve_ivp(lambda t, y: self.limited(t, y, u), (0, dt), x, method="DOP853", rtol=1e-9, atol=1e-11, t_eval=t_eval)
        return s.y[:, -1] if t_eval is None else s.y.T

    def free(self, x, u, dt):
        return solve_ivp(lambda t, y: self.raw(t, y, u), (0, dt), x, rtol=1e-6, atol=1e-9).y[:, -1]

    def limits_bind(self):
        return bool(np.any(np.isfinite(np.concatenate([self.smin, self.smax, self.dmin, self.dmax]))))

    def flow_tol(self, x, u, dt, jax=False):
        """(tight solution before final limiting, tolerance)"""
        lo, hi = self.lo(x, u, dt), self.hi(x, u, dt)
        rel = 2e-5 if jax else 1e-8
        tol = np.full(self.n, 5 * np.max(np.abs(lo - hi)) + rel * (1 + np.max(np.abs(np.concatenate([x, hi])))) + 1e-9)
        if self.limits_bind():
            tol += 3e-3 * (np.max(np.abs(hi)) + np.max(np.abs(hi - x))) * (np.any(hi <= self.smin + 2e-2) or np.any(hi >= self.smax - 2e-2) or np.max(np.abs(self.free(x, u, dt) - hi)) > 1e-9)
            tol += 0.9 * np.abs(self.free(x, u, dt) - hi) + 0.1 * np.max(np.abs(self.free(x, u, dt) - hi))
        return hi, tol

    def diff(self, a, b):
        d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
        for i, c in enumerate(self.wrap):
            if c is not None:
                d[i] = (d[i] + math.pi) % (2 * math.pi) - math.pi
        return d


def build(m, **over):
    """the library-based dynamics object of a user model spec"""
    from safe_autonomy_dynamics.base_models import BaseControlAffineODESolverDynamics, BaseLinearODESolverDynamics, BaseODESolverDynamics
    n = m["n"]
    kw = {}

    def lim(key, inf):
        x = m.get(key)
        if x is None:
            return None
        return np.array([inf if v is None else v for v in x]) if isinstance(x, list) else x

    for key, name, inf in (("smin", "state_min", -np.inf), ("smax", "state_max", np.inf), ("dmin", "state_dot_min", -np.inf), ("dmax", "state_dot_max", np.inf)):
        x = lim(key, inf)
        if x is not None:
            kw[name] = x
    if m.get("wrap"):
        kw["angle_wrap_centers"] = np.array([np.nan if c is None else c for c in m["wrap"]])
    if m.get("jax"):
        kw["use_jax"] = True
    kw["integration_method"] = m.get("method", "RK45")
    if m.get("samples"):
        kw["trajectory_samples"] = m["samples"]
    kw.update(over)
    A, B, c, w = np.array(m["A"], dtype=float), np.array(m["B"], dtype=float), np.array(m["c"], dtype=float), m["w"]
    if m["type"] == "linear":
        return BaseLinearODESolverDynamics(A=A, B=B, **kw)
    if m["type"] == "affine":

        class Affine(BaseControlAffineODESolverDynamics):

            def state_transition_system(self, state):
                return A @ self.np.sin(state)

            def state_transition_input(self, state):
                return B * (1 + 0.5 * self.np.cos(state[0]))

        return Affine(**kw)

    class General(BaseODESolverDynamics):

        def _compute_state_dot(self, t, state, control):
            if m["type"] == "general":
                return A @ self.np.tanh(state) + B @ control + c * state[0] * control[0]
            return A @ state + (B @ control) * self.np.cos(w * t) + c * t

    assert n == A.shape[0]
    return General(**kw)


def entity(dyn, m, x0, umax=None, name="user", limits=None):
    """a user-defined entity on top of a user model"""
    from safe_autonomy_dynamics.base_models import BaseEntity
    from scipy.spatial.transform import Rotation

    class UserEntity(BaseEntity):

        def __init__(self, **kw):
            nu = m["nu"]
            lim = limits or {} if umax is None else {"control_min": -np.array(umax), "control_max": np.array(umax)}
            super().__init__(dyn, control_default=np.zeros(nu), control_map={f"a{i}": i for i in range(nu)}, **lim, **kw)

        def _build_state(self):
            return np.array(x0, dtype=np.float64)

        x = property(lambda self: self._state[0])
        y = property(lambda self: 0.0)
        z = property(lambda self: 0.0)
        position = property(lambda self: np.array([self.x, 0.0, 0.0]))
        velocity = property(lambda self: np.array([self.state_dot[0], 0.0, 0.0]))
        orientation = property(lambda self: Rotation.identity())

    return UserEntity(name=name)


@st.composite
def states(draw, m, beyond=True):
    """a state: inside, exactly at, or beyond the limits; wrapped components many turns away sometimes"""
    r = RefUser(m)
    out = []
    for i in range(m["n"]):
        lo, hi = r.smin[i], r.smax[i]
        k = draw(st.sampled_from(["in", "in", "lo", "hi", "below", "above"] if beyond else ["in", "in", "lo", "hi"]))
        if r.wrap[i] is not None:
            k = "in"
            out.append(ref.f32(r.wrap[i] + draw(st.one_of(gen.fl(-3.2, 3.2), gen.fl(-50, 50), st.sampled_from([3.140625, -3.140625])))))
            continue
        a, b = max(lo, -5.0), min(hi, 5.0)
        if k == "lo" and math.isfinite(lo):
            x = lo
        elif k == "hi" and math.isfinite(hi):
            x = hi
        elif k == "below" and math.isfinite(lo):
            x = lo - draw(st.sampled_from([1e-3, 0.5, 3.0]))
        elif k == "above" and math.isfinite(hi):
            x = hi + draw(st.sampled_from([1e-3, 0.5, 3.0]))
        else:
            x = draw(gen.fl(a, b))
        out.append(ref.f32(x))
    return out
