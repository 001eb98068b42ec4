"""Independent reference models of the simulated entities.

Everything here is derived from the published equations and the documented state / control layouts,
never from the library's code paths. A RefModel is built from a *spec* (see gen.py), not from an entity.
"""
import collections
import math

import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from pbt.core import fail, near

INF = math.inf
TWO_PI = 2 * math.pi

# documented defaults
M_CW, N_CW = 12.0, 0.001027
INERTIA, WHEEL_I, ACC_LIM, VEL_LIM, WHEEL_ACC, WHEEL_VEL = 0.0573, 4.1e-5, 0.017453, 0.034907, 181.3, 576.0
G_FT = 32.17

LAYOUT = {
    "point": ["x", "y", "z", "x_dot", "y_dot", "z_dot"],
    "rot2d": ["x", "y", "theta", "x_dot", "y_dot", "wz"],
    "sixdof": ["x", "y", "z", "q1", "q2", "q3", "q4", "x_dot", "y_dot", "z_dot", "wx", "wy", "wz"],
    "sun": ["theta"],
    "dub2": ["x", "y", "heading", "v"],
    "dub3": ["x", "y", "z", "heading", "gamma", "roll", "v"],
    "int1": ["x", "xdot"],
    "int2": ["x", "y", "xdot", "ydot"],
    "int3": ["x", "y", "z", "xdot", "ydot", "zdot"],
}
CONTROLS = {
    "point": ["thrust_x", "thrust_y", "thrust_z"],
    "rot2d": ["thrust_x", "thrust_y", "moment_z"],
    "sixdof": ["thrust_x", "thrust_y", "thrust_z", "moment_x", "moment_y", "moment_z"],
    "sun": [],
    "dub2": ["heading_rate", "acceleration"],
    "dub3": ["gamma_rate", "roll_rate", "acceleration"],
    "int1": ["thrust_x"],
    "int2": ["thrust_x", "thrust_y"],
    "int3": ["thrust_x", "thrust_y", "thrust_z"],
}
# components compared on a common scale
GROUPS = {
    "point": [[0, 1, 2], [3, 4, 5]],
    "rot2d": [[0, 1], [2], [3, 4], [5]],
    "sixdof": [[0, 1, 2], [3, 4, 5, 6], [7, 8, 9], [10, 11, 12]],
    "sun": [[0]],
    "dub2": [[0, 1], [2], [3]],
    "dub3": [[0, 1, 2], [3], [4], [5], [6]],
    "int1": [[0], [1]],
    "int2": [[0, 1], [2, 3]],
    "int3": [[0, 1, 2], [3, 4, 5]],
}
CLASS = {
    "point": "safe_autonomy_dynamics.cwh:CWHSpacecraft",
    "rot2d": "safe_autonomy_dynamics.cwh:CWHRotation2dSpacecraft",
    "sixdof": "safe_autonomy_dynamics.cwh:SixDOFSpacecraft",
    "sun": "safe_autonomy_dynamics.cwh.sun_model:SunEntity",
    "dub2": "safe_autonomy_dynamics.dubins:Dubins2dAircraft",
    "dub3": "safe_autonomy_dynamics.dubins:Dubins3dAircraft",
    "int1": "safe_autonomy_dynamics.integrators:Integrator1d",
    "int2": "safe_autonomy_dynamics.integrators:Integrator2d",
    "int3": "safe_autonomy_dynamics.integrators:Integrator3d",
}
KINDS = list(LAYOUT)
CONTROLLABLE = [k for k in KINDS if k != "sun"]
DEFAULT_INIT = {"dub2": {"v": 200.0}, "dub3": {"v": 200.0}}


def f32(x):
    return float(np.float32(x))


def rot_from_quat(q):
    """Rotation matrix of a scalar-last quaternion (homogeneous form: scales with |q|^2)."""
    x, y, z, w = q
    return np.array([
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ])


def quat_mul(a, b):
    """Hamilton product, scalar last."""
    av, aw, bv, bw = np.asarray(a[:3]), a[3], np.asarray(b[:3]), b[3]
    v = aw * bv + bw * av + np.cross(av, bv)
    return np.array([v[0], v[1], v[2], aw * bw - av @ bv])


def euler_zyx(yaw, pitch, roll):
    cy, sy, cp, sp, cr, sr = math.cos(yaw), math.sin(yaw), math.cos(pitch), math.sin(pitch), math.cos(roll), math.sin(roll)
    rz = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    return rz @ ry @ rx


def as3(x):
    """scalar or list -> three floats."""
    return [float(x)] * 3 if np.ndim(x) == 0 else [float(v) for v in x]


class RefModel:
    """Equations of motion, limits, wrapping and control range of one spec."""

    def __init__(self, spec):
        k = self.kind = spec["k"]
        kw = self.kw = dict(spec.get("kw", {}))
        self.names = LAYOUT[k]
        self.n = len(self.names)
        self.ctrl = CONTROLS[k]
        self.nu = len(self.ctrl)
        self.groups = GROUPS[k]
        n = self.n
        self.smin, self.smax = np.full(n, -INF), np.full(n, INF)
        self.dmin, self.dmax = np.full(n, -INF), np.full(n, INF)
        self.wrap = [None] * n
        self.umin, self.umax = -np.ones(self.nu), np.ones(self.nu)
        self.method = kw.get("integration_method", "RK45")
        self.jax = bool(kw.get("use_jax", False))
        getattr(self, "_init_" + k)(kw)
        init = dict(DEFAULT_INIT.get(k, {}))
        if k == "sixdof" and not any(q in spec.get("init", {}) for q in ("q1", "q2", "q3", "q4")):
            init["q4"] = 1.0
        init.update(spec.get("init", {}))
        self.s0 = np.array([f32(init.get(nm, 0.0)) for nm in self.names])

    # -- per kind -------------------------------------------------------------------------
    def _cw(self, kw):
        self.m, self.mm = float(kw.get("m", M_CW)), float(kw.get("n", N_CW))

    def _init_point(self, kw):
        self._cw(kw)

    def _init_rot2d(self, kw):
        self._cw(kw)
        self.I = float(kw.get("inertia", INERTIA))
        wi = kw.get("inertia_wheel", WHEEL_I)
        self.acc = min(kw.get("ang_acc_limit", ACC_LIM), wi * kw.get("acc_limit_wheel", WHEEL_ACC) / self.I)
        self.vel = min(kw.get("ang_vel_limit", VEL_LIM), wi * kw.get("vel_limit_wheel", WHEEL_VEL) / self.I)
        self.umin, self.umax = np.array([-1, -1, -self.acc * self.I]), np.array([1, 1, self.acc * self.I])
        self.smin[5], self.smax[5] = -self.vel, self.vel
        self.dmin[[2, 5]], self.dmax[[2, 5]] = [-self.vel, -self.acc], [self.vel, self.acc]
        self.wrap[2] = 0.0

    def _init_sixdof(self, kw):
        self._cw(kw)
        self.I3 = np.array(as3(kw.get("inertia_diag", INERTIA)))
        wi = kw.get("inertia_wheel", WHEEL_I)
        acc, vel = as3(kw.get("ang_acc_limit", ACC_LIM)), as3(kw.get("ang_vel_limit", VEL_LIM))
        self.acc = np.array([min(acc[i], wi * kw.get("acc_limit_wheel", WHEEL_ACC) / self.I3[i]) for i in range(3)])
        self.vel = np.array([min(vel[i], wi * kw.get("vel_limit_wheel", WHEEL_VEL) / self.I3[i]) for i in range(3)])
        self.body = bool(kw.get("body_frame_thrust", True))
        t = float(kw.get("thrust_control_limit", 1.0))
        self.umax = np.array([t, t, t] + list(self.acc * self.I3))
        self.umin = -self.umax
        self.smin[10:], self.smax[10:] = -self.vel, self.vel

    def _init_sun(self, kw):
        self.mm = float(kw.get("n", N_CW))

    def _init_dub2(self, kw):
        self.smin[3], self.smax[3] = f32(kw.get("v_min", 200)), f32(kw.get("v_max", 400))
        self.wrap[2] = 0.0
        self.umin = np.array([kw.get("heading_rate_control_min", -0.174533), kw.get("acceleration_control_min", -96.5)], dtype=float)
        self.umax = np.array([kw.get("heading_rate_control_max", 0.174533), kw.get("acceleration_control_max", 96.5)], dtype=float)

    def _init_dub3(self, kw):
        self.g = float(kw.get("g", G_FT))
        self.smin[4:] = [f32(kw.get("gamma_min", -0.349066)), f32(kw.get("roll_min", -1.047198)), f32(kw.get("v_min", 200))]
        self.smax[4:] = [f32(kw.get("gamma_max", 0.349066)), f32(kw.get("roll_max", 1.047198)), f32(kw.get("v_max", 400))]
        self.wrap[3] = self.wrap[4] = self.wrap[5] = 0.0
        self.umin = np.array([
            kw.get("gamma_rate_control_min", -0.174533),
            kw.get("roll_rate_control_min", -0.087266),
            kw.get("acceleration_control_min", -96.5)
        ], dtype=float)
        self.umax = np.array([
            kw.get("gamma_rate_control_max", 0.174533),
            kw.get("roll_rate_control_max", 0.087266),
            kw.get("acceleration_control_max", 96.5)
        ], dtype=float)

    def _int(self, kw):
        self.m, self.d = float(kw.get("m", 1.0)), float(kw.get("damping", 0.0))

    _init_int1 = _init_int2 = _init_int3 = _int

    # -- equations of motion ----------------------------------------------------------------
    def cw_acc(self, r, v):
        n = self.mm
        return np.array([3 * n * n * r[0] + 2 * n * v[1], -2 * n * v[0], -n * n * r[2]])

    def raw(self, s, u):
        return getattr(self, "_raw_" + self.kind)(s, u)

    def _raw_point(self, s, u):
        return np.concatenate([s[3:6], self.cw_acc(s[:3], s[3:6]) + u / self.m])

    def _raw_rot2d(self, s, u):
        a = self.cw_acc([s[0], s[1], 0.0], [s[3], s[4], 0.0])
        c, sn = math.cos(s[2]), math.sin(s[2])
        fx, fy = c * u[0] - sn * u[1], sn * u[0] + c * u[1]
        return np.array([s[3], s[4], s[5], a[0] + fx / self.m, a[1] + fy / self.m, u[2] / self.I])

    def _raw_sixdof(self, s, u):
        _, _, _, a, b, c, d, vx, vy, vz, p, q, r = s.tolist()
        I1, I2, I3 = self.I3.tolist()
        u = [float(x) for x in u]
        if self.body:
            f = rot_from_quat((a, b, c, d)) @ np.array(u[:3])
        else:
            f = np.array(u[:3])
        # q' = 1/2 q * (w, 0)  (Hamilton product, scalar last)
        qd = [0.5 * (d * p + b * r - c * q), 0.5 * (d * q + c * p - a * r), 0.5 * (d * r + a * q - b * p), -0.5 * (a * p + b * q + c * r)]
        # I w' = M - w x I w
        wd = [(u[3] - (q * I3 * r - r * I2 * q)) / I1, (u[4] - (r * I1 * p - p * I3 * r)) / I2, (u[5] - (p * I2 * q - q * I1 * p)) / I3]
        acc = self.cw_acc(s[:3], (vx, vy, vz)) + f / self.m
        return np.array([vx, vy, vz] + qd + acc.tolist() + wd)

    def _raw_sun(self, s, u):
        return np.array([self.mm])

    def _raw_dub2(self, s, u):
        return np.array([s[3] * math.cos(s[2]), s[3] * math.sin(s[2]), u[0], u[1]])

    def _raw_dub3(self, s, u):
        h, ga, ro, v = s[3:7]
        return np.array([
            v * math.cos(h) * math.cos(ga), v * math.sin(h) * math.cos(ga), -v * math.sin(ga), self.g / v * math.tan(ro), u[0], u[1], u[2]
        ])

    def _raw_int(self, s, u):
        k = self.n // 2
        return np.concatenate([s[k:], u / self.m - self.d * s[k:]])

    _raw_int1 = _raw_int2 = _raw_int3 = _raw_int

    # -- limits ---------------------------------------------------------------------------------
    def limited(self, s, u):
        d = np.minimum(np.maximum(self.raw(s, u), self.dmin), self.dmax)
        d = np.where(s <= self.smin, np.maximum(d, 0.0), d)
        return np.where(s >= self.smax, np.minimum(d, 0.0), d)

    def finish(self, s):
        """final limiting (no wrapping)."""
        return np.minimum(np.maximum(s, self.smin), self.smax)

    def clip_u(self, u):
        return np.minimum(np.maximum(np.asarray(u, dtype=float), self.umin), self.umax)

    # -- flows ----------------------------------------------------------------------------------
    def lo(self, s, u, dt):
        """the documented accuracy class: scipy's default RK45."""
        sol = solve_ivp(lambda t, y: self.limited(y, u), (0, dt), s)
        return sol.y[:, -1]

    def hi(self, s, u, dt, t_eval=None):
        """tight solution."""
        sc = np.maximum(np.abs(s), 1e-3)
        sol = solve_ivp(lambda t, y: self.limited(y, u), (0, dt), s, method="DOP853", rtol=1e-9, atol=1e-10 * sc + 1e-13, t_eval=t_eval)
        return sol.y[:, -1] if t_eval is None else sol.y.T

    def scale(self, s, u, dt, hi):
        """per-group scale of the change over the step."""
        d = np.abs(self.limited(s, u)) * dt
        ch = np.maximum(np.abs(hi - s), d)
        out = np.zeros(self.n)
        for g in self.groups:
            out[g] = np.max(ch[g])
        return out

    def mag(self, s):
        out = np.zeros(self.n)
        for g in self.groups:
            out[g] = np.max(np.abs(s[g]))
        return out

    def diff(self, a, b):
        """a - b, wrapped components modulo one turn."""
        d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
        for i, c in enumerate(self.wrap):
            if c is not None:
                d[i] = (d[i] + math.pi) % TWO_PI - math.pi
        return d

    def tol(self, s, u, dt, lo, hi, rel=3e-6, state_rel=1e-8):
        e = np.abs(lo - hi)
        t = np.zeros(self.n)
        for g in self.groups:
            t[g] = 5 * np.max(e[g])
        return t + rel * self.scale(s, u, dt, hi) + state_rel * np.maximum(self.mag(s), self.mag(hi)) + 1e-9 + self.turning(s)

    def turning(self, s):
        """what taking whole turns off costs in single precision (jax variants), where the angle itself may be small"""
        out = np.zeros(self.n)
        if self.jax:
            for i, c in enumerate(self.wrap):
                if c is not None:
                    out[i] = 3e-7 * (abs(s[i]) + 2 * math.pi)
        return out

    def kink(self, s, u, dt, hi, part=0.9):
        """allowance for a limit met inside the step: a fraction of the difference ignoring all limits would make (0 if none binds)."""
        if not (np.any(np.isfinite(self.smin)) or np.any(np.isfinite(self.smax)) or np.any(np.isfinite(self.dmin)) or np.any(np.isfinite(self.dmax))):
            return np.zeros(self.n)
        free = solve_ivp(lambda t, y: self.raw(y, u), (0, dt), s, rtol=1e-6, atol=1e-8).y[:, -1]
        d = np.abs(self.diff(free, hi))
        out = np.zeros(self.n)
        # an adaptive solver's stages may cross a limit the solution only just reaches: its own relative tolerance is all that is left then
        w = np.where(np.isfinite(self.smax - self.smin), self.smax - self.smin, 0.0)
        close = bool(np.any((hi <= self.smin + 2e-2 * w) | (hi >= self.smax - 2e-2 * w)) and np.any(w > 0))
        sc = self.scale(s, u, dt, hi) if close or np.max(d) > 1e-9 else out
        for g in self.groups:
            out[g] = part * np.max(d[g]) + 3e-3 * np.max(sc[g])
        return out

    def flow_tol(self, s, u, dt, rel=3e-6, state_rel=1e-8):
        """(tight solution, componentwise tolerance any solution of the documented accuracy meets)."""
        lo, hi = self.finish(self.lo(s, u, dt)), self.finish(self.hi(s, u, dt))
        return hi, self.tol(s, u, dt, lo, hi, rel, state_rel) + self.kink(s, u, dt, hi)

    def euler(self, s, u, dt):
        """(state after one Euler step, tolerance); no tolerance where rounding decides whether a limit is met"""
        exp = self.finish(s + dt * self.limited(s, u))
        sc = self.scale(s, u, dt, exp)
        if self.kind in ("point", "rot2d", "sixdof"):  # cancellation inside the acceleration
            g = {"point": [3, 4, 5], "rot2d": [3, 4], "sixdof": [7, 8, 9]}[self.kind]
            sc[g] += dt * (3 * self.mm**2 * np.max(np.abs(s[:3])) + 2 * self.mm * np.max(np.abs(s[g])) + np.linalg.norm(u) / self.m)
        tol = (2e-5 if self.jax else 2e-6) * sc + (2e-6 if self.jax else 3e-7) * np.maximum(self.mag(s), self.mag(exp)) + 1e-9
        if self.jax:  # wrapping adds and removes pi in single precision
            tol += np.array([0.0 if c is None else 2e-6 for c in self.wrap])
        # states within rounding of a limit may or may not count as being on it
        fin = np.isfinite(self.smin)
        edge = fin & ((np.abs(s - self.smin) < 1e-6 * np.abs(self.smin)) | (np.abs(s - self.smax) < 1e-6 * np.abs(self.smax))) & (s != self.smin) & (s != self.smax)
        return exp, None if np.any(edge) else tol

    def check_flow(self, s, u, dt, got, what="state after step", rel=None, state_rel=None, lo=None, hi=None):
        """got must be the state reached from s under constant control u after dt."""
        if rel is None:
            rel = 3e-4 if self.jax else 3e-6
        if state_rel is None:
            state_rel = 5e-6 if self.jax else 1e-8
        s, u = np.asarray(s, dtype=float), np.asarray(u, dtype=float)
        lo = self.lo(s, u, dt) if lo is None else lo
        hi = self.hi(s, u, dt) if hi is None else hi
        lo, hi = self.finish(lo), self.finish(hi)
        t = self.tol(s, u, dt, lo, hi, rel, state_rel)
        if near(self.diff(got, hi), 0, t):
            return hi
        # the library's own accuracy class, reproduced from the reference equations
        t2 = rel * self.scale(s, u, dt, hi) + state_rel * np.maximum(self.mag(s), self.mag(hi)) + 1e-9 + self.turning(s)
        if near(self.diff(got, lo), 0, t2):
            return hi
        # a limit is met inside the step: an adaptive step may straddle the kink, so allow a fraction of the limit's whole effect
        t = t + self.kink(s, u, dt, hi)
        if near(self.diff(got, hi), 0, t):
            return hi
        bad = [self.names[i] if i < len(self.names) else i for i in np.nonzero(~(np.abs(self.diff(got, hi)) <= t))[0]]
        fail(f"{what} is not the solution of the equations of motion (components {bad})", start=s, control=u, dt=dt, got=np.asarray(got),
             expected=hi, tolerance=t)

    def check_deriv(self, s, u, got, what="derivative", rel=None):
        """got must be the limited derivative at (s, u)."""
        s = np.asarray(s, dtype=float)
        u = np.asarray(u, dtype=float)
        exp = self.limited(s, u)
        rel = rel or (2e-5 if self.jax else 1e-6)
        # scale of the terms, so that cancellation does not demand more than the arithmetic gives
        sc = np.zeros(self.n)
        terms = np.maximum(np.abs(self.raw(s, u)), np.abs(self.raw(s, 0 * u)))
        terms = np.where(np.isfinite(terms), terms, 0)
        for g in self.groups:
            sc[g] = np.max(terms[g])
        if hasattr(self, "mm") and self.kind != "sun":
            i0 = {"point": [3, 4, 5], "rot2d": [3, 4], "sixdof": [7, 8, 9]}[self.kind]
            nu = 2 if self.kind == "rot2d" else 3
            pos = s[:nu]
            sc[i0] += 3 * self.mm**2 * np.max(np.abs(pos)) + np.linalg.norm(u[:nu]) / self.m
        if self.kind == "rot2d":
            # heading known to float32 in the jax variant
            pass
        t = rel * sc + 1e-12
        if not near(got, exp, t):
            bad = [self.names[i] for i in np.nonzero(~(np.abs(np.asarray(got) - exp) <= t))[0]]
            fail(f"{what} is not the limited equation of motion (components {bad})", state=s, control=u, got=np.asarray(got), expected=exp,
                 tolerance=t)
        return exp


def cw_closed_form(m, n, s, f, dt):
    """Exact CW solution under constant Hill-frame force (3D), by matrix exponential of the augmented system."""
    A = np.zeros((7, 7))
    A[:3, 3:6] = np.eye(3)
    A[3, 0], A[3, 4], A[4, 3], A[5, 2] = 3 * n * n, 2 * n, -2 * n, -n * n
    A[3:6, 6] = np.asarray(f) / m
    # scaling keeps expm well conditioned for widely different units
    return (expm(A * dt) @ np.append(np.asarray(s, dtype=float), 1.0))[:6]


_DECOYS = collections.deque(maxlen=16)  # still alive while the entity under test is used


def build(spec, name="e", **over):
    """The entity described by a spec."""
    import importlib
    if "decoy" in spec:
        d = spec["decoy"]
        plain = {k: v for k, v in spec.items() if k != "decoy"}
        e = build(plain, name, **over) if d["when"] == "after" else None
        o = build({"k": spec["k"], "kw": d["kw"], "init": spec.get("init", {})}, name + "~")
        if d["step"]:
            o.step(0.125)
        _DECOYS.append(o)
        return build(plain, name, **over) if e is None else e
    mod, cls = CLASS[spec["k"]].split(":")
    kw = dict(spec.get("kw", {}))
    kw.update(over)
    if "inertia_diag" in kw:
        d = as3(kw.pop("inertia_diag"))
        form = kw.pop("inertia_form", "array")
        kw["inertia_matrix"] = np.matrix(np.diag(d)) if form == "matrix" else np.diag(d)
    for key in ("ang_acc_limit", "ang_vel_limit"):
        form = kw.pop(key + "_form", None)
        if key in kw and form == "array":
            kw[key] = np.array(kw[key], dtype=np.float64)
    kw.update({k: v for k, v in spec.get("init", {}).items()})
    form = spec.get("num")
    if form:  # numbers as numpy scalars, or as integers where they are whole
        for k, v in kw.items():
            if isinstance(v, bool):
                kw[k] = np.bool_(v) if k == "body_frame_thrust" else v
            elif isinstance(v, float):
                kw[k] = np.float64(v) if form == "np" else int(v) if v == int(v) else v
    return getattr(importlib.import_module(mod), cls)(name=name, **kw)
