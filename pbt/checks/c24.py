"""C24 user-defined dynamics."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp
from scipy.linalg import expm

from pbt import gen, ref, user
from pbt.core import Sub, expect_raises, fail, near, same, vec

ASSUMPTIONS = ["jax variants run in single precision", "solver accuracy is that of scipy's default RK45; a limit met inside a step may be straddled by one adaptive step"]


@st.composite
def big_model(draw, **kw):
    m = draw(user.model(nmax=6, **kw))
    if draw(st.booleans()):  # 1-4 inputs
        nu = draw(st.integers(1, 4))
        m["nu"] = nu
        m["B"] = [[draw(gen.fl(-2, 2)) for _ in range(nu)] for _ in range(m["n"])]
    return m


def control_seq(draw, m, dmax=3.0, nmax=3):
    return [{"u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(1e-3, dmax if not m["jax"] else 0.5))} for _ in range(draw(st.integers(1, nmax)))]


@st.composite
def linear_cases(draw):
    m = draw(big_model(types=("linear", ), limits=False, wrap=False, methods=("RK45", )))
    k = draw(st.sampled_from([1.0, 1.0, 3.0, 0.1, 0.0]))
    m["A"] = [[k * a for a in r] for r in m["A"]]
    big = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e3, 1e6, 1e9]))  # nothing in such a model has a scale of its own
    seq = control_seq(draw, m)
    for s in seq:
        s["u"] = [v * big for v in s["u"]]
    return {"m": m, "x": [v * big for v in draw(user.states(m))], "seq": seq, "attack": draw(st.booleans())}


def exact(A, B, x, u, dt):
    n = len(x)
    M = np.zeros((n + 1, n + 1))
    M[:n, :n], M[:n, n] = A, B @ u
    return (expm(M * dt) @ np.append(x, 1.0))[:n]


def check_linear(case, rec):
    """x' = Ax + Bu against the matrix exponential"""
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    m = case["m"]
    A0, B0 = np.array(m["A"], dtype=float), np.array(m["B"], dtype=float)
    A, B = A0.copy(), B0.copy()
    dyn = BaseLinearODESolverDynamics(A=A, B=B, integration_method="RK45")
    if case["attack"]:
        A[...] = 55.0
        B[...] = -7.0
    r = user.RefUser(m)
    x = np.array(case["x"], dtype=float)
    for s in case["seq"]:
        u, dt = np.array(s["u"]), s["dt"]
        got, dot = dyn.step(dt, x.copy(), u.copy())
        got, dot = vec(got, r.n, "state"), vec(dot, r.n, "derivative")
        ex, lo = exact(A0, B0, x, u, dt), r.lo(x, u, dt)
        mag = 1 + np.max(np.abs(ex)) + np.max(np.abs(x))
        if not near(got, ex, 5 * np.max(np.abs(lo - ex)) + 1e-8 * mag) and not near(got, lo, 1e-8 * mag):
            fail("linear model is not integrated as x' = Ax + Bu", A=A0, B=B0, x=x, u=u, dt=dt, got=got, expected=ex, matrices_changed_by_caller=case["attack"])
        exd = A0 @ got + B0 @ u
        sc = np.max(np.abs(A0) @ np.abs(got)) + np.max(np.abs(B0) @ np.abs(u))
        if not near(dot, exd, 1e-9 * sc + 1e-12) or not near(vec(dyn.compute_state_dot(0.0, x, u), r.n, "derivative"), A0 @ x + B0 @ u, 1e-9 * (1 + mag * 50)):
            fail("derivative of a linear model is not Ax + Bu", A=A0, B=B0, x=got, u=u, got=dot, expected=exd)
        x = got
        rec.nt(not near(ex, lo * 0 + np.array(case["x"]), 1e-6))
    if same(A, A0) == case["attack"] and np.any(A0 != 55.0):
        fail("the caller's A was modified", got=A, expected=A0)
    rec.label(f"n{m['n']}", f"nu{m['nu']}", "attacked" if case["attack"] else "calm", "unstable" if np.max(np.linalg.eigvals(A0).real) > 0 else "stable")


@st.composite
def general_cases(draw):
    m = draw(big_model(types=("affine", "general", "timed", "affine", "general", "timed", "linear"), jax=draw(st.integers(0, 9)) == 0))
    if m["jax"] and draw(st.booleans()):
        m["method"] = "RK45_JAX"
    return {"m": m, "x": draw(user.states(m, beyond=False)), "seq": control_seq(draw, m)}


def check_general(case, rec):
    """each step is the flow from t=0 with limits and wrapping; the derivative is that of the end of the step"""
    m = case["m"]
    r = user.RefUser(m)
    dyn = user.build(m)
    x = np.array(case["x"], dtype=float)
    for s in case["seq"]:
        u, dt = np.array(s["u"]), s["dt"]
        got, dot = dyn.step(dt, x.copy(), u.copy())
        got, dot = vec(got, r.n, "state"), vec(dot, r.n, "derivative")
        jt = 2e-5 if m["jax"] else 1e-9
        if m["method"] == "Euler":
            # states within rounding of a limit may or may not count as being on it
            exp = x + dt * r.limited(0.0, x, u)
            tol = jt * (1 + np.max(np.abs(x)) + np.max(np.abs(exp)) + 10 * dt)
            edge = any(np.any((np.abs(x - l) < 1e-5) & (x != l)) for l in (r.smin, r.smax))
        else:
            exp, tol = r.flow_tol(x, u, dt, jax=m["jax"])
            edge = m["jax"] and any(np.any((np.abs(x - l) < 1e-5) & (x != l)) for l in (r.smin, r.smax))
        raw_end = exp
        exp = r.clip(exp)
        if not edge and not near(r.diff(got, exp), 0, tol):
            fail("a user-defined model is not integrated as specified", model=m["type"], method=m["method"], jax=m["jax"], x=x, u=u, dt=dt, got=got, expected=exp, tolerance=tol)
        for i in range(r.n):
            if not r.smin[i] - 1e-12 <= got[i] <= r.smax[i] + 1e-12:
                fail("a state limit of a user-defined model is violated", got=got, low=r.smin, high=r.smax)
        # derivative at the end of the step (evaluated before final limiting and wrapping), away from limits
        inside = np.all((raw_end - r.smin > 1e-3 + tol) & (r.smax - raw_end > 1e-3 + tol))
        if inside and (not m.get("wrap") or np.max(tol) < 0.5):  # (else the number of turns is the solver's)
            turns = np.array([0.0 if c is None else 2 * math.pi * round((e - g) / (2 * math.pi)) for c, e, g in zip(r.wrap, raw_end, got)])
            exd = r.limited(dt, got + turns, u)
            term = 1 + np.max(np.abs(r.A)) * np.sum(np.abs(got + turns)) + 2 * np.sum(np.abs(r.B)) * np.max(np.abs(u)) + np.max(np.abs(r.c)) * (dt + abs(got[0] + turns[0]) * np.max(np.abs(u)))
            if not near(dot, exd, (1e-4 if m["jax"] else 1e-7) * term):
                fail("reported derivative of a user-defined model is not its equation at the end of the step", model=m["type"], method=m["method"], x=got, u=u, t=dt, got=dot, expected=exd)
        x = got
        rec.nt(not near(got, np.array(case["x"]), 1e-6))
    rec.label(m["type"], m["method"], "jax" if m["jax"] else "numpy", f"n{m['n']}", "limits" if r.limits_bind() else "free", "wrap" if m.get("wrap") else "no-wrap")


@st.composite
def entity_cases(draw):
    m = draw(big_model(methods=("RK45", "Euler"), wrap=False))
    nu = m["nu"]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append({"form": draw(st.sampled_from(["array", "list", "dict", "part", "none", "f32"])), "u": [draw(gen.fl(-4, 4)) for _ in range(nu)], "dt": draw(gen.logf(1e-2, 1)),
                    "keep": [draw(st.booleans()) for _ in range(nu)]})
    lim = draw(st.sampled_from(["none", "scalar", "vector", "one-sided"]))
    return {"m": m, "x": draw(user.states(m, beyond=False)), "ops": ops, "lim": lim, "lo": [-draw(st.sampled_from([0.5, 1.0, 2.5])) for _ in range(nu)],
            "hi": [draw(st.sampled_from([0.5, 1.0, 2.5])) for _ in range(nu)], "default": [draw(st.sampled_from([0.0, 0.25, -0.5])) for _ in range(nu)], "names": draw(st.permutations(list(range(nu)))),
            "unit": draw(st.sampled_from(["meter", "foot", "kilometer"])), "time": draw(st.sampled_from(["second", "minute", "hour"])), "name": draw(st.text(min_size=1, max_size=8))}


def make_entity(case, dyn):
    from safe_autonomy_dynamics.base_models import BaseEntity, BaseUnits
    from scipy.spatial.transform import Rotation
    m = case["m"]
    kw = {}
    if case["lim"] == "scalar":
        kw = {"control_min": case["lo"][0], "control_max": case["hi"][0]}
    elif case["lim"] == "vector":
        kw = {"control_min": np.array(case["lo"]), "control_max": np.array(case["hi"])}
    elif case["lim"] == "one-sided":
        kw = {"control_max": np.array(case["hi"])}

    class Mine(BaseEntity):
        base_units = BaseUnits(case["unit"], case["time"], "radian")

        def __init__(self, **k):
            super().__init__(dyn, control_default=np.array(case["default"], dtype=float), control_map={f"a{i}": j for i, j in enumerate(case["names"])}, **kw, **k)

        def _build_state(self):
            return np.array(case["x"], dtype=np.float64)

        x = property(lambda self: self._state[0])
        y = property(lambda self: 2.0)
        z = property(lambda self: -3.0)
        position = property(lambda self: np.array([self.x, 2.0, -3.0]))
        velocity = property(lambda self: np.array([self.state_dot[0], 0.0, 0.0]))
        orientation = property(lambda self: Rotation.identity())

    return Mine(name=case["name"]), (kw.get("control_min", -np.inf), kw.get("control_max", np.inf)), m


def check_entity(case, rec):
    import pint
    dyn = user.build(case["m"])
    e, (lo, hi), m = make_entity(case, dyn)
    plain = user.build(m)
    x = np.array(case["x"], dtype=float)
    if e.name != case["name"] or not same(e.state, x) or not same(e.state_dot, 0 * x):
        fail("a fresh user-defined entity does not have the given name, state and zero derivative", name=e.name, state=e.state, derivative=e.state_dot)
    d = np.array(case["default"], dtype=float)
    for op in case["ops"]:
        u = np.array(op["u"])
        named = {f"a{i}": float(u[j]) for i, j in enumerate(case["names"])}
        if op["form"] == "part":
            named = {k: v for (k, v), keep in zip(named.items(), op["keep"]) if keep}
        full = d.copy()
        if op["form"] in ("dict", "part"):
            act = named
            for i, j in enumerate(case["names"]):
                if f"a{i}" in named:
                    full[j] = named[f"a{i}"]
        elif op["form"] == "none":
            act = None
        else:
            act = {"array": u.copy(), "list": [float(v) for v in u], "f32": u.astype(np.float32)}[op["form"]]
            full = u.copy()
        eff = np.minimum(np.maximum(full, lo), hi)
        over = bool(np.any(full != eff))
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            e.step(op["dt"], act) if act is not None else e.step(op["dt"])
        if any(issubclass(w.category, UserWarning) for w in caught) != over:
            fail("a warning must be given exactly when the command is out of range", command=full, low=lo, high=hi, warned=not over)
        nx, nd = plain.step(op["dt"], x.copy(), eff)
        tol = 1e-9 * (1 + np.max(np.abs(nx)))
        if not near(e.state, nx, tol) or not near(e.state_dot, nd, 1e-7 * (1 + np.max(np.abs(nd)) + np.max(np.abs(nx)))):
            fail("a user-defined entity does not step its model under the admissible command", form=op["form"], action=act, effective=eff, got=e.state, expected=nx)
        x = vec(e.state, m["n"], "state")
        rec.nt(over or op["form"] in ("part", "none"))
        rec.label(op["form"], case["lim"])
    L = {"meter": 1.0, "foot": 0.3048, "kilometer": 1000.0}[case["unit"]]
    T = {"second": 1.0, "minute": 60.0, "hour": 3600.0}[case["time"]]
    for nm, val, text, si in (("x_with_units", e.x, "meter", L), ("y_with_units", 2.0, "meter", L), ("z_with_units", -3.0, "meter", L), ("position_with_units", e.position, "meter", L),
                              ("velocity_with_units", e.velocity, "meter/second", L / T)):
        q = getattr(e, nm)
        if not isinstance(q, pint.Quantity) or not near(q.magnitude, val, 0) or not near(q.to(text).magnitude, np.array(val) * si, 1e-9 * np.abs(np.array(val) * si)):
            fail(f"{nm} of a user-defined entity is not its value in the declared units", got=q, value=val, unit=case["unit"], time=case["time"])


@st.composite
def reject_cases(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "nu": draw(st.integers(1, 3)), "bad": draw(st.sampled_from(["A-wide", "A-flat", "B-flat", "B-rows", "A-cube", "config", "no-map", "samples", "A-tall"]))}


def check_reject(case, rec):
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    n, nu, bad = case["n"], case["nu"], case["bad"]
    A, B = np.zeros((n, n)), np.zeros((n, nu))
    if bad in ("config", "no-map"):
        m = {"type": "linear", "n": n, "nu": nu, "A": A.tolist(), "B": B.tolist(), "c": [0.0] * n, "w": 0.0}
        c = {"m": m, "lim": "none", "unit": "meter", "time": "second", "default": [0.0] * nu, "names": list(range(nu)), "x": [1.0] * n, "name": "q"}
        if bad == "config":
            e, _, _ = make_entity(c, user.build(m))
            expect_raises(ValueError, lambda: type(e)(name="q", unknown=1.0), "an unknown option of a user-defined entity")
            expect_raises(ValueError, lambda: type(e)(), "a user-defined entity without a name")
        else:
            e, _, _ = make_entity(c, user.build(m))
            e.control_map = None
            expect_raises(AssertionError, lambda: e.step(1.0, {"a0": 1.0}), "a dict command without a control map")
            if not same(e.state, [1.0] * n):
                fail("a rejected command moved the entity", state=e.state)
    elif bad == "samples":
        for v in (1.5, "3", None):
            expect_raises((AssertionError, TypeError, ValueError), lambda: BaseLinearODESolverDynamics(A=A, B=B, trajectory_samples=v), f"trajectory_samples={v!r}")  # pylint: disable=cell-var-from-loop
    else:
        A = {"A-wide": np.zeros((n, n + 1)), "A-tall": np.zeros((n + 1, n)), "A-flat": np.zeros(n), "A-cube": np.zeros((n, n, 1))}.get(bad, A)
        B = {"B-flat": np.zeros(n), "B-rows": np.zeros((n + 1, nu))}.get(bad, B)
        expect_raises((AssertionError, ValueError), lambda: BaseLinearODESolverDynamics(A=A, B=B), f"matrices of shapes {A.shape} and {B.shape}")
    rec.nt()
    rec.label(bad)


@st.composite
def time_cases(draw):
    return {"kind": draw(st.sampled_from(["poly", "sin", "exp", "switch"])), "p": [draw(gen.fl(-2, 2)) for _ in range(3)], "x": [draw(gen.fl(-5, 5)), draw(gen.fl(-5, 5))],
            "dts": [draw(gen.logf(1e-2, 3)) for _ in range(draw(st.integers(1, 4)))], "method": draw(st.sampled_from(["RK45", "RK45", "Euler"])), "u": draw(gen.fl(-3, 3))}


def check_time(case, rec):
    """right-hand sides depending on time only: every step integrates from time zero"""
    from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
    a, b, c = case["p"]

    def f(t):
        return {"poly": a + b * t + c * t * t, "sin": a * math.sin(3 * t + b), "exp": a * math.exp(-abs(b) * t), "switch": a if t < 0.5 else b}[case["kind"]]

    class Timed(BaseODESolverDynamics):

        def _compute_state_dot(self, t, state, control):
            return np.array([f(t) * control[0], state[0]])

    dyn = Timed(integration_method=case["method"])
    x, u = np.array(case["x"], dtype=float), case["u"]
    for dt in case["dts"]:
        got, dot = dyn.step(dt, x.copy(), np.array([u]))
        got, dot = vec(got, 2, "state"), vec(dot, 2, "derivative")
        rhs = lambda t, y: np.array([f(t) * u, y[0]])  # noqa: E731
        if case["method"] == "Euler":
            exp, tol = x + dt * rhs(0.0, x), 1e-9
        else:
            lo = solve_ivp(rhs, (0, dt), x).y[:, -1]
            exp = solve_ivp(rhs, (0, dt), x, method="DOP853", rtol=1e-9, atol=1e-11, max_step=0.05).y[:, -1]
            tol = 5 * np.max(np.abs(lo - exp)) + 1e-7
        if not near(got, exp, tol * (1 + np.max(np.abs(exp)))) or not near(dot, rhs(dt, got), 1e-9 * (1 + np.max(np.abs(got)) + 60)):
            fail("a time-dependent model is not integrated with time counted from the start of the step", rhs=case["kind"], p=case["p"], x=x, u=u, dt=dt, method=case["method"], got=got, expected=exp,
                 derivative=dot)
        x = got
    rec.nt(len(case["dts"]) > 1 and u != 0)
    rec.label(case["kind"], case["method"])


@st.composite
def dtype_cases(draw):
    m = draw(big_model(types=("linear", "affine"), limits=False, wrap=False, methods=("RK45", "Euler")))
    return {"m": m, "x": [draw(st.integers(-5, 5)) for _ in range(m["n"])], "u": [draw(st.integers(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(1e-2, 1)),
            "tx": draw(st.sampled_from(["int64", "int32", "float32", "float64"])), "tu": draw(st.sampled_from(["int64", "int32", "float32", "float64"]))}


def check_dtype(case, rec):
    """numbers count, not the type of array they come in"""
    m = case["m"]
    r, dyn = user.RefUser(m), user.build(m)
    x, u = np.array(case["x"], dtype=case["tx"]), np.array(case["u"], dtype=case["tu"])
    xf, uf = x.astype(float), u.astype(float)
    sc = 1 + np.sum(np.abs(r.A)) * np.max(np.abs(xf)) + 2 * np.sum(np.abs(r.B)) * np.max(np.abs(uf))
    single = case["tx"] == "float32"
    got = vec(dyn.compute_state_dot(0.0, x, u), r.n, "derivative")
    if not near(got, r.limited(0.0, xf, uf), (1e-6 if single and m["type"] == "affine" else 1e-12) * sc):
        fail(f"derivative for a {case['tx']} state and {case['tu']} command is not that of the same numbers", model=m["type"], x=x, u=u, got=got, expected=r.limited(0.0, xf, uf))
    a, b = dyn.step(case["dt"], x, u), user.build(m).step(case["dt"], xf.copy(), uf.copy())
    for p, q, what in zip(a, b, ("state", "derivative")):
        if not near(vec(p, r.n, what), vec(q, r.n, what), (3e-5 if single else 1e-12) * sc):
            fail(f"{what} after a step from a {case['tx']} state under a {case['tu']} command is not that of the same numbers", model=m["type"], method=m["method"], x=x, u=u, dt=case["dt"], got=p, expected=q)
    if not same(x, xf) or not same(u, uf):
        fail("stepping modified its arguments", x=x, u=u)
    rec.nt(case["tx"] != "float64" and any(case["x"]) and any(case["u"]))
    rec.label(case["tx"], case["tu"], m["type"], m["method"])


@st.composite
def direct_cases(draw):
    """models that compute the next state themselves: x+ = Mx + dt(Bu + d)"""
    n, nu = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    jax = draw(st.integers(0, 4)) == 0
    lim = draw(st.sampled_from(["none", "scalar", "vector", "one-sided"]))
    some = st.one_of(gen.fl(-3, 3), gen.fl(-40, 40))
    return {"n": n, "nu": nu, "jax": jax, "lim": lim, "lo": [draw(gen.fl(-3, 0)) for _ in range(n)], "hi": [draw(gen.fl(0, 3)) for _ in range(n)],
            "wrap": draw(st.one_of(st.none(), st.lists(st.sampled_from([None, 0.0, math.pi, -2.0, 7.5]), min_size=n, max_size=n))),
            "M": [[draw(gen.fl(-1.5, 1.5)) for _ in range(n)] for _ in range(n)], "B": [[draw(gen.fl(-2, 2)) for _ in range(nu)] for _ in range(n)], "d": [draw(gen.fl(-2, 2)) for _ in range(n)],
            "x": [draw(some) for _ in range(n)], "seq": [{"u": [draw(gen.fl(-3, 3)) for _ in range(nu)], "dt": draw(gen.logf(1e-3, 10))} for _ in range(draw(st.integers(1, 3)))], "via": draw(st.booleans())}


def check_direct(case, rec):
    """the base class limits, then wraps, what the model computed and hands its derivative on"""
    from safe_autonomy_dynamics.base_models import BaseDynamics
    n, nu, jax = case["n"], case["nu"], case["jax"]
    M, B, d = np.array(case["M"]), np.array(case["B"]), np.array(case["d"])
    lo = {"none": -np.inf, "scalar": case["lo"][0], "vector": np.array(case["lo"]), "one-sided": -np.inf}[case["lim"]]
    hi = {"none": np.inf, "scalar": case["hi"][0], "vector": np.array(case["hi"]), "one-sided": np.array(case["hi"])}[case["lim"]]
    kw = {} if case["lim"] == "none" else {"state_max": hi} if case["lim"] == "one-sided" else {"state_min": lo, "state_max": hi}
    wrap = case["wrap"]
    if wrap is not None:
        kw["angle_wrap_centers"] = np.array([np.nan if c is None else c for c in wrap])
    seen = []

    class Direct(BaseDynamics):

        def _step(self, step_size, state, control):
            seen.append((step_size, np.array(state, dtype=float), np.array(control, dtype=float)))
            nx = self.np.array(M) @ state + step_size * (self.np.array(B) @ control + d)
            return nx, self.np.array(d) * state[0] + 1000.0 * control[0]

    dyn = Direct(use_jax=jax, **kw)
    x = np.array(case["x"], dtype=float)
    eps = 2e-6 if jax else 1e-12
    moved = False
    e = user.entity(dyn, {"n": n, "nu": nu}, x) if case["via"] else None
    for s in case["seq"]:
        u, dt = np.array(s["u"]), s["dt"]
        xin = vec(e.state, n, "state") if e else x
        if e:
            e.step(dt, u.copy())
            got, dot = e.state, e.state_dot
        else:
            got, dot = dyn.step(dt, x.copy(), u.copy())
        got, dot = vec(got, n, "state"), vec(dot, n, "derivative")
        if len(seen) != 1 or seen[0][0] != dt or not near(seen[0][1], xin, eps * (1 + np.max(np.abs(xin)))) or not near(seen[0][2], u, eps * 10):
            fail("a model's own step is not asked once for the present state, command and step size", got=seen, state=xin, control=u, dt=dt)
        seen.clear()
        raw = M @ xin + dt * (B @ u + d)
        sc = 1 + np.max(np.abs(M) @ np.abs(xin)) + dt * np.max(np.abs(B) @ np.abs(u) + np.abs(d))
        lim = np.clip(raw, lo, hi)
        for i in range(n):
            c = wrap[i] if wrap is not None else None
            if c is None:
                good = abs(got[i] - lim[i]) <= eps * sc * 4
            else:
                turns = (got[i] - lim[i]) / (2 * math.pi)
                good = abs(turns - round(turns)) * 2 * math.pi <= eps * sc * 4 + eps * 20 and abs(got[i] - c) <= math.pi + eps * sc * 4 + eps * 20
            if not good:
                fail("the next state computed by a model is not limited and then wrapped", computed=raw, low=lo, high=hi, wrap=wrap, got=got, component=i)
        if not near(dot, d * xin[0] + 1000.0 * u[0], eps * 10 * (1 + np.max(np.abs(d)) * abs(xin[0]) + 1000 * abs(u[0]))):
            fail("the derivative computed by a model is not handed on", got=dot, expected=d * xin[0] + 1000.0 * u[0])
        moved = moved or bool(np.any(lim != raw)) or not near(got, lim, 1e-3)
        x = got
    rec.nt(moved)
    rec.label("jax" if jax else "numpy", case["lim"], "wrap" if wrap else "no-wrap", "entity" if e else "dynamics")


SUBS = [
    Sub("linear", linear_cases, check_linear, 900, 9000, "linear models vs matrix exponential over 1-3 steps; non-trivial: state moves", shards=2),
    Sub("models", general_cases, check_general, 900, 9000, "affine, general and time-dependent models with limits and wrapping vs tight reference; non-trivial: state moves", shards=5),
    Sub("entities", entity_cases, check_entity, 500, 5000, "user-defined entities over 1-5 commands; non-trivial: out-of-range or partial commands", shards=2),
    Sub("types", dtype_cases, check_dtype, 500, 5000, "integer and single-precision states and commands; non-trivial: such a state, state and command non-zero", shards=2),
    Sub("time", time_cases, check_time, 600, 6000, "time-dependent right-hand sides; non-trivial: several steps", shards=2),
    Sub("own_step", direct_cases, check_direct, 700, 7000, "models with a step of their own, called directly and through an entity; non-trivial: limiting or wrapping moved the state", shards=2),
    Sub("rejected", reject_cases, check_reject, 150, 600, "ill-formed models and entities; all non-trivial"),
]
