"""C36 jax models can be compiled, batched and differentiated."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, near, same, vec

ASSUMPTIONS = ["single precision (jax's default)", "scipy's RK45 is no jax solver: only Euler steps, RK45_JAX steps and derivatives can be transformed",
               "derivatives of a step are compared where no limit is met"]


@st.composite
def model_points(draw, wide=False, points=3):
    """a jax model (entity class or user-defined) and a few points to evaluate it at"""
    kind = draw(st.sampled_from(["rot2d", "rot2d", "sun", "user", "user", "user"]))
    method = draw(st.sampled_from(["RK45_JAX", "Euler"]))
    case = {"method": method, "pts": []}
    if kind == "user":
        m = draw(user.model(limits=not wide, wrap=not wide, nmax=3))
        m.update(jax=True, method=method)
        case["m"] = m
        for _ in range(points):
            case["pts"].append({"x": draw(user.states(m)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])], "dt": draw(gen.logf(0.05, 1.0))})
        if wide:  # limits that are there but not met
            for key, sgn in (("smin", -1), ("smax", 1), ("dmin", -1), ("dmax", 1)):
                far = sgn * draw(st.sampled_from([1e3, 1e4]))
                how = draw(st.sampled_from(["none", "number", "array", "partial"]))
                if how != "none":
                    m[key] = far if how == "number" else [far if how == "array" or draw(st.booleans()) else None for _ in range(m["n"])]
    else:
        sp = draw(gen.spec(kinds=[kind], limits="wide" if wide else "any"))
        sp["kw"].update(use_jax=True, integration_method=method)
        case["spec"] = sp
        mdl = ref.RefModel(sp)
        away = draw(st.sampled_from([0, 0, 1, 4, -4, 10, -10])) if kind == "rot2d" else 0  # turned about many times
        for _ in range(points):
            x = [ref.f32(v) for v in ref.RefModel({"k": kind, "kw": sp["kw"], "init": draw(gen.init_state(sp))}).s0]
            if away:
                x[2] = ref.f32(x[2] + 2 * math.pi * away)
            case["pts"].append({"x": x, "u": [ref.f32(v) for v in gen.control(mdl, [f * (0.9 if wide else 1) for f in draw(gen.fracs(mdl.nu))])], "dt": draw(gen.logf(0.05, 4))})
    return case


class Model:
    """the dynamics object of a case with its reference"""

    def __init__(self, case):
        self.euler = case["method"] == "Euler"
        if "m" in case:
            self.ref = user.RefUser(case["m"])
            self.dyn = user.build(case["m"])
            self.entity = None
        else:
            self.ref = ref.RefModel(case["spec"])
            self.entity = ref.build(case["spec"])
            self.dyn = self.entity.dynamics
        self.user = "m" in case

    def raw(self, t, x, u):
        return self.ref.raw(t, x, u) if self.user else self.ref.raw(x, u)

    def limited(self, t, x, u):
        return self.ref.limited(t, x, u) if self.user else self.ref.limited(x, u)

    def result(self, x, u, dt):
        """(state reached, its tolerance)"""
        r = self.ref
        if self.euler:
            y = x + dt * self.limited(0.0, x, u)
            y = r.clip(y) if self.user else r.finish(y)
            if self.user:
                return y, 2e-5 * (1 + np.max(np.abs(y)) + np.max(np.abs(x)) + dt * 10)
            return y, 2e-5 * r.scale(x, u, dt, y) + 3e-6 * np.maximum(r.mag(x), r.mag(y)) + 1e-6 + r.turning(x)
        if self.user:
            y, tol = r.flow_tol(x, u, dt, jax=True)
            return r.clip(y), tol
        y, tol = r.flow_tol(x, u, dt, rel=3e-4, state_rel=1e-5)
        return y, tol + 2e-6

    def deriv_tol(self, t, x, u):
        if self.user:
            return 2e-5 * (1 + np.max(np.abs(self.ref.A)) * np.sum(np.abs(x)) + np.max(np.abs(self.ref.B)) * np.sum(np.abs(u)) * 2 + np.max(np.abs(self.ref.c)) * (1 + abs(t) + abs(x[0] * (u[0] if len(u) else 0))))
        r = self.ref
        sc = np.zeros(r.n)
        for g in r.groups:
            sc[g] = max(np.max(np.abs(r.raw(x, u)[g])), np.max(np.abs(r.raw(x, 0 * u)[g])))
        if r.kind == "rot2d":
            sc[[3, 4]] += 3 * r.mm**2 * np.max(np.abs(x[:2])) + 2 * r.mm * np.max(np.abs(x[3:5])) + np.linalg.norm(u[:2]) / r.m
        return 2e-5 * sc + 1e-9

    def near_limit(self, x):
        """so close to a state limit that rounding decides which side (the derivative jumps there)"""
        lo, hi = self.ref.smin, self.ref.smax
        return bool(np.any(np.abs(x - lo) < 1e-4 * (1 + np.abs(lo))) or np.any(np.abs(x - hi) < 1e-4 * (1 + np.abs(hi))))


def check(case, rec):
    import jax
    import jax.numpy as jnp
    M = Model(case)
    n, d = M.ref.n, M.dyn
    pts = [(np.array(p["x"]), np.array(p["u"]), p["dt"]) for p in case["pts"]]
    J = lambda a: jnp.asarray(np.array(a), dtype=jnp.float32)  # noqa: E731
    plain_step = lambda x, u, dt: d.step(dt, x, u)  # noqa: E731
    plain_dot = lambda x, u, t: d.compute_state_dot(t, x, u)  # noqa: E731
    jit_step, jit_dot = jax.jit(plain_step), jax.jit(plain_dot)
    want = [M.result(*p) for p in pts]
    got = {"compiled": [], "plain": [], "batched": [], "compiled batch": []}
    first = None
    for i in list(range(len(pts))) + [0]:
        x, u, dt = pts[i]
        r = [vec(a, n, "compiled step") for a in jit_step(J(x), J(u), jnp.float32(dt))]
        if first is None:
            first = r
        elif i == 0 and not all(same(a, b) for a, b in zip(r, first)):
            fail("a compiled step called again with the same arguments gives another result", first=first[0], again=r[0])
        else:
            pass
        if len(got["compiled"]) < len(pts):
            got["compiled"].append(r)
    X, U, T = J([p[0] for p in pts]), J([p[1] for p in pts]), J([p[2] for p in pts])
    for what, f in (("batched", jax.vmap(plain_step)), ("compiled batch", jax.jit(jax.vmap(plain_step)))):
        if what == "batched" and not M.euler:
            continue  # (the solver compiles itself; one batch form is enough)
        a, b = (np.array(v, dtype=float) for v in f(X, U, T))
        if a.shape != (len(pts), n) or b.shape != (len(pts), n):
            fail(f"a {what} has results of the wrong shape", state=a.shape, derivative=b.shape)
        got[what] = list(zip(a, b))
    # afterwards the same object still steps normally
    for x, u, dt in pts:
        got["plain"].append([vec(a, n, "step") for a in d.step(dt, J(x), J(u))])
    for what, rs in got.items():
        for (x, u, dt), (w, tol), r in zip(pts, want, rs):
            if not near(M.ref.diff(r[0], w), 0, tol):
                fail(f"{what} step of a jax model is not the step of that model", state=x, control=u, dt=dt, got=r[0], expected=w, tolerance=tol)
            for i, c in enumerate(M.ref.wrap):
                if c is not None and abs(r[0][i] - c) > math.pi + 1e-6 * (abs(x[i]) + abs(w[i]) + abs(c) + 4):
                    fail(f"{what} step of a jax model leaves an angle unwrapped", state=x, control=u, dt=dt, got=r[0], component=i, center=c)
            # the derivative is the one at the reached state
            if not M.near_limit(r[0]) and not M.near_limit(w):
                y = np.array([a if c is None else a + 2 * math.pi * round((b - a) / (2 * math.pi)) for a, b, c in zip(r[0], w, M.ref.wrap)])  # before whole turns were taken off
                if not near(r[1], M.limited(dt, y, u), M.deriv_tol(dt, y, u) + 1e-5 * np.max(np.abs(r[1])) + 1e-6 * np.max(np.abs(y))):
                    fail(f"{what} step of a jax model reports another derivative", state=x, control=u, dt=dt, reached=y, got=r[1], expected=M.limited(dt, y, u))
    D = np.array(jax.vmap(plain_dot)(X, U, T), dtype=float)
    for (x, u, dt), b in zip(pts, D):
        for what, v in (("compiled", vec(jit_dot(J(x), J(u), jnp.float32(dt)), n, "compiled derivative")), ("batched", b), ("plain", vec(d.compute_state_dot(dt, J(x), J(u)), n, "derivative"))):
            if not near(v, M.limited(dt, x, u), M.deriv_tol(dt, x, u)):
                fail(f"{what} derivative of a jax model is not the limited equation of motion", state=x, control=u, t=dt, got=v, expected=M.limited(dt, x, u))
    if M.entity is not None:
        mdl = M.ref
        s = hist.state_of(M.entity, mdl)
        x, u, dt = pts[0]
        M.entity.state = x.copy()
        M.entity.step(dt, u.copy() if mdl.nu else None)
        r = hist.state_of(M.entity, mdl)
        if not near(mdl.diff(r, want[0][0]), 0, want[0][1]):
            fail("an entity whose dynamics were compiled steps differently", state=x, control=u, dt=dt, got=r, expected=want[0][0], initial=s)
    rec.nt(any(not near(w[0], p[0], 1e-4) for w, p in zip(want, pts)))
    rec.label(case["m"]["type"] if M.user else M.ref.kind, case["method"])


@st.composite
def diff_cases(draw):
    return draw(model_points(wide=True, points=1))


def check_diff(case, rec):
    """Jacobians of the derivative and of a step against differences of the reference"""
    import jax
    import jax.numpy as jnp
    M = Model(case)
    n, d = M.ref.n, M.dyn
    x, u, dt = np.array(case["pts"][0]["x"]), np.array(case["pts"][0]["u"]), case["pts"][0]["dt"]
    J = lambda a: jnp.asarray(np.array(a), dtype=jnp.float32)  # noqa: E731

    def flow(x, u):
        if M.euler:
            return x + dt * M.raw(0.0, x, u)
        return M.ref.hi(x, u, dt)

    def fd(f, x, u):
        cols = []
        for i in range(n + len(u)):
            z = np.concatenate([x, u])
            h = 1e-4 * max(1.0, abs(z[i])) if M.user or i < n else 1e-3 * (M.ref.umax - M.ref.umin)[i - n]
            a, b = z.copy(), z.copy()
            a[i] += h
            b[i] -= h
            cols.append((f(a[:n], a[n:]) - f(b[:n], b[n:])) / (2 * h))
        return np.array(cols).T

    for what, f, g in (("step", lambda a, b: d.step(dt, a, b)[0], flow), ("derivative", lambda a, b: d.compute_state_dot(dt, a, b), lambda a, b: M.raw(dt, a, b))):
        k = len(u)
        if M.near_limit(x) or M.near_limit(g(x, u)) and what == "step":
            continue
        gx, gu = jax.jacrev(f, argnums=(0, 1))(J(x), J(u))
        got = np.hstack([np.array(gx, dtype=float).reshape(n, n), np.array(gu, dtype=float).reshape(n, k)])
        exp = fd(g, x, u)
        # scale: rows differ in units, so compare each entry against the size of what its column does to the state
        tol = 2e-3 * np.abs(exp) + 1e-3 * (1e-3 + np.max(np.abs(exp), axis=0, keepdims=True)) + 1e-6 * (1 + np.max(np.abs(x)))
        if not near(got, exp, tol):
            fail(f"the Jacobian of a jax model's {what} is not that of its equations", state=x, control=u, dt=dt, got=got, expected=exp)
        if M.euler or what == "derivative":
            hx = np.array(jax.jacfwd(f)(J(x), J(u)), dtype=float)
            if not near(hx, exp[:, :n], tol[:, :n]):
                fail(f"the forward-mode Jacobian of a jax model's {what} is not that of its equations", state=x, control=u, dt=dt, got=hx, expected=exp[:, :n])
    rec.nt(len(u) > 0)
    rec.label(case["m"]["type"] if M.user else M.ref.kind, case["method"])


SUBS = [
    Sub("compiled", model_points, check, 60, 900, "jit, vmap and plain evaluation at three points of one model; non-trivial: the state moves", shards=4),
    Sub("differentiated", diff_cases, check_diff, 60, 900, "Jacobians of step and derivative vs differences of the reference; non-trivial: a model with commands", shards=4),
]
