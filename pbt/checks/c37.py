"""C37 control-affine models expose drift and input matrix of their equations of motion."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, mat, near, same, vec

ASSUMPTIONS = ["six-DOF derivatives are formed in single precision"]
KINDS = [k for k in ref.CONTROLLABLE]


def parts(mdl, s):
    """reference drift and input matrix"""
    f = mdl.raw(s, np.zeros(mdl.nu))
    G = np.zeros((mdl.n, mdl.nu))
    for i in range(mdl.nu):
        u = np.zeros(mdl.nu)
        u[i] = 1.0
        z = s.copy()
        # the input matrix at rest is free of cancellation against the drift
        g = mdl.raw(z, u) - f
        G[:, i] = np.where(np.abs(g) < 1e-9 * np.max(np.abs(g)), 0.0, g)
    return f, G


def terms(mdl, s):
    """size of the terms of the drift, by component group"""
    sc = np.zeros(mdl.n)
    f = mdl.raw(s, np.zeros(mdl.nu))
    for g in mdl.groups:
        sc[g] = np.max(np.abs(f[g]))
    if mdl.kind in ("point", "rot2d", "sixdof"):
        i0 = {"point": [3, 4, 5], "rot2d": [3, 4], "sixdof": [7, 8, 9]}[mdl.kind]
        p, v = hist.pos_vel(mdl, s)
        sc[i0] += 3 * mdl.mm**2 * np.max(np.abs(p)) + 2 * mdl.mm * np.max(np.abs(v))
    if mdl.kind == "sixdof":
        sc[3:7] += np.max(np.abs(s[3:7])) * np.max(np.abs(s[10:13]))
        sc[10:] += np.max(mdl.I3) / np.min(mdl.I3) * np.max(np.abs(s[10:13]))**2
    if mdl.kind.startswith("int"):
        sc += 0
    return sc


@st.composite
def cases(draw):
    sp = draw(gen.spec(kinds=KINDS, jax=True, methods=("RK45", "RK45", "Euler")))
    pts = []
    for _ in range(draw(st.integers(1, 4))):
        pts.append({"init": draw(gen.init_state(sp)), "u": [draw(st.one_of(gen.frac(), gen.fl(-5, 5))) for _ in ref.CONTROLS[sp["k"]]], "t": draw(gen.fl(0, 100)), "over": draw(gen.logf(0.1, 10)) if draw(st.integers(0, 2)) == 0 else 0.0,
                    "step": draw(st.booleans()), "angles": [draw(gen.fl(-3.1, 3.1)), draw(st.one_of(gen.fl(-3.1, 3.1), gen.fl(1.4, 1.57), gen.fl(-1.57, -1.4)))] if draw(st.booleans()) else None})
    return {"spec": sp, "pts": pts}


def check(case, rec):
    e, mdl = hist.start(case)
    d = e.dynamics
    rel = 3e-6 if mdl.jax else 1e-6
    kept = []
    for p in case["pts"]:
        s = ref.RefModel({"k": mdl.kind, "kw": case["spec"]["kw"], "init": p["init"]}).s0.astype(float)
        if p["over"]:  # the decomposition does not know about limits: beyond them too
            fin = np.isfinite(mdl.smax)
            s = np.where(fin, s + p["over"] * (mdl.smax - np.where(fin, mdl.smin, 0)) * 0.05, s)
        if p["angles"] and mdl.kind == "dub3":
            s[4:6] = p["angles"]
        u = gen.control(mdl, p["u"])
        s_in, u_in = s.copy(), u.copy()
        fo, Go = d.state_transition_system(s_in), d.state_transition_input(s_in)
        f, G = fo, Go
        f, G = vec(f, mdl.n, "drift"), mat(G, (mdl.n, mdl.nu), "input matrix")
        ef, eG = parts(mdl, s)
        sc = terms(mdl, s)
        if not near(f, ef, rel * sc + 1e-12):
            bad = [n for n, a, b, c in zip(mdl.names, f, ef, sc) if not abs(a - b) <= rel * c + 1e-12]
            fail(f"drift of {bad} is not that of the equations of motion", state=s, got=f, expected=ef)
        if not near(G, eG, rel * np.max(np.abs(eG), axis=0, keepdims=True) + 1e-12):
            fail("input matrix is not that of the equations of motion", state=s, got=G, expected=eG)
        got = vec(d.compute_state_dot(p["t"], s_in, u_in), mdl.n, "derivative")
        exp = np.minimum(np.maximum(f + G @ u, mdl.dmin), mdl.dmax)
        exp = np.where(s <= mdl.smin, np.maximum(exp, 0.0), exp)
        exp = np.where(s >= mdl.smax, np.minimum(exp, 0.0), exp)
        if not near(got, exp, rel * (sc + np.abs(eG) @ np.abs(u)) + 1e-12):
            fail("the derivative is not drift + input matrix times command, limited", state=s, control=u, got=got, expected=exp)
        if not same(s_in, s) or not same(u_in, gen.control(mdl, p["u"])):
            fail("evaluating the model modified its arguments", state=s_in, control=u_in)
        # evaluations do not disturb the entity, nor depend on it
        if p["step"]:
            e.step(0.1, np.zeros(mdl.nu))
        for s0, f0, G0, fobj, Gobj in kept:
            if not same(fobj, f0) or not same(Gobj, G0):
                fail("the drift or input matrix handed out earlier changed after other evaluations", state=s0)
            if not same(vec(d.state_transition_system(s0.copy()), mdl.n, "drift"), f0) or not same(mat(d.state_transition_input(s0.copy()), (mdl.n, mdl.nu), "input matrix"), G0):
                fail("drift or input matrix of a state changed after other evaluations", state=s0)
        kept.append((s, f.copy(), G.copy(), fo, Go))
        rec.nt(bool(np.any(f != 0)) and bool(np.any(u != 0)))
    rec.label(mdl.kind, "jax" if mdl.jax else "numpy")


@st.composite
def user_cases(draw):
    m = draw(user.model(types=("linear", "linear", "affine"), jax=True, limits=True))
    return {"m": m, "x": draw(user.states(m)), "u": [draw(gen.fl(-3, 3)) for _ in range(m["nu"])]}


def check_user(case, rec):
    m = case["m"]
    r, d = user.RefUser(m), user.build(m)
    x, u = np.array(case["x"]), np.array(case["u"])
    tol = (1e-5 if m["jax"] else 1e-12) * (1 + np.max(np.abs(x)) + np.max(np.abs(u)) * np.max(np.abs(r.B)))
    f, G = vec(d.state_transition_system(x.copy()), r.n, "drift"), mat(d.state_transition_input(x.copy()), (r.n, r.nu), "input matrix")
    if not near(f, r.raw(0, x, 0 * u), tol) or not near(f + G @ u, r.raw(0, x, u), tol):
        fail("drift and input matrix are not those of the given equations", state=x, drift=f, matrix=G)
    got = vec(d.compute_state_dot(0.0, x.copy(), u.copy()), r.n, "derivative")
    if not near(got, r.limited(0, x, u), tol):
        fail("the derivative is not the limited sum of drift and input", state=x, control=u, got=got, expected=r.limited(0, x, u))
    if m["type"] == "linear" and (not near(mat(d.A, (r.n, r.n), "A"), r.A, 1e-7 if m["jax"] else 0) or not near(mat(d.B, (r.n, r.nu), "B"), r.B, 1e-6 if m["jax"] else 0)):
        fail("a linear model does not hold the given matrices", A=np.array(d.A), B=np.array(d.B))
    rec.nt(bool(np.any(x != 0)) and bool(np.any(u != 0)))
    rec.label(m["type"])


SUBS = [
    Sub("entities", cases, check, 3000, 20000, "drift and input matrix of every control-affine entity at 1-4 states (also beyond limits) vs reference; non-trivial: drift and command non-zero", shards=4),
    Sub("user_models", user_cases, check_user, 1600, 8000, "linear and affine user models; non-trivial: state and command non-zero", shards=2),
]
