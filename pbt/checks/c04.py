"""C04 Dubins aircraft."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, near, vec

DT = st.one_of(gen.logf(1e-3, 60.0), gen.logf(1e-3, 60.0), gen.logf(1e-6, 1e-2), st.sampled_from([1.0, 0.1, 5.0]))


@st.composite
def cases(draw, limits="any"):
    c = draw(gen.entity_case(max_steps=4, dts=DT, kinds=["dub2", "dub3"], limits=limits, samples=True))
    if draw(st.integers(0, 3)) == 0:  # always a manoeuvre combining everything
        nu = len(ref.CONTROLS[c["spec"]["k"]])
        c["steps"][0]["u"] = [draw(gen.frac()) for _ in range(nu)]
    return c


def check_flow(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        hi = mdl.check_flow(s, u, dt, got)
        inner = np.all((hi > mdl.smin) & (hi < mdl.smax))
        curved = abs(mdl.diff(hi, s)[2 if mdl.kind == "dub2" else 3]) > 1e-3
        rec.nt(curved)
        rec.label(mdl.kind, "curved" if curved else "straight", "inside" if inner else "at-limit", "accelerating" if u[-1] else "cruise")


@st.composite
def deriv_cases(draw):
    sp = draw(gen.spec(kinds=["dub2", "dub3"]))
    if sp["k"] == "dub3" and draw(st.booleans()):
        sp["kw"]["g"] = draw(st.sampled_from([9.81, 5.0, 100.0]))
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    s = [v(1e5), v(1e5), v(7), draw(gen.fl(1, 1000))] if sp["k"] == "dub2" else [v(1e5), v(1e5), v(1e5), v(7), v(1.5), v(1.5), draw(gen.fl(1, 1000))]
    return {"spec": sp, "s": s, "u": [v(0.5) for _ in ref.CONTROLS[sp["k"]]], "t": draw(gen.fl(0, 100)), "direct": draw(st.booleans())}


def check_deriv(case, rec):
    from safe_autonomy_dynamics.dubins import Dubins2dDynamics, Dubins3dDynamics
    sp = case["spec"]
    mdl = ref.RefModel(sp)
    s, u = np.array(case["s"]), np.array(case["u"])
    if case["direct"] or "g" in sp["kw"]:
        dyn = Dubins2dDynamics() if sp["k"] == "dub2" else Dubins3dDynamics(**({"g": sp["kw"]["g"]} if "g" in sp["kw"] else {}))
        mdl.smin[:], mdl.smax[:] = -math.inf, math.inf
    else:
        dyn = ref.build(sp).dynamics
        # stay clear of the limits' float32 rounding
        near_lim = (np.abs(s - mdl.smin) < 1e-4) | (np.abs(s - mdl.smax) < 1e-4)
        s = np.where(near_lim, s + 1e-2, s)
    got = vec(dyn.compute_state_dot(case["t"], s, u), mdl.n, "derivative")
    mdl.check_deriv(s, u, got)
    rec.nt(bool(np.all(u)))
    rec.label(sp["k"], "unlimited" if case["direct"] else "entity", "gravity" if "g" in sp["kw"] else "default-g")


@st.composite
def equiv_cases(draw):
    c = draw(cases())
    c["spec"]["kw"].pop("trajectory_samples", None)
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    c["shift"] = [v(1000) for _ in range(3)]
    c["turn"] = v(math.pi)
    for stp in c["steps"]:
        stp["dt"] = min(stp["dt"], 10.0)
    return c


def check_equiv(case, rec):
    """translate and turn the start -> translated and turned path"""
    sp = case["spec"]
    mdl = ref.RefModel(sp)
    A, B = ref.build(sp, "a"), ref.build(sp, "b")
    k3 = mdl.kind == "dub3"
    np3 = 3 if k3 else 2
    hidx = 3 if k3 else 2
    T, shift = case["turn"], np.array(case["shift"][:np3])
    c, sn = math.cos(T), math.sin(T)
    R = np.array([[c, -sn, 0], [sn, c, 0], [0, 0, 1]])[:np3, :np3]
    s = vec(A.state, mdl.n, "state")
    sb = s.copy()
    sb[:np3] = R @ s[:np3] + shift
    sb[hidx] = (s[hidx] + T + math.pi) % (2 * math.pi) - math.pi
    B.state = sb
    for stp in case["steps"]:
        u = gen.control(mdl, stp["u"])
        dt = stp["dt"]
        sa0, sb0 = vec(A.state, mdl.n, "state"), vec(B.state, mdl.n, "state")
        A.step(dt, u.copy())
        B.step(dt, u.copy())
        sa, sb = vec(A.state, mdl.n, "state"), vec(B.state, mdl.n, "state")
        ex = sa.copy()
        ex[:np3] = R @ sa[:np3] + shift
        ex[hidx] += T
        # adaptive error control looks at the coordinates, so either path carries its own error
        ta, tb = mdl.flow_tol(sa0, u, dt)[1], mdl.flow_tol(sb0, u, dt)[1]
        tol = ta + tb
        tol[:np3] = np.linalg.norm(ta[:np3]) + np.linalg.norm(tb[:np3])
        tol += 1e-9 * np.max(np.abs(ex))
        d = mdl.diff(sb, ex)
        if not near(d, 0, tol):
            fail("motion is not equivariant under translation and heading rotation", case_turn=T, shift=shift, a=sa, b=sb, deviation=d, tolerance=tol)
        # next step from exactly matching states
        ex[hidx] = (ex[hidx] + math.pi) % (2 * math.pi) - math.pi
        B.state = ex
    rec.nt(abs(T) > 0.01 and np.any(shift))
    rec.label(mdl.kind)


SUBS = [
    Sub("flow", cases, check_flow, 1800, 9000, "aircraft with random limits, state, commands, 1-4 steps up to 60 s; non-trivial: the heading changes", shards=4),
    Sub("derivative", deriv_cases, check_deriv, 3000, 15000, "derivative over wide states incl. gravity constant; non-trivial: all commands non-zero"),
    Sub("equivariance", equiv_cases, check_equiv, 800, 4000, "translated/turned twins over 1-4 steps; non-trivial: proper turn and shift", shards=2),
    Sub("long_run", lambda: gen.long(cases()), check_flow, 80, 800, "flow cases cycled over 25-110 steps; non-trivial: as flow", shards=4),
]
