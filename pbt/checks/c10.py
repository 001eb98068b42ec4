"""C10 angle wrapping."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import dyn, gen, hist, ref, user
from pbt.core import Sub, fail, near, same, vec

TP = 2 * math.pi


def check_wrapped(got, unwrapped, centers, tol, what):
    for i, c in enumerate(centers):
        if c is None:
            if not same(got[i:i + 1], unwrapped[i:i + 1]) and not abs(got[i] - unwrapped[i]) <= tol * 1e-3:
                fail(f"{what}: component {i} has no wrap centre but was changed", got=got, unwrapped=unwrapped, centers=centers)
            continue
        if not abs(got[i] - c) <= math.pi + tol:
            fail(f"{what}: component {i} is not within pi of its centre {c}", got=got, unwrapped=unwrapped)
        k = (got[i] - unwrapped[i]) / TP
        if not abs(k - round(k)) * TP <= tol:
            fail(f"{what}: component {i} was not changed by a whole number of turns", got=got, unwrapped=unwrapped, turns=k)


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True, limits=False, methods=("RK45", "Euler")))
    n = m["n"]
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    m["wrap"] = [draw(st.one_of(st.just(None), st.sampled_from([0.0, math.pi, -math.pi, 1.0, 100.0]), gen.fl(-10, 10))) for _ in range(n)]
    far = draw(st.sampled_from([4.0, 4.0, 100.0, 1000.0]))
    x = [v(far) if draw(st.integers(0, 3)) else ref.f32((c or 0.0) + draw(st.sampled_from([math.pi, -math.pi, 3 * math.pi, 3.1415925, -3.1415925]))) for c in m["wrap"]]
    if far > 10:  # keep the motion itself mild
        m["A"] = [[0.0] * n for _ in range(n)]
    return {"m": m, "x": x, "u": [[v(2) for _ in range(m["nu"])] for _ in range(draw(st.integers(1, 3)))], "dt": draw(gen.logf(1e-2, 5 if not m["jax"] else 0.5))}


def check_user(case, rec):
    m = case["m"]
    a = user.build(m)
    b = user.build(dict(m, wrap=None))
    x = np.array(case["x"])
    turned = False
    for u in case["u"]:
        got = vec(a.step(case["dt"], x.copy(), np.array(u))[0], m["n"], "state")
        raw = vec(b.step(case["dt"], x.copy(), np.array(u))[0], m["n"], "state")
        mag = max(1.0, np.max(np.abs(raw)), np.max(np.abs(x)), max(abs(c) for c in m["wrap"] if c is not None) if any(c is not None for c in m["wrap"]) else 1)
        check_wrapped(got, raw, m["wrap"], (2e-6 if m["jax"] else 1e-13) * mag * 4 + (1e-6 if m["jax"] else 1e-12), "user-defined model")
        turned |= any(c is not None and abs(g - r) > 1 for c, g, r in zip(m["wrap"], got, raw))
        x = got
    rec.nt(turned)
    rec.label(m["type"], "jax" if m["jax"] else "numpy", "turned" if turned else "not-turned",
              "centred" if any(c for c in m["wrap"] if c is not None) else "zero-centre")


@st.composite
def entity_cases(draw):
    c = draw(gen.entity_case(kinds=["dub2", "dub3", "rot2d", "rot2d", "sixdof", "point", "int2"], max_steps=4, jax=True, methods=("RK45", "RK45", "Euler"), dts=gen.logf(0.05, 40)))
    sp = c["spec"]
    if sp["k"] == "sixdof":
        for s in c["steps"]:
            s["dt"] = min(s["dt"], 5.0)
    ang = {"dub2": "heading", "dub3": "heading", "rot2d": "theta"}.get(sp["k"])
    if ang and draw(st.integers(0, 2)):  # close to the seam, or given many turns away
        sp["init"][ang] = draw(st.one_of(st.sampled_from([3.14, -3.14, 3.1415925, -3.1415925]), gen.fl(-50, 50)))
    if sp["k"] == "rot2d" and draw(st.booleans()):
        sp["kw"].update(ang_vel_limit=2.0, vel_limit_wheel=1e9, acc_limit_wheel=1e9, ang_acc_limit=0.5)
        sp["init"]["wz"] = draw(st.sampled_from([1.5, -1.5]))
    return c


def check_entity(case, rec):
    e, mdl = hist.start(case)
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        if mdl.method == "Euler":
            raw = mdl.finish(s + dt * mdl.limited(s, u))
            tol = (2e-5 if mdl.jax else 2e-6) * np.maximum(mdl.mag(s), mdl.mag(raw)) + 1e-6 * mdl.scale(s, u, dt, raw) + 1e-6
            if not near(mdl.diff(got, raw), 0, tol):
                fail("state after an Euler step is not the unwrapped one up to whole turns", start=s, control=u, dt=dt, got=got, unwrapped=raw)
        else:
            raw = mdl.check_flow(s, u, dt, got, "state after step (angles up to whole turns)")
        for j, c in enumerate(mdl.wrap):
            if c is not None and not abs(got[j] - c) <= math.pi + (1e-5 if mdl.jax else 1e-6):
                fail(f"{mdl.names[j]} is not within pi of {c}", got=got)
        rec.nt(any(c is not None and abs(g - r) > 1 for c, g, r in zip(mdl.wrap, got, raw)) or all(c is None for c in mdl.wrap) and bool(np.max(np.abs(got)) > 4))
        rec.label(mdl.kind, mdl.method)


SUBS = [
    Sub("user_models", user_cases, check_user, 1200, 12000, "models with random centres vs the same model unwrapped; non-trivial: some component was turned", shards=3),
    Sub("entities", entity_cases, check_entity, 900, 9000, "entities near/over the seam and many turns away; non-trivial: a turn happened (or unwrapped quantity beyond pi)", shards=4),
    Sub("long_run", lambda: gen.long(entity_cases()), check_entity, 40, 800, "entities cases cycled over 25-110 steps; non-trivial: as entities", shards=4),
    Sub("shipped_dynamics", lambda: dyn.cases(wrap="any"), dyn.check_wrap, 700, 7000, "the shipped dynamics models with chosen wrap centers and limits vs the same unwrapped; non-trivial: a turn happened", shards=3),
]
