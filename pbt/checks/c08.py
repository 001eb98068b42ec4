"""C08 command forms."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail, near, same, vec

ASSUMPTIONS = ["jax arrays are single precision, so their result is compared to single precision; all others bitwise"]


@st.composite
def cases(draw, forms=tuple(hist.FORMS) + ("numpy-scalars", "ordered", "int-list", "int-dict", "int-array", "f32-array", "f32-dict", "f32-list", "f32-0d-dict", "f32-jax-dict")):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, methods=("RK45", "RK45", "Euler")))
    nu = len(ref.CONTROLS[sp["k"]])
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        mask = [draw(st.booleans()) for _ in range(nu)]
        u = [draw(gen.frac()) if m else None for m in mask]
        steps.append({"u": u, "dt": draw(gen.logf(1e-2, 5)), "form": draw(st.sampled_from(list(forms)))})
    return {"spec": sp, "steps": steps}


def command(mdl, fr):
    return np.array([0.0 if f is None else gen.place(f, lo, hi) for f, lo, hi in zip(fr, mdl.umin, mdl.umax)])


def check(case, rec):
    e, mdl = hist.start(case)
    a = ref.build(case["spec"], "array")
    prev = False
    for stp in case["steps"]:
        u = command(mdl, stp["u"])
        if stp["form"].startswith("int-"):
            u = np.sign(u) * np.ceil(np.abs(u))
        elif stp["form"].startswith("f32-"):
            u = np.array([ref.f32(x) for x in u])
        zero = not np.any(u)
        given = {n: float(x) for n, x, f in zip(mdl.ctrl, u, stp["u"]) if f is not None}
        form = stp["form"]
        if form == "sparse":
            act = given
            if zero and not given:
                act = None if int(stp["dt"] * 1000) % 2 else {}
        elif form[:4] in ("int-", "f32-"):
            a32 = u.astype(int if form[0] == "i" else np.float32)
            act = a32 if form.endswith("array") else [int(x) if form[0] == "i" else x for x in a32]
            if form.endswith("0d-dict"):
                act = [np.array(x) for x in a32]
            elif form.endswith("jax-dict"):
                import jax.numpy as jnp
                act = [jnp.asarray(x) for x in a32]
            if form.endswith("dict"):
                act = {n: x for n, x, f in zip(mdl.ctrl, act, stp["u"]) if f is not None}
        else:
            act = hist.action(form, mdl, u)
        e.step(stp["dt"], act)
        a.step(stp["dt"], u.copy())
        if not same(hist.observe(e, mdl), hist.observe(a, mdl)):
            fail(f"a command given as {form} acts differently from the same numpy array", action=act, array=u, got=vec(e.state, mdl.n, "state"),
                 expected=vec(a.state, mdl.n, "state"), got_dot=e.state_dot, expected_dot=a.state_dot)
        rec.label(form if act is not None else "none", "after-command" if prev else "first")
        prev = prev or not zero
    rec.nt(prev)
    rec.label(mdl.kind)


@st.composite
def channel_cases(draw):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, limits="wide"))
    nu = len(ref.CONTROLS[sp["k"]])
    return {"spec": sp, "i": draw(st.integers(0, nu - 1)), "f": draw(st.sampled_from([-1.0, 1.0, 0.5, -0.25])), "dt": draw(gen.logf(0.05, 2)),
            "before": draw(st.booleans())}


def check_channel(case, rec):
    """a single named actuator: effect on the derivative against the documented channel"""
    e, mdl = hist.start(case)
    i = case["i"]
    u = np.zeros(mdl.nu)
    u[i] = gen.place(case["f"], mdl.umin[i], mdl.umax[i])
    if case["before"]:  # earlier commands leave no trace in the defaults
        e.step(0.01, {n: float(h) for n, h in zip(mdl.ctrl, mdl.umax)})
    s = hist.state_of(e, mdl)
    e.step(case["dt"], {mdl.ctrl[i]: float(u[i])})
    got = hist.state_of(e, mdl)
    mdl.check_flow(s, u, case["dt"], got, f"state after commanding only {mdl.ctrl[i]}")
    rec.nt(u[i] != 0)
    rec.label(mdl.kind + "." + mdl.ctrl[i])


ALL = sorted({c for v in ref.CONTROLS.values() for c in v} | {"pitch_rate", "yaw_rate", "gamma", "roll", "heading", "v", "thrust", "moment", "x", "theta", "speed"})


@st.composite
def foreign_cases(draw):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, methods=("RK45", "Euler")))
    return {"spec": sp, "value": draw(st.sampled_from([0.0, 0.25, -1.0])),
            "u": draw(gen.fracs(len(ref.CONTROLS[sp["k"]]))), "with": draw(st.booleans())}


def check_foreign(case, rec):
    """only the documented actuators exist: another name never moves a channel"""
    e, mdl = hist.start(case)
    act = dict(zip(mdl.ctrl, gen.control(mdl, case["u"]).tolist())) if case["with"] else {}
    s = hist.state_of(e, mdl)
    for name in ALL:
        if name in mdl.ctrl:
            continue
        try:
            e.step(0.5, {**act, name: case["value"]})
        except KeyError:
            if not same(hist.state_of(e, mdl), s):
                fail("the refused command moved the entity", start=s, got=e.state)
            continue
        fail(f"{type(e).__name__} takes commands for {name!r}, which is none of its actuators", actuators=mdl.ctrl, action=act, value=case["value"], start=s, got=e.state)
    rec.nt()
    rec.label(mdl.kind)


def check_jax(case, rec):
    e, mdl = hist.start(case)
    for stp in case["steps"][:2]:
        u = np.array([ref.f32(x) for x in mdl.clip_u(command(mdl, stp["u"])) * 0.9990234375])
        s = hist.state_of(e, mdl)
        dt = min(stp["dt"], 1.0)
        a = ref.build(case["spec"], "array")
        a.state = s.copy()
        e.step(dt, hist.action("jax", mdl, u))
        a.step(dt, u.copy())
        got, exp = hist.state_of(e, mdl), hist.state_of(a, mdl)
        tol = mdl.flow_tol(s, u, dt, rel=2e-4, state_rel=2e-6)[1] + 1e-6
        if not near(mdl.diff(got, exp), 0, tol):
            fail("a command given as jax array acts differently from the same numpy array", command=u, got=got, expected=exp, tolerance=tol)
        rec.nt(bool(np.any(u)))
    rec.label(mdl.kind)


SUBS = [
    Sub("forms", cases, check, 3000, 15000, "1-4 commands in random forms (dict, partial dict, list, array, none) vs twin given arrays; non-trivial: a command was given", shards=3),
    Sub("channels", channel_cases, check_channel, 1400, 7000, "one named actuator alone vs reference flow; non-trivial: non-zero command", shards=3),
    Sub("foreign", foreign_cases, check_foreign, 320, 1000, "commands naming something that is no actuator of the entity; all non-trivial", shards=1),
    Sub("jax_arrays", lambda: cases(("jax", )), check_jax, 80, 800, "jax array commands vs numpy arrays; non-trivial: non-zero command", shards=2),
    Sub("long_run", lambda: gen.long(cases()), check, 80, 800, "forms cycled over 25-110 steps; non-trivial: as forms", shards=4),
]
