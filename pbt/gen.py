"""Hypothesis strategies of specs, states, commands and histories (JSON-able, boundary-biased)."""
import math

from hypothesis import strategies as st

from pbt import ref

PI32 = ref.f32(math.pi)


def fl(lo, hi, *special, w=32):
    """floats of [lo, hi] exactly representable in float32, biased to the ends, zero and given specials."""
    lo32, hi32 = _in32(lo, hi)
    pts = [p for p in (lo32, hi32, 0.0) + tuple(ref.f32(x) for x in special) if lo32 <= p <= hi32]
    u = st.floats(lo32, hi32, width=32, allow_subnormal=False).map(_flush)
    # an even spread, which st.floats (biased to small magnitudes) lacks
    e = st.integers(0, 2**20).map(lambda k: ref.f32(lo32 + (hi32 - lo32) * k / 2**20))
    return st.one_of(e, e, u, st.sampled_from(pts)) if pts else st.one_of(e, u)


def _flush(x):
    return 0.0 if abs(x) < 1e-12 else x


def _in32(lo, hi):
    import numpy as np
    a, b = np.float32(lo), np.float32(hi)
    if float(a) < lo:
        a = np.nextafter(a, np.float32(np.inf))
    if float(b) > hi:
        b = np.nextafter(b, np.float32(-np.inf))
    return float(a), float(b)


def logf(lo, hi):
    """log-uniform positive float: single precision, double precision or a short decimal."""
    a, b = math.log(lo), math.log(hi)
    k = st.integers(0, 1000).map(lambda k: min(max(math.exp(a + (b - a) * k / 1000), lo), hi))
    return st.one_of(k.map(ref.f32), k, k.map(lambda x: min(max(float(f"{x:.2g}"), lo), hi)), st.sampled_from([ref.f32(lo), ref.f32(hi)]))


def frac():
    """position of a command in its range: -1 = lower limit, 1 = upper limit (exactly)."""
    return st.one_of(st.sampled_from([-1.0, 1.0, 0.0]), st.integers(-999, 999).map(lambda k: k / 1000), st.integers(-999, 999).map(lambda k: k / 1000))


def place(fr, lo, hi):
    """command value at fraction fr of [lo, hi]; beyond +-1 extrapolates."""
    if fr == -1:
        return float(lo)
    if fr == 1:
        return float(hi)
    if fr == 0 and lo <= 0 <= hi:
        return 0.0
    return float(lo + (hi - lo) * (fr + 1) / 2)


@st.composite
def unit_quat(draw):
    style = draw(st.integers(0, 4))
    if style == 0:
        q = draw(st.sampled_from([(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (.5, .5, .5, .5), (0, 0, 0, -1), (.5, -.5, .5, -.5)]))
    elif style == 1:
        ax = draw(st.integers(0, 2))
        th = draw(fl(-math.pi, math.pi))
        q = [0, 0, 0, math.cos(th)]
        q[ax] = math.sin(th)
    else:
        q = [draw(st.integers(-100, 100)) for _ in range(4)]
        if not any(q):
            q = [0, 0, 0, 1]
    n = math.sqrt(sum(c * c for c in q))
    return [ref.f32(c / n) for c in q]


DTS = st.one_of(logf(1e-3, 30.0), logf(1e-3, 30.0), logf(1e-6, 1e-2), st.sampled_from([1.0, 0.1, 0.5, 10.0]))


INERTIA = st.one_of(logf(0.01, 10), logf(0.01, 10), logf(1e-4, 1e3))
TURN = st.one_of(fl(-math.pi, math.pi, math.pi / 2, 1e-6), fl(-math.pi, math.pi, math.pi / 2, 1e-6), fl(-math.pi, math.pi, math.pi / 2, 1e-6), fl(-40, 40))


@st.composite
def decoy(draw, k, kw, jax=False):
    """Parameters of another entity of the same class, built around the one under test: it must not matter."""
    kw = {a: v for a, v in kw.items() if a != "trajectory_samples"}
    what = ["method"]
    if k in ("point", "rot2d", "sixdof", "sun"):
        what.append("n")
    if k in ("point", "rot2d", "sixdof") or k.startswith("int"):
        what.append("m")
    what += {"rot2d": ["inertia", "ang_vel_limit", "ang_acc_limit"] + ["use_jax"] * jax, "sixdof": ["inertia_diag", "ang_vel_limit", "ang_acc_limit", "thrust_control_limit", "body_frame_thrust"], "dub2": ["v_max", "acceleration_control_max"],
             "dub3": ["v_max", "acceleration_control_max", "roll_max"]}.get(k, ["damping"] if k.startswith("int") else [])
    for w in draw(st.lists(st.sampled_from(what), min_size=1, max_size=2, unique=True)):
        if w == "method":
            kw["integration_method"] = "RK45" if kw.get("integration_method") == "Euler" else "Euler"
        elif w == "n":
            kw["n"] = 0.5 * kw.get("n", 0.001027) + 0.002
        elif w == "m":
            kw["m"] = 3.0 * kw.get("m", 12.0)
        elif w == "inertia_diag":
            kw[w] = [2.0 * v for v in ref.as3(kw.get(w, 0.05))]
        elif w == "use_jax":
            kw[w] = not kw.get(w, False)
        elif w == "body_frame_thrust":
            kw[w] = not kw.get(w, True)
        else:
            kw.pop(w + "_form", None)
            kw[w] = {"inertia": 0.5, "ang_vel_limit": 0.75, "ang_acc_limit": 0.375, "thrust_control_limit": 3.0, "v_max": 800.0, "acceleration_control_max": 31.0, "roll_max": 1.25, "damping": 2.5}[w]
    if kw.get("integration_method") == "RK45_JAX":
        kw["integration_method"] = "RK45"
    return {"kw": kw, "when": draw(st.sampled_from(["before", "after"])), "step": draw(st.booleans())}


@st.composite
def spec(draw, kinds=None, params=True, limits="any", methods=("RK45", ), samples=False, jax=False, init=True):
    """An entity spec. limits: 'default', 'wide' (never bind in a few seconds), 'any' (default or random custom)."""
    k = draw(st.sampled_from(list(kinds or ref.KINDS)))
    kw, ini = {}, {}
    p = lambda: params and draw(st.booleans())  # noqa: E731
    if k in ("point", "rot2d", "sixdof", "sun") and p():
        kw["n"] = draw(st.one_of(st.sampled_from([0.0, 0.001027, 0.01, 0.0625]), fl(0, 0.01)))
    if k in ("point", "rot2d", "sixdof") and p():
        kw["m"] = draw(logf(0.1, 1e4))
    if k.startswith("int"):
        if p():
            kw["m"] = draw(logf(0.05, 1e3))
        if p():
            kw["damping"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), fl(0, 5)))
    if k == "rot2d":
        if limits == "wide":
            kw.update(ang_acc_limit=1e3, ang_vel_limit=1e3, acc_limit_wheel=1e9, vel_limit_wheel=1e9)
            kw["inertia"] = draw(INERTIA)
            kw["ang_acc_limit"] = draw(st.sampled_from([0.05, 0.5, 2.0]))
        elif limits == "any" and draw(st.booleans()):
            kw["inertia"] = draw(INERTIA)
            kw["ang_acc_limit"] = draw(st.sampled_from([0.0625, 0.015625, 0.5]))
            kw["ang_vel_limit"] = draw(st.sampled_from([0.125, 0.25, 1.0, 0.03125]))
            if draw(st.booleans()):
                kw.update(acc_limit_wheel=1e9, vel_limit_wheel=1e9)
    if k == "sixdof":
        if draw(st.booleans()) or limits == "wide":
            size = draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 50.0]))  # the moments differ in moderation, whatever their size
            d = draw(st.one_of(logf(0.01, 10), st.lists(logf(0.01, 10), min_size=3, max_size=3)))
            kw["inertia_diag"] = [size * v for v in d] if isinstance(d, list) else size * d
            kw["inertia_form"] = draw(st.sampled_from(["array", "matrix"]))
        if limits == "wide":
            kw.update(ang_vel_limit=1e3, acc_limit_wheel=1e9, vel_limit_wheel=1e9)
            kw["ang_acc_limit"] = draw(st.sampled_from([0.05, 0.5, 2.0]))
        elif limits == "any" and draw(st.booleans()):
            lim = st.sampled_from([0.125, 0.25, 1.0, 0.03125])
            kw["ang_vel_limit"] = draw(st.one_of(lim, st.lists(lim, min_size=3, max_size=3)))
            kw["ang_acc_limit"] = draw(st.one_of(lim, st.lists(lim, min_size=3, max_size=3)))
            if draw(st.booleans()):
                kw.update(acc_limit_wheel=1e9, vel_limit_wheel=1e9)
            if isinstance(kw["ang_vel_limit"], list):
                kw["ang_vel_limit_form"] = draw(st.sampled_from(["list", "array"]))
            if isinstance(kw["ang_acc_limit"], list):
                kw["ang_acc_limit_form"] = draw(st.sampled_from(["list", "array"]))
        if draw(st.booleans()):
            kw["body_frame_thrust"] = draw(st.booleans())
        if p():
            kw["thrust_control_limit"] = draw(st.sampled_from([0.5, 2.0, 10.0]))
    if k in ("dub2", "dub3"):
        if limits == "wide":
            kw.update(v_min=1.0, v_max=1e5)
            if k == "dub3":
                kw.update(gamma_min=-3.0, gamma_max=3.0, roll_min=-3.0, roll_max=3.0)
        elif limits == "any" and draw(st.booleans()):
            kw["v_min"] = draw(st.sampled_from([16.0, 64.0, 128.0, 150.0]))
            kw["v_max"] = draw(st.sampled_from([256.0, 512.0, 300.0, 300.0, 2000.0]))
            if k == "dub3":
                g = draw(st.sampled_from([0.125, 0.25, 0.5, 1.0, 1.5625, 2.75]))
                kw["gamma_min"], kw["gamma_max"] = -g, draw(st.sampled_from([0.125, 0.25, 0.5, 1.0, 1.5625, 2.75]))
                r = draw(st.sampled_from([0.5, 0.25, 1.0, 1.4375]))
                kw["roll_min"], kw["roll_max"] = -r, draw(st.sampled_from([0.5, 0.25, 1.0, 1.4375]))
        if limits == "any" and draw(st.booleans()):
            if k == "dub2":
                kw["heading_rate_control_min"] = -draw(st.sampled_from([0.1, 0.25, 0.5]))
                kw["heading_rate_control_max"] = draw(st.sampled_from([0.1, 0.25, 0.5]))
            else:
                kw["gamma_rate_control_min"] = -draw(st.sampled_from([0.05, 0.25]))
                kw["gamma_rate_control_max"] = draw(st.sampled_from([0.05, 0.25]))
                kw["roll_rate_control_min"] = -draw(st.sampled_from([0.05, 0.25]))
                kw["roll_rate_control_max"] = draw(st.sampled_from([0.05, 0.25]))
            kw["acceleration_control_min"] = -draw(st.sampled_from([20.0, 50.5, 120.0]))
            kw["acceleration_control_max"] = draw(st.sampled_from([20.0, 50.5, 120.0]))
    method = draw(st.sampled_from(list(methods)))
    if method != "RK45":
        kw["integration_method"] = method
        if "n" in kw:
            kw["n"] = min(kw["n"], 0.01)
    if jax and k in ("rot2d", "sun") and draw(st.booleans()):
        kw["use_jax"] = True
    if samples and k != "sun" and method == "RK45" and draw(st.booleans()):
        kw["trajectory_samples"] = draw(st.one_of(st.just(1), st.integers(1, 12)))
    sp = {"k": k, "kw": kw, "init": ini}
    if init:
        sp["init"] = draw(init_state(sp))
    if draw(st.integers(0, 3)) == 0:
        sp["num"] = draw(st.sampled_from(["np", "int"]))
    if draw(st.integers(0, 4)) == 0:
        sp["decoy"] = draw(decoy(k, kw, jax))
    return sp


@st.composite
def init_state(draw, sp, inside=True):
    """Initial values: a random subset of the named states, within the limits."""
    k = sp["k"]
    mdl = ref.RefModel({"k": k, "kw": sp["kw"]})
    out = {}
    full = draw(st.integers(0, 3)) > 0
    use = lambda: full or draw(st.booleans())  # noqa: E731
    if k in ("point", "rot2d", "sixdof"):
        pr = draw(st.sampled_from([10.0, 1000.0, 10000.0]))
        vr = draw(st.sampled_from([1.0, 10.0, 100.0]))
        for a in ("x", "y", "z")[:2 if k == "rot2d" else 3]:
            if use():
                out[a] = draw(fl(-pr, pr))
            if use():
                out[a + "_dot"] = draw(fl(-vr, vr))
    if k == "rot2d":
        if use():
            out["theta"] = draw(TURN)
        if use():
            out["wz"] = draw(_rate(mdl.vel))
    if k == "sixdof":
        if use():
            out.update(zip(("q1", "q2", "q3", "q4"), draw(unit_quat())))
        for i, a in enumerate(("wx", "wy", "wz")):
            if use():
                out[a] = draw(_rate(mdl.vel[i]))
    if k == "sun" and use():
        out["theta"] = draw(st.one_of(fl(-20, 20), fl(-20, 20), fl(-3000, 3000)))
    if k in ("dub2", "dub3"):
        for a in ("x", "y", "z")[:2 if k == "dub2" else 3]:
            if use():
                r = draw(st.sampled_from([1.0, 1000.0, 100000.0]))
                out[a] = draw(fl(-r, r))
        if use():
            out["heading"] = draw(TURN)
        if k == "dub3":
            if use():
                out["gamma"] = draw(fl(max(mdl.smin[4], -2.9), min(mdl.smax[4], 2.9)))
            if use():
                out["roll"] = draw(fl(max(mdl.smin[5], -1.4), min(mdl.smax[5], 1.4)))
        lo, hi = max(mdl.smin[-1], 1.0), min(mdl.smax[-1], 2000.0)
        if use() or not lo <= 200 <= hi:
            out["v"] = draw(fl(lo, hi))
    if k.startswith("int"):
        for a in ("x", "y", "z")[:int(k[3])]:
            if use():
                out[a] = draw(fl(-1000, 1000))
            if use():
                out[a + "dot"] = draw(fl(-50, 50))
    return out


def _rate(lim):
    lim = min(lim, 2.0)
    return fl(-lim * 0.999, lim * 0.999)


@st.composite
def fracs(draw, nu):
    style = draw(st.integers(0, 3))
    if style == 0:
        return [0.0] * nu
    return [draw(frac()) for _ in range(nu)]


@st.composite
def entity_case(draw, max_steps=1, dts=DTS, min_steps=1, **kw):
    """{'spec', 'steps': [{'u': [fractions], 'dt'}]}"""
    sp = draw(spec(**kw))
    nu = len(ref.CONTROLS[sp["k"]])
    n = draw(st.integers(min_steps, max_steps))
    return {"spec": sp, "steps": [{"u": draw(fracs(nu)), "dt": draw(dts)} for _ in range(n)]}


def control(mdl, fr):
    """command vector for fractions of the reference model's control range."""
    import numpy as np
    return np.array([place(f, lo, hi) for f, lo, hi in zip(fr, mdl.umin, mdl.umax)], dtype=float)


@st.composite
def long(draw, cases, lo=25, hi=110, keys=("steps", ), dt=None):
    """a case whose steps are gone through over and over"""
    c = dict(draw(cases))
    n = draw(st.integers(lo, hi))
    for k in keys:
        c[k] = [c[k][i % len(c[k])] for i in range(n)]
    sp = c.get("spec", {"k": "", "kw": {}})
    if sp["kw"].get("integration_method") == "Euler":  # explicit Euler spins attitudes up and is unstable for strong damping: numbers would overflow
        cap = 0.25 if sp["k"] == "sixdof" else 0.3 if sp["k"].startswith("int") else 1e9
        dt = min(dt or 1e9, cap)
    if dt:
        for k in keys:
            c[k] = [dict(s, dt=min(s["dt"], dt)) if isinstance(s, dict) and "dt" in s else s for s in c[k]]
    return c
