"""C23 actuator and rate limits."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, expect_raises, fail, near, num, same, vec

ASSUMPTIONS = ["inertia matrices are diagonal", "a limit reached by saturating steps is approached with the adaptive solver's own accuracy, and never passed"]
REJECT = (AssertionError, TypeError, ValueError)


@st.composite
def params(draw, kind):
    """limits on either side of the body/wheel crossover"""
    kw = {"inertia_wheel": draw(st.one_of(st.just(4.1e-5), gen.logf(1e-6, 1e-2)))}
    if kind == "rot2d":
        inertia = [draw(st.one_of(st.just(ref.INERTIA), gen.logf(0.01, 20)))]
        kw["inertia"] = inertia[0]
    else:
        if draw(st.booleans()):
            kw["inertia_diag"] = [draw(gen.logf(0.01, 20)) for _ in range(3)]
        inertia = ref.as3(kw.get("inertia_diag", ref.INERTIA))
    wi = kw["inertia_wheel"]
    # wheel limits chosen so that the wheel's share is around a wanted body rate
    want = draw(gen.logf(0.01, 2.0))
    kw["vel_limit_wheel"] = want * inertia[0] / wi
    wacc = draw(gen.logf(0.005, 2.0))
    kw["acc_limit_wheel"] = wacc * inertia[0] / wi

    def lim(target):
        one = lambda: draw(st.one_of(st.just(ref.f32(target)), gen.logf(target / 8, target * 8), st.sampled_from([0.01, 0.5, 1.0])))  # noqa: E731
        if kind == "rot2d" or draw(st.booleans()):
            return one()
        return [one() for _ in range(3)]

    kw["ang_vel_limit"], kw["ang_acc_limit"] = lim(want), lim(wacc)
    if draw(st.integers(0, 3)) == 0:
        for k in draw(st.lists(st.sampled_from(["ang_vel_limit", "ang_acc_limit", "acc_limit_wheel", "vel_limit_wheel"]), min_size=1, max_size=2)):
            kw.pop(k, None)
    if kind == "sixdof" and draw(st.booleans()):
        kw["thrust_control_limit"] = draw(st.sampled_from([0.5, 2.0, 10.0, 0.01, 3]))
    return kw


def expected(kind, kw):
    """(inertia, acceleration limit, rate limit) per axis, from the documented rule"""
    inertia = [float(kw.get("inertia", ref.INERTIA))] if kind == "rot2d" else ref.as3(kw.get("inertia_diag", ref.INERTIA))
    n = len(inertia)
    wi = kw.get("inertia_wheel", ref.WHEEL_I)
    get = lambda k, d: np.array(ref.as3(kw.get(k, d))[:n])  # noqa: E731
    body_a, body_v = get("ang_acc_limit", ref.ACC_LIM), get("ang_vel_limit", ref.VEL_LIM)
    wheel_a = wi * kw.get("acc_limit_wheel", ref.WHEEL_ACC) / np.array(inertia)
    wheel_v = wi * kw.get("vel_limit_wheel", ref.WHEEL_VEL) / np.array(inertia)
    return np.array(inertia), np.minimum(body_a, wheel_a), np.minimum(body_v, wheel_v), body_a > wheel_a, body_v > wheel_v


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["rot2d", "sixdof", "sixdof"]))
    return {"k": kind, "kw": draw(params(kind)), "axis": draw(st.integers(0, 2)), "sign": draw(st.sampled_from([-1.0, 1.0])), "over": draw(st.sampled_from([1.0, 1.5, 20.0])),
            "part": draw(st.sampled_from([0.25, 0.5, 0.9])), "m": draw(gen.logf(0.5, 100)), "use_jax": draw(st.integers(0, 15)) == 0}


def check(case, rec):
    k, kw = case["k"], dict(case["kw"], m=case["m"], n=0.0)
    if k == "rot2d" and case["use_jax"]:
        kw["use_jax"] = True
    inertia, acc, vel, wa, wv = expected(k, kw)
    nt = 2 if k == "rot2d" else 3
    n = len(inertia)
    thr = float(kw.get("thrust_control_limit", 1.0)) if k == "sixdof" else 1.0
    lim = np.concatenate([np.full(nt, thr), acc * inertia])
    spec = {"k": k, "kw": kw, "init": {}}
    e = ref.build(spec)
    lo, hi = vec(e.control_min, nt + n, "control_min"), vec(e.control_max, nt + n, "control_max")
    if not near(hi, lim, 1e-12 * lim) or not near(lo, -lim, 1e-12 * lim):
        fail("advertised control limits are not thrust limit and inertia * min(body, wheel)", params=kw, low=lo, high=hi, expected=lim)
    ax = case["axis"] % n
    i = nt + ax  # index of the moment, and of the rate among the last n states
    rtol = 1e-4 if kw.get("use_jax") else 1e-6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        u = np.zeros(nt + n)
        u[i] = case["sign"] * lim[i] * case["over"]
        dt = min(case["part"] * vel[ax] / acc[ax], 6 / vel[ax])  # (about one turn at most)
        e.step(dt, u.copy())
        w = vec(e.state, 6 if n == 1 else 13, "state")[-n:]
        exp = np.zeros(n)
        exp[ax] = case["sign"] * acc[ax] * dt
        if not near(w, exp, rtol * vel[ax]):
            fail("rate gained under a saturated moment is not the admissible acceleration times time", params=kw, axis=ax, dt=dt, got=w, expected=exp)
        d = min(0.2 * vel[ax] / acc[ax], 2 / vel[ax])
        x = np.zeros(6 if n == 1 else 13)
        x[-n + ax] = case["sign"] * (vel[ax] - acc[ax] * d)
        if n == 3:
            x[6] = 1.0
        e.state = x
        for _ in range(2):
            e.step(2 * d, u.copy())
            w = vec(e.state, 6 if n == 1 else 13, "state")[-n:]
            if not abs(w[ax]) <= vel[ax] * (1 + (1e-6 if kw.get("use_jax") else 1e-12)):
                fail("the rate limit min(body, wheel) is exceeded", params=kw, axis=ax, got=w, limit=vel)
        # full step estimates that straddle the limit leave the solver's absolute tolerance
        if not abs(w[ax]) >= vel[ax] - 0.2 * acc[ax] * d - 3e-6 - 2e-3 * vel[ax]:
            fail("a sustained saturated moment does not reach the rate limit", params=kw, axis=ax, got=w, limit=vel)
        # thrust, on a fresh entity at rest aligned with the frame
        f = ref.build(spec, "f")
        u = np.zeros(nt + n)
        u[case["axis"] % nt] = case["sign"] * thr * case["over"]
        f.step(2.0, u.copy())
        v = vec(f.velocity, 3, "velocity")
        exp = np.zeros(3)
        exp[case["axis"] % nt] = case["sign"] * thr * 2.0 / case["m"]
        if not near(v, exp, (1e-5 if kw.get("use_jax") else 1e-6) * thr * 2 / case["m"] + 1e-9):
            fail("velocity gained under saturated thrust is not the configured thrust limit over mass", params=kw, got=v, expected=exp)
    rec.nt(bool(np.any(wa) or np.any(wv) or case["over"] > 1))
    rec.label(k, "wheel-acc" if wa[ax] else "body-acc", "wheel-vel" if wv[ax] else "body-vel", "jax" if kw.get("use_jax") else "numpy")


@st.composite
def zero_cases(draw):
    kind = draw(st.sampled_from(["rot2d", "sixdof"]))
    kw = draw(params(kind))
    which = draw(st.lists(st.sampled_from(["ang_acc_limit", "ang_vel_limit", "acc_limit_wheel", "vel_limit_wheel"] + ["thrust_control_limit"] * (kind == "sixdof")), min_size=1, max_size=2, unique=True))
    for w in which:
        kw[w] = draw(st.sampled_from([0, 0.0]))
        if kind == "sixdof" and w.startswith("ang") and draw(st.booleans()):
            kw[w] = [0.0 if i == draw(st.integers(0, 2)) else 0.5 for i in range(3)]
    return {"k": kind, "kw": kw, "over": draw(st.sampled_from([1.0, 2.0])), "sign": draw(st.sampled_from([-1.0, 1.0])), "dt": draw(gen.logf(0.01, 0.5))}


def check_zero(case, rec):
    """a limit of zero means none at all: neither absent nor defaulted"""
    k, kw = case["k"], dict(case["kw"], n=0.0)
    inertia, acc, vel, _, _ = expected(k, kw)
    n, nt = len(inertia), 2 if k == "rot2d" else 3
    thr = float(kw.get("thrust_control_limit", 1.0)) if k == "sixdof" else 1.0
    lim = np.concatenate([np.full(nt, thr), acc * inertia])
    e = ref.build({"k": k, "kw": kw, "init": {}})
    lo, hi = vec(e.control_min, nt + n, "control_min"), vec(e.control_max, nt + n, "control_max")
    if not near(hi, lim, 1e-12 * lim) or not near(lo, -lim, 1e-12 * lim):
        fail("advertised control limits are not thrust limit and inertia * min(body, wheel)", params=kw, low=lo, high=hi, expected=lim)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(2):
            e.step(case["dt"], case["sign"] * (np.where(lim == 0, 1.0, lim) * case["over"]))
            w = vec(e.state, 6 if n == 1 else 13, "state")[-n:]
            still = (acc == 0) | (vel == 0)
            if np.any(w[still] != 0) or np.any(np.abs(w) > vel * (1 + 1e-12)):
                fail("a turn rate builds up although its acceleration or rate limit is zero", params=kw, got=w)
            v = vec(e.velocity, 3, "velocity")
            if thr == 0 and np.any(v != 0):
                fail("velocity is gained although the thrust limit is zero", params=kw, got=v)
    rec.nt()
    rec.label(k, *[p for p, v in kw.items() if "limit" in p and not np.all(v)])


@st.composite
def form_cases(draw):
    a, v = draw(gen.logf(0.005, 1.0)), draw(gen.logf(0.01, 1.0))
    if draw(st.integers(0, 4)) == 0:
        a, v = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    per = draw(st.booleans())
    A = [a, draw(gen.logf(0.005, 1.0)), draw(gen.logf(0.005, 1.0))] if per else [a] * 3
    V = [v, draw(gen.logf(0.01, 1.0)), draw(gen.logf(0.01, 1.0))] if per else [v] * 3
    return {"A": A, "V": V, "per": per, "u": draw(gen.fracs(6)), "dt": draw(gen.logf(0.05, 2)), "wheel": draw(st.sampled_from([181.3, 1e9, 2000.0])), "dyn": draw(st.booleans())}


def forms(x, per):
    out = {"list": [float(v) for v in x], "array": np.array(x, dtype=np.float64), "list of numpy numbers": [np.float64(v) for v in x]}
    if not per:
        out.update({"number": x[0], "float": float(x[0]), "numpy number": np.float64(x[0])})
    if all(isinstance(v, int) for v in x):
        out["list of ints"] = list(x)
    return out


def check_forms(case, rec):
    from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
    from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
    fa, fv = forms(case["A"], case["per"]), forms(case["V"], case["per"])
    base = None
    for na, a in fa.items():
        nv = na if na in fv else "list"
        e = SixDOFSpacecraft(name="e", ang_acc_limit=a, ang_vel_limit=fv[nv], acc_limit_wheel=case["wheel"], vel_limit_wheel=1e9)
        u = np.array([gen.place(f, lo, hi) for f, lo, hi in zip(case["u"], e.control_min, e.control_max)])
        e.step(case["dt"], u)
        obs = [np.array(e.control_min, dtype=float), np.array(e.control_max, dtype=float), np.array(e.state, dtype=float)]
        if case["dyn"]:
            d = SixDOFDynamics(ang_acc_limit=a, ang_vel_limit=fv[nv])
            obs.append(np.array(d.step(0.5, np.array([0, 0, 0, 0, 0, 0, 1.0, 0, 0, 0, 5, -5, 5]), np.zeros(6))[0], dtype=float))
        if base is None:
            base = (na, obs)
        for x, y in zip(base[1], obs):
            if not same(x, y):
                fail(f"limits given as {na}/{nv} act differently from the same limits given as {base[0]}", limits=(case["A"], case["V"]), got=y, expected=x)
    if case["dyn"] and not near(np.abs(base[1][3][10:]), np.minimum(5, np.array(case["V"], dtype=float)), 1e-12):
        fail("rate limits of the bare dynamics are not those given", got=base[1][3], expected=case["V"])
    rec.nt(case["per"] or len(fa) > 3)
    rec.label("per-axis" if case["per"] else "uniform")


BAD = ["short", "long", "empty", "nested", "tuple", "str", "none", "dict", "short-array", "long-array", "set"]


def bad_value(kind):
    return {"short": [0.1, 0.2], "long": [0.1] * 4, "empty": [], "nested": [[0.1, 0.2, 0.3]], "tuple": (0.1, 0.1, 0.1), "str": "0.1", "none": None, "dict": {"x": 0.1},
            "short-array": np.array([0.1, 0.2]), "long-array": np.full(5, 0.1), "set": {0.1}}[kind]


@st.composite
def bad_cases(draw):
    return {"bad": draw(st.sampled_from(BAD)), "where": draw(st.sampled_from(["ang_acc_limit", "ang_vel_limit"])), "via": draw(st.sampled_from(["entity", "dynamics", "function"])),
            "other": draw(gen.logf(0.01, 1))}


def check_bad(case, rec):
    from safe_autonomy_dynamics.cwh import SixDOFSpacecraft
    from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
    from safe_autonomy_dynamics.utils import number_list_to_np
    v = bad_value(case["bad"])
    other = {"ang_acc_limit": "ang_vel_limit", "ang_vel_limit": "ang_acc_limit"}[case["where"]]
    fn = {"entity": lambda: SixDOFSpacecraft(name="e", **{case["where"]: v, other: case["other"]}), "dynamics": lambda: SixDOFDynamics(**{case["where"]: v, other: case["other"]}),
          "function": lambda: number_list_to_np(v, (3, ))}[case["via"]]
    expect_raises(REJECT, fn, f"{case['where']}={v!r} ({case['via']})")
    rec.nt()
    rec.label(case["bad"], case["via"])


@st.composite
def conv_cases(draw):
    shape = draw(st.sampled_from([(1, ), (2, ), (3, ), (6, ), (2, 3), (1, 1), (3, 1)]))
    size = int(np.prod(shape))
    ints = draw(st.booleans())
    vals = [draw(st.integers(-50, 50)) if ints else draw(gen.fl(-1e3, 1e3)) for _ in range(size)]
    return {"shape": list(shape), "vals": vals, "form": draw(st.sampled_from(["number", "list", "array"])), "other": list(draw(st.sampled_from([(1, ), (2, ), (3, ), (6, ), (2, 3), (4, )])))}


def check_conv(case, rec):
    from safe_autonomy_dynamics.utils import number_list_to_np
    shape = tuple(case["shape"])
    if case["form"] == "number":
        given, exp = case["vals"][0], np.full(shape, float(case["vals"][0]))
    else:
        exp = np.array(case["vals"], dtype=np.float64).reshape(shape)
        given = exp.copy() if case["form"] == "array" else np.array(case["vals"]).reshape(shape).tolist()
    got = number_list_to_np(given, shape)
    if not isinstance(got, np.ndarray) or got.dtype != np.float64 or not same(got, exp):
        fail("conversion to an array changes the values, shape or type", given=given, shape=shape, got=got, expected=exp)
    if case["form"] != "number" and tuple(case["other"]) != shape:
        expect_raises(REJECT, lambda: number_list_to_np(given, tuple(case["other"])), f"{given!r} for shape {case['other']}")
    num(got.ravel()[0], "converted value")
    rec.nt(len(case["vals"]) > 1)
    rec.label(case["form"], "ints" if all(isinstance(v, int) for v in case["vals"]) else "floats")


SUBS = [
    Sub("limits", cases, check, 1500, 15000, "limits around the body/wheel crossover: advertised, reached and never passed; non-trivial: the wheel binds or the command is out of range", shards=4),
    Sub("zero", zero_cases, check_zero, 300, 3000, "limits of exactly zero; all non-trivial"),
    Sub("forms", form_cases, check_forms, 700, 7000, "number, list and array forms of the same limits; non-trivial: per-axis limits or integer forms", shards=2),
    Sub("rejected", bad_cases, check_bad, 150, 600, "wrong length or type; all non-trivial"),
    Sub("conversion", conv_cases, check_conv, 500, 5000, "number/list/array to an array of a shape; non-trivial: more than one element"),
]
