"""C34 invalid steps are rejected and change nothing."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, expect_raises, fail, same

ASSUMPTIONS = ["dict commands to a sun (which has no actuators) are not generated", "length-one arrays are not generated for entities with limits per actuator (numpy broadcasting is accepted there)"]
FOREIGN = ["thrust_x", "thrust_y", "thrust_z", "moment_x", "moment_y", "moment_z", "heading_rate", "gamma_rate", "roll_rate", "acceleration", "a0", "a1", "a2", "a3", "thrust", "x", "name", "control"]
TYPES = ["tuple", "string", "float", "int", "bool", "set", "bytes", "np.float64", "object", "range", "frozenset", "generator", "names"]
LENIENT = ["short", "long", "empty", "text-list", "nested-list", "text-value", "list-value", "none-value"]


@st.composite
def inject(draw, sun=False):
    how = draw(st.sampled_from(["type", "method"] if sun else ["key", "key", "type", "method", "lenient"]))
    d = {"bad": how}
    if how == "key":
        d["name"] = draw(st.one_of(st.sampled_from(FOREIGN), st.sampled_from(["", " ", "thrust_x ", "Thrust_x", "THRUST_X", "thrustx", "heading_rate_", "acceleratio", "a0 "]), st.sampled_from(["#int", "#none", "#tuple", "#bytes"])))
        d["at"] = draw(st.integers(0, 6))
        d["value"] = draw(st.one_of(gen.fl(-1, 1), st.just(0.0)))
        d["with"] = draw(st.integers(0, 6))
    elif how == "type":
        d["type"] = draw(st.sampled_from(TYPES))
    elif how == "lenient":
        d["type"] = draw(st.sampled_from(LENIENT))
        d["k"] = draw(st.integers(1, 4))
    else:
        d["method"] = draw(st.sampled_from(["RK23", "rk45", "euler", "", "RK45_JAX", "Euler ", "odeint", None]))
        d["none"] = draw(st.booleans())
    return d


@st.composite
def cases(draw, ent="library"):
    if ent == "library":
        sp = draw(gen.spec(methods=("RK45", "Euler"), samples=True))
        nu = len(ref.CONTROLS[sp["k"]])
        base = {"spec": sp}
        sun, cap = sp["k"] == "sun", 1.0 if sp["k"] in ("sixdof", "dub3") else 5.0
    else:
        m = draw(user.model(methods=("RK45", "Euler")))
        nu = m["nu"]
        base = {"model": m, "x0": draw(user.states(m, beyond=False)), "umax": draw(st.one_of(st.none(), st.just([1.0] * nu)))}
        sun, cap = False, 2.0
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        good = {"u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(1e-2, 5)), cap), "form": draw(st.sampled_from(hist.FORMS + ["none"]))}
        if draw(st.integers(0, 1)):
            ops.append({**good, **draw(inject(sun))})
        else:
            ops.append(good)
    ops.append({"u": [0.0] * nu, "dt": 0.25, "form": "none"})
    return {**base, "ops": ops}


def make(case):
    """(entity, actuator names, n, command of fractions)"""
    if "spec" in case:
        mdl = ref.RefModel(case["spec"])
        return ref.build(case["spec"]), list(mdl.ctrl), mdl.n, lambda f: gen.control(mdl, f)
    m = case["model"]
    names = [f"a{i}" for i in range(m["nu"])]
    return user.entity(user.build(m), m, case["x0"], umax=case["umax"]), names, m["n"], lambda f: np.array(f, dtype=float)


def good_action(op, names, u):
    u = [float(x) for x in u]
    f = op["form"]
    if f == "none" or not names:
        return None
    if f == "array":
        return np.array(u)
    if f == "list":
        return u
    d = dict(zip(names, u))
    if f == "shuffled":
        return dict(reversed(list(d.items())))
    return {k: v for k, v in d.items() if v != 0} if f == "sparse" else d


def special(name):
    return {"#int": 0, "#none": None, "#tuple": ("thrust_x", ), "#bytes": b"thrust_x"}.get(name, name)


def bad_action(op, names, u, alone=False):
    """(action, acceptable errors) or None when the drawn name is valid here"""
    u = [float(x) for x in u]
    if op["bad"] == "key":
        name = special(op["name"])
        if name in names:
            return None
        items = list(zip(names, u))[:op["with"]]
        items.insert(min(op["at"], len(items)), (name, op["value"]))
        return dict(items), KeyError
    t = op["type"]
    if op["bad"] == "type":
        return {"tuple": tuple(u), "string": "thrust_x", "float": 0.5, "int": 1, "bool": True, "set": set(u), "bytes": b"ab", "np.float64": np.float64(.5), "object": object(), "range": range(len(u)), "frozenset": frozenset(u),
                "generator": (x for x in u), "names": tuple(names)}[t], ValueError
    nu, k = len(names), op["k"]
    errs = (ValueError, TypeError, IndexError, AssertionError)
    if t == "short":
        n = max(nu - k, 1 if alone else 2)
        return (np.zeros(n) + 0.125, errs) if n < nu else None
    if t == "long":
        return np.zeros(nu + k), errs
    if t == "empty":
        return [], errs
    if t == "text-list":
        return ["full"] * nu, errs
    if t == "nested-list":
        return [[1.0] * (i + 1) for i in range(nu + 1)], errs
    i = k % nu
    d = dict(zip(names, u))
    d[names[i]] = {"text-value": "full", "list-value": [0.0, 1.0], "none-value": "None!"}[t]
    return d, errs


def check(case, rec):
    e, names, n, cmd = make(case)
    twin = make(case)[0]
    bad = 0
    method = e.dynamics.integration_method
    # without limits per actuator nothing makes one number out of several
    alone = case["spec"]["k"] in ("point", "int2", "int3") if "spec" in case else case["umax"] is None

    def compare(when):
        for a in ("state", "state_dot"):
            x, y = np.array(getattr(e, a), dtype=float), np.array(getattr(twin, a), dtype=float)
            if not same(x, y):
                fail(f"{a} differs from that of an entity that never got the invalid steps, {when}", got=x, expected=y, rejected=bad, entity=type(e).__name__)

    for i, op in enumerate(case["ops"]):
        u = cmd(op["u"])
        if "bad" not in op:
            a = good_action(op, names, u)
            e.step(op["dt"], a)
            twin.step(op["dt"], copy.deepcopy(a))
            compare(f"after valid step {i}")
            continue
        s, sd = np.array(e.state), np.array(e.state_dot)
        if op["bad"] == "method":
            e.dynamics.integration_method = op["method"]
            a = None if op["none"] else good_action(op, names, u)
            expect_raises(ValueError, lambda: e.step(op["dt"], a), f"step of {type(e).__name__} with integration method {op['method']!r}")
            e.dynamics.integration_method = method
            rec.label("method")
        else:
            got = bad_action(op, names, u, alone)
            if got is None:
                continue
            a, errs = got
            keep = dict(a) if isinstance(a, dict) else None
            expect_raises(errs, lambda: e.step(op["dt"], a), f"step of {type(e).__name__} with invalid action {a!r}")
            if keep is not None and (list(keep) != list(a) or any(keep[k] is not a[k] for k in keep)):
                fail("the rejected action was modified", before=keep, after=a)
            rec.label(op["bad"] if op["bad"] == "key" else f"{op['bad']} {op['type']}")
        bad += 1
        if not same(e.state, s) or not same(e.state_dot, sd):
            fail("a rejected step changed the entity", before=s, after=e.state, derivative_before=sd, derivative_after=e.state_dot)
        compare(f"after rejected step {i}")
    rec.nt(bad > 0)
    rec.label(case["spec"]["k"] if "spec" in case else "user")


@st.composite
def ctor_cases(draw):
    sp = draw(gen.spec())
    if draw(st.booleans()):  # samples from a method that records none
        sp["kw"]["trajectory_samples"] = draw(st.sampled_from([1, 2, 10]))
        jax = sp["k"] == "rot2d" and draw(st.booleans())
        if jax:
            sp["kw"]["use_jax"] = True
        return {"spec": sp, "method": "RK45_JAX" if jax else "Euler", "dt": draw(gen.logf(.01, 2)), "times": draw(st.integers(1, 3))} if sp["k"] != "sun" else draw(ctor_cases())
    return {"spec": sp, "method": draw(st.sampled_from(["RK23", "rk45", "", "RK45_JAX", "jax"])), "dt": draw(gen.logf(.01, 2)), "times": draw(st.integers(1, 3))}


def check_ctor(case, rec):
    """an entity configured with an unknown method rejects at the latest its first step, and works once the method is valid"""
    def build():
        return ref.build(case["spec"], integration_method=case["method"])
    errs = (AssertionError, ValueError) if "trajectory_samples" in case["spec"]["kw"] and case["method"] in ("Euler", "RK45_JAX") else ValueError
    try:
        e = build()
    except errs:
        rec.nt()
        return
    s = np.array(e.state)
    for _ in range(case["times"]):
        expect_raises(errs, lambda: e.step(case["dt"]), f"step of {type(e).__name__} configured with method {case['method']!r}" + (" and trajectory samples" if errs is not ValueError else ""))
        if not same(e.state, s) or np.any(np.array(e.state_dot)):
            fail("a rejected step changed the entity", before=s, after=e.state, state_dot=e.state_dot)
    e.dynamics.integration_method = "RK45"
    t = ref.build(case["spec"])
    e.step(case["dt"])
    t.step(case["dt"])
    if not same(e.state, t.state) or not same(e.state_dot, t.state_dot):
        fail("steps after a rejected one differ", got=e.state, expected=t.state)
    rec.nt()
    rec.label(case["spec"]["k"])


SUBS = [
    Sub("histories", cases, check, 5000, 30000, "valid steps interleaved with invalid ones on library entities, against a twin that only gets the valid ones; non-trivial: a step was rejected", shards=4),
    Sub("user-entities", lambda: cases(ent="user"), check, 1000, 10000, "the same for user-defined entities and dynamics; non-trivial: a step was rejected", shards=2),
    Sub("configured", ctor_cases, check_ctor, 600, 3000, "entities configured with an unknown method, or with samples a method does not record; all non-trivial", shards=1),
]
