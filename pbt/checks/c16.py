"""C16 no mutable state shared between entities and callers."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, same

OUT = {
    "point": ["state", "position", "velocity"], "rot2d": ["state", "position", "velocity", "quaternion", "angular_velocity"],
    "sixdof": ["state", "position", "velocity", "quaternion", "angular_velocity"], "sun": ["state"],
    "dub2": ["state", "position", "velocity", "acceleration"], "dub3": ["state", "position", "velocity", "acceleration"],
    "int1": ["state", "position", "velocity"], "int2": ["state", "position", "velocity"], "int3": ["state", "position", "velocity"],
}
OPS = ["step", "step", "step-none", "step-over", "mutate-out", "mutate-out", "assign", "assign-view", "mutate-in", "set", "rel"]
ASSUMPTIONS = ["writing into the reported state_dot and constructor matrices are not part of this property (matrices of user models: C24)"]


@st.composite
def cases(draw, kinds=None):
    sp = draw(gen.spec(kinds=kinds, methods=("RK45", "RK45", "Euler"), jax=True, samples=True))
    nu = len(ref.CONTROLS[sp["k"]])
    cap = 1.0 if sp["k"] == "sixdof" else 5.0
    ops = [{"op": draw(st.sampled_from(OPS)), "u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(1e-2, 5)), cap), "form": draw(st.sampled_from(["array", "list", "dict", "f32"])),
            "pick": draw(st.integers(0, 9)), "x": draw(gen.fl(0.0, 2.0))} for _ in range(draw(st.integers(2, 7)))]
    return {"spec": sp, "ops": ops}


def scribble(a):
    """overwrite a in place; False when it cannot be"""
    if isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = 777.25
        return True
    return False


def scribble_action(a):
    if isinstance(a, dict):
        for k in list(a):
            a[k] = -555.5
        a["rubbish"] = 1.0
    elif isinstance(a, list):
        a[:] = [-555.5] * (len(a) + 1)
    else:
        scribble(a)


def as_form(form, mdl, u):
    if form == "f32":
        return np.array(u, dtype=np.float32)
    return hist.action(form, mdl, u)


def get(e, name):
    return getattr(e, name)


def frozen_view(e, mdl):
    return hist.observe(e, mdl)


def check(case, rec):
    a, mdl = hist.start(case)  # the entity that is toyed with
    b = ref.build(case["spec"], "calm")  # its twin, treated with fresh data only
    kept = []  # (array handed out or in, copy of its value)
    attacks = 0
    for op in case["ops"]:
        k = op["op"]
        u = gen.control(mdl, op["u"])
        before = frozen_view(a, mdl)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k in ("step", "step-over") and mdl.nu:
                if k == "step-over":
                    u = u * 3 + np.sign(u + 0.1) * 0.5
                act = as_form(op["form"], mdl, u)
                orig = copy.deepcopy(act)
                a.step(op["dt"], act)
                if not equal_action(act, orig):
                    fail("stepping modified the caller's command", before=orig, after=act)
                after = frozen_view(a, mdl)
                scribble_action(act)
                attacks += 1
                if not same(frozen_view(a, mdl), after):
                    fail("changing a command after the step changed the entity", form=op["form"])
                b.step(op["dt"], orig)
            elif k in ("step-none", "step", "step-over"):
                a.step(op["dt"])
                b.step(op["dt"])
            elif k == "mutate-out":
                name = OUT[mdl.kind][op["pick"] % len(OUT[mdl.kind])]
                arr = get(a, name)
                if np.ndim(arr) == 0:
                    name, arr = "state", a.state
                attacks += scribble(arr)
                if not same(frozen_view(a, mdl), before):
                    fail(f"writing into the array returned by .{name} changed the entity", before=before, after=frozen_view(a, mdl))
                # what was handed out earlier and kept by the caller
                v = get(a, name)
                kept.append((name, v, copy.deepcopy(v)))
                continue
            elif k in ("assign", "assign-view"):
                new = np.array(a.state, dtype=np.float64)
                new[op["pick"] % mdl.n] += 0.001 * op["x"]
                src = new.copy()
                given = src if k == "assign" else np.concatenate([src, src])[mdl.n:]
                a.state = given
                b.state = new.copy()
                after = frozen_view(a, mdl)
                kept.append(("assigned state", given, given.copy()))
                if op["x"] > 1:
                    scribble(given)
                    kept.pop()
                    attacks += 1
                    if not same(frozen_view(a, mdl), after):
                        fail("changing an array after assigning it as state changed the entity", before=after, after=frozen_view(a, mdl))
            elif k == "mutate-in" and mdl.nu:
                # one command object reused for two steps, changed in between
                act = as_form(op["form"], mdl, u)
                a.step(0.1, act)
                b.step(0.1, as_form(op["form"], mdl, u))
                if isinstance(act, dict):
                    act[mdl.ctrl[0]] = 0.0
                else:
                    act[0] = 0.0
                u2 = u.copy()
                u2[0] = 0.0
                if not same(frozen_view(a, mdl), frozen_view(b, mdl)):
                    fail("changing a command after the step changed the entity", form=op["form"])
                a.step(0.1, act)
                b.step(0.1, as_form(op["form"], mdl, u2))
                attacks += 1
            elif k == "set" and mdl.kind in ("dub2", "dub3"):
                for e in (a, b):
                    e.x = e.x + 1.0
            elif k == "rel" and mdl.kind in ("point", "rot2d", "sixdof"):
                class Sim:
                    sim_entities = {"me": a, "twin": b}
                a.set_sim(Sim())
                r = a.entity_relative_position("twin")
                scribble(r)
                scribble(a.entity_relative_velocity("twin"))
                attacks += 1
                if not same(frozen_view(a, mdl), before):
                    fail("writing into a relative position changed the entity")
        fa, fb = frozen_view(a, mdl), frozen_view(b, mdl)
        if not same(fa, fb):
            fail(f"after '{k}' the entity differs from its untouched twin", entity=fa, twin=fb)
        for name, arr, val in kept:
            if not same(arr, val):
                fail(f"an array of the caller ({name}) changed by itself during '{k}'", was=val, now=arr)
        for nm in ("state", "state_dot"):
            v = get(a, nm)
            kept.append((nm, v, copy.deepcopy(v)))
        if mdl.kind != "sun":
            for nm in ("position", "velocity"):
                v = get(a, nm)
                kept.append((nm, v, copy.deepcopy(v)))
    rec.nt(attacks > 0)
    rec.label(mdl.kind, *[o["op"] for o in case["ops"]])


def equal_action(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return list(x.items()) == list(y.items())
    if isinstance(x, list):
        return x == y
    return x.dtype == y.dtype and same(x, y)


@st.composite
def sibling_cases(draw):
    sp = draw(gen.spec(kinds=list(ref.KINDS) + ["sixdof"] * 2, methods=("RK45", "Euler"), jax=True))
    if sp["k"] == "sixdof" and draw(st.booleans()):  # limit arrays on either side of what the wheels give
        for key in ("ang_vel_limit", "ang_acc_limit"):
            sp["kw"][key] = [draw(st.sampled_from([0.125, 0.03125, 2.0, 8.0])) for _ in range(3)]
            sp["kw"][key + "_form"] = draw(st.sampled_from(["array", "array", "list"]))
    nu = len(ref.CONTROLS[sp["k"]])
    cap = 1.0 if sp["k"] == "sixdof" else 5.0
    seq = [{"who": draw(st.integers(0, 2)), "op": draw(st.sampled_from(["step", "step", "assign", "set", "none", "over"])), "u": draw(gen.fracs(nu)),
            "dt": min(draw(gen.logf(1e-2, 5)), cap)} for _ in range(draw(st.integers(2, 8)))]
    return {"spec": sp, "seq": seq}


def shared_kwargs(sp):
    """constructor arguments as one dict whose arrays and lists are shared by every entity built from it"""
    kw = dict(sp.get("kw", {}))
    if "inertia_diag" in kw:
        d = ref.as3(kw.pop("inertia_diag"))
        kw["inertia_matrix"] = np.matrix(np.diag(d)) if kw.pop("inertia_form", "array") == "matrix" else np.diag(d)
    for key in ("ang_acc_limit", "ang_vel_limit"):
        form = kw.pop(key + "_form", None)
        if key in kw and form == "array":
            kw[key] = np.array(kw[key], dtype=np.float64)
    kw.update(sp.get("init", {}))
    return kw


def check_siblings(case, rec):
    import importlib
    sp = case["spec"]
    mdl = ref.RefModel(sp)
    mod, cls = ref.CLASS[sp["k"]].split(":")
    cls = getattr(importlib.import_module(mod), cls)
    kw = shared_kwargs(sp)
    orig = copy.deepcopy(kw)
    es = [cls(name=f"e{i}", **kw) for i in range(3)]
    lone = [ref.build(sp, f"l{i}") for i in range(3)]
    for s in case["seq"]:
        i = s["who"]
        others = [frozen_view(es[j], mdl) for j in range(3) if j != i]
        u = gen.control(mdl, s["u"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for e in (es[i], lone[i]):
                if s["op"] == "assign":
                    e.state = np.array(e.state, dtype=np.float64) * 0.5
                elif s["op"] == "set" and mdl.kind in ("dub2", "dub3"):
                    e.heading = 0.5
                elif s["op"] == "none":
                    e.step(s["dt"])
                else:
                    e.step(s["dt"], (u * (3 if s["op"] == "over" else 1)).copy() if mdl.nu else None)
        now = [frozen_view(es[j], mdl) for j in range(3) if j != i]
        if not all(same(x, y) for x, y in zip(others, now)):
            fail(f"acting on one entity ('{s['op']}') changed another built from the same arguments", before=np.array(others), after=np.array(now))
        if not same(frozen_view(es[i], mdl), frozen_view(lone[i], mdl)):
            fail("an entity behaves differently when others were built from the same arguments", got=frozen_view(es[i], mdl), expected=frozen_view(lone[i], mdl))
    for k, v in orig.items():
        w = kw[k]
        ok = same(v, w) and np.asarray(v).dtype == np.asarray(w).dtype if isinstance(v, (np.ndarray, list)) else v == w
        if not ok or type(v) is not type(w):
            fail(f"constructor argument {k} was modified", before=v, after=w)
    rec.nt(len({s["who"] for s in case["seq"]}) > 1)
    rec.label(mdl.kind, "shared-arrays" if any(isinstance(v, (np.ndarray, list)) for v in kw.values()) else "scalars")


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True))
    return {"m": m, "x": draw(user.states(m)), "u": [[draw(gen.fl(-4, 4)) for _ in range(m["nu"])] for _ in range(draw(st.integers(1, 3)))], "over": draw(st.booleans()),
            "dt": draw(gen.logf(1e-2, 1.0 if not m["jax"] else 0.2))}


def check_user(case, rec):
    """dynamics.step called directly: leaves its arguments alone and returns fresh arrays"""
    m = case["m"]
    dyn = user.build(m)
    a, b = user.entity(user.build(m), m, case["x"], [2.0] * m["nu"]), user.entity(user.build(m), m, case["x"], [2.0] * m["nu"], "b")
    x = np.array(case["x"], dtype=np.float64)
    for u in case["u"]:
        xin, uin = x.copy(), np.array(u)
        got, dot = dyn.step(case["dt"], xin, uin)
        if not same(xin, x) or not same(uin, u):
            fail("the dynamics step modified its arguments", state_before=x, state_after=xin, control_before=u, control_after=uin, model=m["type"], method=m["method"])
        val, vdot = np.array(got), np.array(dot)
        dyn.step(0.1, np.array(got, dtype=np.float64), np.array(u))
        if not same(got, val) or not same(dot, vdot):
            fail("arrays returned by an earlier dynamics step changed later", was=val, now=got)
        scribble(xin)
        scribble(uin)
        if not same(got, val):
            fail("the returned state shares memory with the arguments", was=val, now=got)
        x = val
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            act = np.array(u) * (3 if case["over"] else 1)
            keep = act.copy()
            sd = a.state
            a.step(case["dt"], act)
            b.step(case["dt"], keep.copy())
        if not same(act, keep):
            fail("stepping modified the caller's command", before=keep, after=act)
        scribble(act)
        scribble(sd)
        if not same(a.state, b.state):
            fail("a user-defined entity shares memory with its caller", got=a.state, expected=b.state)
    rec.nt(len(case["u"]) > 1 or case["over"])
    rec.label(m["type"], m["method"], "jax" if m["jax"] else "numpy")


SUBS = [
    Sub("aliasing", cases, check, 1800, 9000, "2-7 operations on an entity whose inputs and outputs are overwritten, against a twin; non-trivial: at least one array overwritten", shards=4),
    Sub("siblings", sibling_cases, check_siblings, 1000, 5000, "three entities from one argument dict; non-trivial: at least two acted on", shards=2),
    Sub("user_models", user_cases, check_user, 800, 4000, "user models stepped directly and through an entity; non-trivial: several steps or out-of-range commands", shards=2),
]
