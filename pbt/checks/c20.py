"""C20 entity equality."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, fail

ASSUMPTIONS = ["'identical' is bitwise equality of the state vectors; differing states differ by at least 1e-3 in some physical component"]


def eq(a, b):
    r, s = (a == b), (b == a)
    if np.ndim(r) or np.ndim(s):
        fail("equality does not give a single truth value", got=r)
    if bool(r) != bool(s):
        fail("equality is not symmetric", a_eq_b=bool(r), b_eq_a=bool(s))
    if bool(a != b) == bool(r):
        fail("!= does not negate ==", eq=bool(r), ne=bool(a != b))
    return bool(r)


@st.composite
def cases(draw):
    sp = draw(gen.spec(methods=("RK45", "Euler"), jax=True, params=True))
    k = sp["k"]
    for nm in list(sp["init"]):  # moderate numbers, so that differences are representable
        if nm in ("x", "y", "z"):
            sp["init"][nm] = ref.f32(sp["init"][nm] % 1000.0)
    nu = len(ref.CONTROLS[k])
    cap = 1.0 if k == "sixdof" else 3.0
    other_kw = draw(gen.spec(kinds=[k], init=False))["kw"]
    steps = [{"u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(0.01, 3)), cap)} for _ in range(draw(st.integers(0, 3)))]
    return {"spec": sp, "steps": steps, "kw2": other_kw, "d": draw(st.sampled_from([1e-3, -1e-3, 0.01, -0.5, 1.0, 0.25])), "how": draw(st.sampled_from(["flip", "flip", "zero", "swap"])),
            "j": draw(st.integers(1, 12))}


def phys(mdl, s):
    """the physical state of a state vector"""
    s = np.array(s, dtype=np.float64)
    if mdl.kind == "sixdof":
        s[3:7] /= np.linalg.norm(s[3:7])
        if s[3:7][np.argmax(np.abs(s[3:7]) > 1e-6)] < 0:  # q and -q are one attitude
            s[3:7] = -s[3:7]
    return s


def check(case, rec):
    a, mdl = hist.start(case)
    k = mdl.kind
    if k == "sun":
        b = ref.build(dict(case["spec"], init={"theta": 1.25}), "other sun")
        for stp in case["steps"]:
            a.step(stp["dt"])
        if not eq(a, b) or not eq(a, a):
            fail("two suns are not equal")
        rec.nt()
        rec.label("sun")
        return
    twin = ref.build(case["spec"], "a different name")
    if not eq(a, a) or not eq(a, twin):
        fail("identical entities are not equal")
    for stp in case["steps"]:
        u = gen.control(mdl, stp["u"])
        a.step(stp["dt"], u.copy())
        if stp is case["steps"][0] and np.max(np.abs(np.array(a.position) - np.array(twin.position))) > 1e-3 and eq(a, twin):
            fail("equality ignores a difference in position", a=a.state, b=twin.state)
        twin.step(stp["dt"], u.copy())
        if not eq(a, a) or not eq(a, twin):
            fail("entities that made the same steps are not equal", a=a.state, b=twin.state)
    # the same state reached by assignment, in an entity with other parameters
    b = ref.build({"k": k, "kw": case["kw2"], "init": {"v": 250.0} if k.startswith("dub") else {}}, "assigned")
    b.state = a.state
    air = k.startswith("dub")
    if air:
        ra = float(a.state_dot[-1])
        if abs(ra) > 1e-3 and eq(a, b):
            fail("equality ignores a difference in acceleration", a=a.acceleration, b=b.acceleration)
        b.state_dot = np.array(a.state_dot)
    if not eq(a, b):
        fail("equality fails between entities of identical physical state", a=a.state, b=b.state)
    # one component differs: each in turn
    s = np.array(a.state, dtype=np.float64)
    base, other = ref.build(case["spec"], "base"), ref.build(case["spec"], "other")
    compared = 0
    for i in range(mdl.n):
        for d in (case["d"], case["how"]):
            s2 = s.copy()
            if d == "flip":
                s2[i] = -s2[i]
            elif d == "zero":
                s2[i] = 0.0
            elif d == "swap":
                j = (i + case["j"]) % mdl.n
                s2[[i, j]] = s2[[j, i]]
            else:
                s2[i] += d
            if mdl.kind == "sixdof" and not np.linalg.norm(s2[3:7]) > 1e-2 or np.max(np.abs(phys(mdl, s) - phys(mdl, s2))) < 5e-4:
                continue
            base.state, other.state = s.copy(), s2.copy()
            if air:  # same acceleration vector where the direction is the same
                base.state_dot = other.state_dot = np.array(a.state_dot)
            if eq(base, other):
                fail(f"equality ignores a difference in {mdl.names[i]}", a=s, b=s2)
            compared += 1
    if not eq(base, base):
        fail("equality is not reflexive")
    other.state = base.state
    if not eq(base, other):
        fail("equality does not hold after the difference is undone", a=base.state, b=other.state)
    rec.nt(compared > 0)
    rec.label(k, "stepped" if case["steps"] else "fresh", case["how"])


@st.composite
def pair_cases(draw):
    i, j = draw(st.lists(st.integers(0, len(ref.KINDS) - 1), min_size=2, max_size=2, unique=True))
    c = {"a": ref.KINDS[i], "b": ref.KINDS[j], "init": {}, "foreign": draw(st.integers(0, 5))}
    for k in (c["a"], c["b"]):
        c["init"][k] = draw(gen.init_state({"k": k, "kw": {}})) if draw(st.booleans()) else {}
    return c


def check_pairs(case, rec):
    a, b = (ref.build({"k": k, "init": case["init"][k]}, "same") for k in (case["a"], case["b"]))
    if eq(a, b):
        fail("entities of different classes are equal", a=type(a).__name__, b=type(b).__name__)
    mdl = ref.RefModel({"k": case["a"], "init": case["init"][case["a"]]})
    things = [None, 0, "same", {}, (), type(a)]
    x = things[case["foreign"]]
    if (a == x) is not False and bool(a == x):
        fail("an entity equals something that is no entity", entity=mdl.kind, other=repr(x))

    class Lookalike:
        name = "same"
        position, velocity = (a.position, a.velocity) if mdl.kind != "sun" else (None, None)
        state = a.state

    if bool(a == Lookalike()):
        fail("an entity equals something that is no entity", entity=mdl.kind)
    rec.nt()
    rec.label(case["a"], case["b"])


SUBS = [
    Sub("same_class", cases, check, 3600, 18000, "twins stepped, assigned, and perturbed in one component; non-trivial: a perturbation was compared", shards=4),
    Sub("other_class", pair_cases, check_pairs, 1000, 5000, "pairs of different classes and foreign objects; all non-trivial"),
]
