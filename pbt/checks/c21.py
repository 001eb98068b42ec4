"""C21 relative positions and velocities, links."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, expect_raises, fail, near, same, vec

CRAFT = ["point", "rot2d", "sixdof"]
NAMES = ["chief", "deputy", "a", "inspector 2", "", "3"]


class Sim:
    def __init__(self, entities):
        self.sim_entities = entities


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    specs = [draw(gen.spec(kinds=CRAFT, jax=True)) for _ in range(n)]
    keys = draw(st.permutations(NAMES))[:n]
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        o = draw(st.sampled_from(["step", "step", "assign", "swap-sim", "replace", "link", "link", "pairs", "unknown"]))
        i = draw(st.integers(0, n - 1))
        ops.append({"op": o, "i": i, "j": draw(st.integers(0, n - 1)), "dt": draw(gen.logf(0.1, 2.0)), "u": [draw(gen.frac()) for _ in range(6)],
                    "spec": draw(gen.spec(kinds=CRAFT)) if o == "replace" else None, "seed": draw(gen.init_state(specs[i]))})
    return {"specs": specs, "keys": list(keys), "ops": ops, "ctor": draw(st.booleans())}


def pv(e, mdl):
    return hist.pos_vel(mdl, hist.state_of(e, mdl))


def compare(world, sim_of, rec):
    """all pairs, each through the simulation attached to the asking entity"""
    R = {}
    for ki, (e, m) in world.items():
        sim = sim_of[ki]
        for kj in sim.sim_entities:
            o = sim.sim_entities[kj]
            om = o._verif_model  # pylint: disable=protected-access
            rp, rv = vec(e.entity_relative_position(kj), 3, "relative position"), vec(e.entity_relative_velocity(kj), 3, "relative velocity")
            (p, v), (q, w) = pv(e, m), pv(o, om)
            jx = 2e-7  # initial states are single precision
            if not near(rp, q - p, jx * (np.abs(p) + np.abs(q)) + 1e-300) or not near(rv, w - v, jx * (np.abs(v) + np.abs(w)) + 1e-300):
                fail(f"relative position/velocity of '{kj}' seen from '{ki}' is wrong", position=rp, expected_position=q - p, velocity=rv, expected_velocity=w - v)
            R[ki, kj] = (rp, rv, e, o)
    for (i, j), (rp, rv, e, o) in R.items():
        if o is e and (np.any(rp) or np.any(rv)):
            fail("an entity is away from itself", position=rp, velocity=rv)
        for (a, b), (sp, sv, e2, o2) in R.items():
            if e2 is o and o2 is e and (not same(sp, -rp) and not near(sp, -rp, 0) or not near(sv, -rv, 0)):
                fail("relative position/velocity is not antisymmetric", one=rp, other=sp, one_velocity=rv, other_velocity=sv)
            if e2 is o:  # chain e -> o -> o2
                for (c, d), (tp, tv, e3, o3) in R.items():
                    if e3 is e and o3 is o2:
                        mag = 1e-6 * (np.max(np.abs(rp)) + np.max(np.abs(sp))) + 1e-9, 1e-6 * (np.max(np.abs(rv)) + np.max(np.abs(sv))) + 1e-9
                        if not near(tp, rp + sp, mag[0]) or not near(tv, rv + sv, mag[1]):
                            fail("relative positions/velocities do not add along a chain", direct=tp, chain=rp + sp)
    rec.nt(len(world) > 1 and any(np.any(r[0]) for r in R.values()))


def check(case, rec):
    world, entities = {}, {}
    sim0 = Sim(entities)
    for i, (key, sp) in enumerate(zip(case["keys"], case["specs"])):
        e = ref.build(sp, f"n{i}", sim=sim0) if case["ctor"] else ref.build(sp, f"n{i}")
        e._verif_model = ref.RefModel(sp)  # pylint: disable=protected-access
        if not case["ctor"]:
            e.set_sim(sim0)
        entities[key] = e
        world[key] = (e, e._verif_model)  # pylint: disable=protected-access
    sim_of = dict.fromkeys(world, sim0)
    compare(world, sim_of, rec)
    for op in case["ops"]:
        k = op["op"]
        ki, kj = case["keys"][op["i"]], case["keys"][op["j"]]
        e, m = world[ki]
        if k == "step":
            e.step(op["dt"], gen.control(m, op["u"][:m.nu]))
        elif k == "assign":
            e.state = ref.RefModel({"k": m.kind, "kw": case["specs"][op["i"]]["kw"] if m.kind == case["specs"][op["i"]]["k"] else {}, "init": {n: v for n, v in op["seed"].items() if n in m.names}}).s0
        elif k == "swap-sim":  # another simulation with the roles of two names exchanged
            other = dict(sim_of[ki].sim_entities)
            other[ki], other[kj] = other[kj], other[ki]
            s = Sim(other)
            e.set_sim(s)
            sim_of[ki] = s
        elif k == "replace":  # the simulation replaces the entity behind a name
            new = ref.build(op["spec"], "new")
            new._verif_model = ref.RefModel(op["spec"])  # pylint: disable=protected-access
            new.set_sim(sim0)
            entities[ki] = new
            world[ki] = (new, new._verif_model)  # pylint: disable=protected-access
            sim_of[ki] = sim0
        elif k == "link":  # formation flight: what is linked must not change what is seen
            if m.kind == "sixdof":
                e.register_lead(world[kj][0])
        elif k == "unknown":
            for bad in ("nobody", ki + "x", None):
                expect_raises(KeyError, lambda: e.entity_relative_position(bad), f"relative position of unknown '{bad}'")  # pylint: disable=cell-var-from-loop
                expect_raises(KeyError, lambda: e.entity_relative_velocity(bad), f"relative velocity of unknown '{bad}'")  # pylint: disable=cell-var-from-loop
        compare(world, sim_of, rec)
        rec.label(k)
    rec.label(*[s["k"] for s in case["specs"]])


@st.composite
def link_cases(draw):
    k = draw(st.sampled_from(["sixdof", "dub2", "dub3"]))
    specs = [draw(gen.spec(kinds=[k] if k == "sixdof" else ["dub2", "dub3"])) for _ in range(3)]
    specs[0] = draw(gen.spec(kinds=[k]))
    return {"specs": specs, "links": [[draw(st.integers(0, 2)), draw(st.integers(0, 2))] for _ in range(draw(st.integers(1, 5)))], "fr": [draw(gen.frac()) for _ in range(6)],
            "dt": draw(gen.logf(0.1, 2.0))}


def check_links(case, rec):
    es = [ref.build(s, f"e{i}") for i, s in enumerate(case["specs"])]
    free = [ref.build(s, f"e{i}") for i, s in enumerate(case["specs"])]
    attr = "lead" if case["specs"][0]["k"] == "sixdof" else "partner"
    want = [None] * 3
    for i, j in case["links"]:
        getattr(es[i], "register_" + attr)(es[j])
        want[i] = es[j]
        for e, w in zip(es, want):
            if getattr(e, attr) is not w:
                fail(f"registering a {attr} did not link exactly that entity", links=case["links"])
    for e, f, s in zip(es, free, case["specs"]):
        m = ref.RefModel(s)
        u = gen.control(m, case["fr"][:m.nu])
        e.step(case["dt"], u.copy())
        f.step(case["dt"], u.copy())
        if not same(hist.observe(e, m), hist.observe(f, m)):
            fail(f"a registered {attr} changes the motion", got=e.state, expected=f.state)
    rec.nt(any(i != j for i, j in case["links"]))
    rec.label(attr)


SUBS = [
    Sub("relative", cases, check, 700, 7000, "2-4 spacecraft of mixed classes, 1-7 operations, all pairs compared after each; non-trivial: apart", shards=4),
    Sub("links", link_cases, check_links, 300, 3000, "lead/partner registration; non-trivial: a link to another entity"),
]
