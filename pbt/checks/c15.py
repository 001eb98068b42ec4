"""C15 determinism; a step depends only on state, command and step size."""
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref, user
from pbt.core import Sub, fail, near, same

DIST = ["none", "junk", "reject-name", "reject-type", "other", "build", "read", "reassign", "twice", "fresh", "bad-method"]
ASSUMPTIONS = ["compared bitwise; states are put back through the state attribute exactly as read from it"]


@st.composite
def cases(draw, kinds=None, methods=("RK45", "RK45", "Euler"), jax=True, nmax=5):
    c = draw(gen.entity_case(min_steps=2, max_steps=nmax, methods=methods, samples=True, jax=jax, dts=gen.logf(1e-2, 10), kinds=kinds))
    k = c["spec"]["k"]
    cap = 2.0 if k == "sixdof" else 10.0
    nu = len(ref.CONTROLS[k])
    for s in c["steps"]:
        s["dt"] = min(s["dt"], cap)
        s["over"] = draw(st.sampled_from([1.0, 1.0, 1.0, 3.0]))
        s["form"] = draw(st.sampled_from(hist.FORMS + ["none"]))
        s["dist"] = draw(st.lists(st.sampled_from(DIST), max_size=3))
        s["junk"] = {"u": draw(gen.fracs(nu)), "dt": min(draw(gen.logf(1e-2, 5)), cap)}
    other = draw(gen.entity_case(max_steps=1, dts=gen.logf(1e-2, 2)))
    if draw(st.booleans()):  # the same class with other parameters
        other = draw(gen.entity_case(max_steps=1, kinds=[k], dts=gen.logf(1e-2, 2)))
    c["other"] = other
    return c


def act(form, mdl, u):
    return None if form == "none" or not mdl.nu else hist.action(form, mdl, u)


def disturb(kind, e, mdl, stp, case, others):
    """Things that must not matter for e's next step; returns e (or its replacement)."""
    state = e.state
    if kind == "junk":
        e.step(stp["junk"]["dt"], gen.control(mdl, stp["junk"]["u"]) if mdl.nu else None)
        e.state = state
    elif kind == "twice":
        for _ in range(2):
            e.step(0.25, None)
        e.state = state
    elif kind == "reject-name" and mdl.nu:
        good = {mdl.ctrl[0]: 0.5 * float(np.broadcast_to(e.control_max, (mdl.nu, ))[0])}
        try:
            e.step(0.5, {**good, "no_such_actuator": 0.1})
        except KeyError:
            pass
    elif kind == "reject-type":
        try:
            e.step(0.5, "thrust")
        except ValueError:
            pass
    elif kind == "bad-method" and hasattr(e.dynamics, "integration_method"):
        m = e.dynamics.integration_method
        e.dynamics.integration_method = "nope"
        try:
            e.step(0.5, None)
        except ValueError:
            pass
        e.dynamics.integration_method = m
    elif kind == "other":
        for o, om, os in others:
            o.step(os["dt"], gen.control(om, os["u"]) if om.nu else None)
    elif kind == "build":
        ref.build(case["other"]["spec"], "more")
        ref.build(case["spec"], "more-of-the-same")
    elif kind == "read":
        hist.observe(e, mdl)
        repr(e.state)
        if mdl.kind != "sun":
            e.position_with_units  # noqa: B018
    elif kind == "reassign":
        e.state = e.state
    elif kind == "fresh":
        n = ref.build({"k": mdl.kind, "kw": case["spec"]["kw"], "init": {}} if mdl.kind not in ("dub2", "dub3") else case["spec"], "fresh")
        n.state = state
        return n
    return e


def check(case, rec):
    a, mdl = hist.start(case)
    b = ref.build(case["spec"], "b")
    om = ref.RefModel(case["other"]["spec"])
    others = [(ref.build(case["other"]["spec"], "other"), om, case["other"]["steps"][0])]
    if not same(hist.observe(a, mdl), hist.observe(b, mdl)):
        fail("two entities of equal configuration differ at once", a=hist.observe(a, mdl), b=hist.observe(b, mdl))
    used = set()
    for stp in case["steps"]:
        u = gen.control(mdl, stp["u"]) * stp["over"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = ref.build(case["spec"], "c")
            c.state = a.state
            for d in stp["dist"]:
                before = np.array(b.state)
                b = disturb(d, b, mdl, stp, case, others)
                if not same(before, b.state):
                    fail(f"'{d}' changed the state", before=before, after=b.state)
                used.add(d)
            a.step(stp["dt"], act(stp["form"], mdl, u))
            b.step(stp["dt"], act(stp["form"], mdl, u))
            c.step(stp["dt"], act(stp["form"], mdl, u))
        oa, ob, oc = (hist.observe(x, mdl) for x in (a, b, c))
        if not same(oa, ob):
            fail("identical entities under identical commands went apart", disturbances_on_b=stp["dist"], a=oa, b=ob, command=u, dt=stp["dt"])
        if not same(oa, oc):
            fail("an entity assigned the same state steps differently", simulated=oa, assigned=oc, command=u, dt=stp["dt"])
    rec.nt(bool(used - {"none", "read", "build"}))
    rec.label(mdl.kind, mdl.method, "jax" if mdl.jax else "numpy", *used)


@st.composite
def user_cases(draw):
    m = draw(user.model(jax=True))
    return {"m": m, "x": draw(user.states(m)), "x2": draw(user.states(m)), "seq": [{"u": [draw(gen.fl(-4, 4)) for _ in range(m["nu"])], "dt": draw(gen.logf(1e-2, 2 if not m["jax"] else 0.3)),
            "junk": draw(st.booleans())} for _ in range(draw(st.integers(2, 5)))]}


def check_user(case, rec):
    """one dynamics object shared by two entities vs separate objects; junk in between"""
    m = case["m"]
    umax = [2.0] * m["nu"]
    a = user.entity(user.build(m), m, case["x"], umax)
    dyn = user.build(m)
    b, o = user.entity(dyn, m, case["x"], umax), user.entity(dyn, m, case["x2"], umax, "o")
    lone = user.entity(user.build(m), m, case["x2"], umax, "lone")
    junk = False
    for s in case["seq"]:
        u = np.array(s["u"])
        if s["junk"]:
            keep = b.state
            b.step(0.2, -u)
            b.state = keep
            junk = True
        a.step(s["dt"], u.copy())
        o.step(s["dt"], (0.5 * u).copy())
        b.step(s["dt"], u.copy())
        lone.step(s["dt"], (0.5 * u).copy())
        for x, y, what in ((a, b, "a twin sharing its dynamics with another entity"), (lone, o, "the other entity on shared dynamics")):
            if not same(x.state, y.state) or not same(x.state_dot, y.state_dot):
                fail(f"{what} went apart", alone=x.state, shared=y.state, alone_dot=x.state_dot, shared_dot=y.state_dot, model=m["type"])
    rec.nt(junk)
    rec.label(m["type"], m["method"], "jax" if m["jax"] else "numpy")


@st.composite
def adaptive_jax(draw):
    c = draw(cases(kinds=["rot2d", "sun"], methods=("RK45_JAX", ), nmax=3))
    c["spec"]["kw"]["use_jax"] = True
    c["spec"]["kw"].pop("trajectory_samples", None)
    return c


@st.composite
def marathon_cases(draw):
    """a few commands cycled over many steps"""
    k = draw(st.sampled_from([k for k in ref.KINDS if k != "sun"] + ["rot2d", "sun"]))
    method = draw(st.sampled_from(["Euler", "Euler", "RK45"]))
    sp = draw(gen.spec(kinds=[k], methods=(method, ), samples=True))
    nu = len(ref.CONTROLS[k])
    n = draw(st.integers(120, 500)) if method == "Euler" else draw(st.integers(70, 270)) if k != "sixdof" else draw(st.integers(60, 140))
    return {"spec": sp, "n": n, "stride": draw(st.sampled_from([1, 2, 7])), "still": draw(st.integers(0, 3)) == 0,
            "cmds": [{"u": draw(gen.fracs(nu)), "dt": draw(gen.logf(1e-3, 0.5 if k != "sixdof" else 0.1)), "form": draw(st.sampled_from(hist.FORMS + ["none"])), "over": draw(st.sampled_from([1.0, 1.0, 1.5]))} for _ in range(draw(st.integers(1, 5)))]}


def check_marathon(case, rec):
    """after many steps an entity still steps like a new one with the same state, and like its equations say"""
    a, mdl = hist.start(case)
    first = {}
    start = a.state
    moved = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in range(case["n"]):
            j = i % len(case["cmds"])
            stp = case["cmds"][j]
            u = gen.control(mdl, stp["u"]) * stp["over"]
            if case["still"]:  # the same step over and over from the same state
                a.state = start
            s = hist.state_of(a, mdl)
            fresh = None
            if i % case["stride"] == 0 or i == case["n"] - 1:
                fresh = ref.build(case["spec"], "fresh")
                fresh.state = a.state
                fresh.step(stp["dt"], act(stp["form"], mdl, u))
            a.step(stp["dt"], act(stp["form"], mdl, u))
            oa = hist.observe(a, mdl)
            if not np.all(np.isfinite(oa)) or mdl.kind == "sixdof" and not 0.2 < np.linalg.norm(oa[3:7]) < 5:
                return  # Euler steps run away with nothing to hold them
            if fresh is not None and not same(oa, hist.observe(fresh, mdl)):
                fail(f"step {i + 1} of a long run differs from that step of a new entity in the same state", state=s, command=u, dt=stp["dt"], long_run=oa, new=hist.observe(fresh, mdl))
            if case["still"] and not same(first.setdefault(j, oa), oa):
                fail(f"repetition {i + 1} of the same step gives another result", first=first[j], now=oa)
            uc = mdl.clip_u(u) if mdl.nu else u
            if stp["form"] == "none" and mdl.nu:
                uc = 0 * u
            got = hist.state_of(a, mdl)
            if mdl.method == "Euler":
                exp, tol = mdl.euler(s, uc, stp["dt"])
                if tol is not None and not near(mdl.diff(got, exp), 0, tol):
                    fail(f"step {i + 1} of a long run is not state + dt * derivative", start=s, control=uc, dt=stp["dt"], got=got, expected=exp, tolerance=tol)
            elif i % 40 == 39:
                mdl.check_flow(s, uc, stp["dt"], got, f"state after step {i + 1} of a long run")
            moved = moved or bool(np.any(np.abs(got - s) > 1e-6))
    rec.nt(moved)
    rec.label(mdl.kind, mdl.method, "repeated" if case["still"] else "run")


@st.composite
def crowd_cases(draw):
    specs = [draw(gen.spec(methods=("Euler", "Euler", "RK45"))) for _ in range(draw(st.integers(1, 5)))]
    n = draw(st.integers(5, 45))
    return {"specs": specs, "who": [draw(st.integers(0, len(specs) - 1)) for _ in range(n)], "f": [draw(gen.frac()) for _ in range(6)], "dt": draw(gen.logf(1e-2, 2)), "rounds": draw(st.integers(1, 4)), "keep": draw(st.booleans())}


def check_crowd(case, rec):
    """each of many entities moves as it does alone"""
    mdls = [ref.RefModel(s) for s in case["specs"]]
    n = len(case["who"])

    def cmd(i, r):
        m = mdls[case["who"][i]]
        return np.array([(i + 1) / n * c for c in gen.control(m, case["f"][:m.nu])]) if (i + r) % 4 else None

    def run(group):
        es = [ref.build(case["specs"][case["who"][i]], f"e{i}") for i in group]
        out = {i: [] for i in group}
        for r in range(case["rounds"]):
            for i, e in zip(group, es):
                u = cmd(i, r)
                e.step(case["dt"], None if u is None or not len(u) else u)
            for i, e in zip(group, es):
                out[i].append(hist.observe(e, mdls[case["who"][i]]))
        return out

    together = run(range(n))
    for i in range(n):
        alone = run([i])[i]
        for r, (x, y) in enumerate(zip(alone, together[i])):
            if not same(x, y):
                fail(f"entity {i + 1} of {n} moves differently than alone (step {r + 1})", alone=x, together=y, spec=case["specs"][case["who"][i]])
    rec.nt(n > 1)
    rec.label("one kind" if len(case["specs"]) == 1 else "mixed")


@st.composite
def reuse_cases(draw):
    sp = draw(gen.spec(kinds=ref.CONTROLLABLE, methods=("RK45", "Euler"), jax=False))
    nu = len(ref.CONTROLS[sp["k"]])
    return {"spec": sp, "form": draw(st.sampled_from(["array", "f32", "list", "dict"])), "steps": [{"u": draw(gen.fracs(nu)), "dt": draw(gen.logf(1e-2, 5)), "over": draw(st.sampled_from([1.0, 1.0, 2.0]))} for _ in range(draw(st.integers(2, 5)))]}


def check_reuse(case, rec):
    """one command object, overwritten by the caller between steps, acts like a new one each time"""
    a, mdl = hist.start(case)
    b = ref.build(case["spec"], "b")
    kept = None
    varied = False
    for stp in case["steps"]:
        u = gen.control(mdl, stp["u"]) * stp["over"]
        new = hist.action(case["form"], mdl, u)
        if kept is None:
            kept = hist.action(case["form"], mdl, u)
        elif isinstance(kept, dict):
            varied = varied or kept != new
            kept.update(new)
        else:
            varied = varied or not same(np.array(kept), np.array(new))
            kept[:] = new
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a.step(stp["dt"], new)
            b.step(stp["dt"], kept)
        if not same(np.array(list(kept.values()) if isinstance(kept, dict) else kept), np.array(list(new.values()) if isinstance(new, dict) else new)):
            fail("the step changed the command object of the caller", given=kept, expected=new)
        if not same(hist.observe(a, mdl), hist.observe(b, mdl)):
            fail("a command object used again with other values acts differently from a new one", command=u, new_object=hist.observe(a, mdl), reused=hist.observe(b, mdl))
    rec.nt(varied)
    rec.label(mdl.kind, case["form"])


@st.composite
def thread_cases(draw):
    nspec = draw(st.integers(1, 3))
    specs = [draw(gen.spec(methods=("Euler", "RK45", "RK45"), jax=False)) for _ in range(nspec)]
    out = []
    for _ in range(draw(st.integers(2, 5))):
        w = draw(st.integers(0, nspec - 1))
        nu = len(ref.CONTROLS[specs[w]["k"]])
        out.append({"who": w, "steps": [{"u": draw(gen.fracs(nu)), "dt": draw(gen.logf(1e-2, 2)), "form": draw(st.sampled_from(hist.FORMS + ["none"]))} for _ in range(draw(st.integers(1, 3)))]})
    return {"specs": specs, "threads": out, "rounds": draw(st.integers(2, 12))}


def check_threads(case, rec):
    """entities stepped by concurrent threads move as they do one after the other"""
    mdls = [ref.RefModel(s) for s in case["specs"]]

    def make(i):
        return ref.build(case["specs"][case["threads"][i]["who"]], f"t{i}")

    def drive(i, e):
        th = case["threads"][i]
        mdl = mdls[th["who"]]
        out = []
        for _ in range(case["rounds"]):
            start = e.state
            for stp in th["steps"]:
                e.step(stp["dt"], act(stp["form"], mdl, gen.control(mdl, stp["u"])))
                out.append(hist.observe(e, mdl))
            e.state = start
        return out

    n = len(case["threads"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        alone = [drive(i, make(i)) for i in range(n)]
        es = [make(i) for i in range(n)]
        got, err = [None] * n, [None] * n
        gate = threading.Barrier(n)

        def work(i):
            gate.wait()
            try:
                got[i] = drive(i, es[i])
            except BaseException as ex:  # reported below, in the main thread
                err[i] = ex

        keep = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i, ), daemon=True) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(keep)
    for i in range(n):
        if err[i] is not None:
            fail(f"stepping in a thread of its own raised: {err[i]!r}", spec=case["specs"][case["threads"][i]["who"]])
        for k, (x, y) in enumerate(zip(alone[i], got[i])):
            if not same(x, y):
                fail(f"an entity moves differently when other entities are stepped at the same time (step {k + 1})", alone=x, concurrent=y, spec=case["specs"][case["threads"][i]["who"]])
    rec.nt(True)
    rec.label("one kind" if len(case["specs"]) == 1 else "mixed", f"{n} threads")


SUBS = [
    Sub("twins", cases, check, 700, 7000, "2-5 steps on twins, one disturbed (junk steps put back, rejected steps, other entities, replaced by a fresh object); non-trivial: a disturbance that could matter", shards=5),
    Sub("user_models", user_cases, check_user, 400, 4000, "user models, dynamics shared between entities; non-trivial: junk steps happened", shards=2),
    Sub("marathon", marathon_cases, check_marathon, 240, 4000, "60-500 steps cycling 1-5 commands, against new entities in the same state and the reference; non-trivial: it moves", shards=6),
    Sub("crowd", crowd_cases, check_crowd, 120, 2000, "5-45 entities of 1-5 configurations stepped in turn vs each alone; non-trivial: several", shards=2),
    Sub("threads", thread_cases, check_threads, 150, 2000, "2-5 entities each stepped in its own thread at once vs one after the other; non-trivial: all", shards=2),
    Sub("reused_command", reuse_cases, check_reuse, 400, 4000, "2-5 steps giving one array, list or dict overwritten in between vs new objects; non-trivial: its values changed", shards=2),
    Sub("jax_adaptive", adaptive_jax, check, 16, 120, "jax adaptive solver; non-trivial: as twins", shards=2),
]
