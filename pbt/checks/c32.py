"""C32 fixed-step Euler integrator."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, expect_raises, fail, near, num, same, vec

ASSUMPTIONS = ["start vectors are float arrays", "times stay below 1000, so that the time tolerance exceeds rounding of the clock"]


def rhs(case):
    """right-hand side of the case, harness side"""
    A, c, w, kind = np.array(case["A"], dtype=float), np.array(case["c"], dtype=float), case["w"], case["kind"]
    if kind == "identity":
        return lambda t, y: 1.0 * y
    if kind == "zero":
        return lambda t, y: 0.0 * y
    if kind == "time":
        return lambda t, y: c * math.cos(w * t)
    if kind == "linear":
        return lambda t, y: A @ y + c * math.sin(w * t)
    return lambda t, y: A @ np.tanh(y) + c * t


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    steps = draw(st.integers(0, 12))
    f = draw(st.one_of(st.sampled_from([0.0, 0.0, 0.5, 1e-10, -1e-10, 1e-8, -1e-8, 0.999, 1e-3]), st.integers(1, 999).map(lambda k: k / 1000)))
    if steps == 0:
        f = abs(f) or 0.5
        if f < 1e-7:
            f = 0.25
    v = lambda r: draw(gen.fl(-r, r))  # noqa: E731
    return {"n": n, "y": [v(10) for _ in range(n)], "t0": draw(st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0]), gen.fl(-100, 100))), "step": draw(st.one_of(st.sampled_from([0.1, 1 / 30, 0.25, 1.0, 0.01, 1 / 3]), gen.logf(1e-3, 5))),
            "steps": steps, "f": f, "abs": draw(st.booleans()), "tol": draw(st.sampled_from([None, None, 1e-9, 1e-6, 1e-3, 0.0])), "A": [[v(.5) for _ in range(n)] for _ in range(n)], "c": [v(2) for _ in range(n)], "w": v(3),
            "kind": draw(st.sampled_from(["linear", "linear", "tanh", "time", "identity", "zero"])), "own": draw(st.booleans()), "extra": draw(st.integers(0, 3)), "q": [draw(gen.fl(-.5, 1.5)) for _ in range(3)], "sub": draw(st.booleans()),
            "int_t": draw(st.booleans()), "edit": draw(st.sampled_from([None, None, None, "write", "assign"])), "at": draw(st.integers(1, 4))}


def plan(case):
    """reference clock: list of times; None when a decision is within rounding"""
    t0, h, tol = case["t0"], case["step"], 1e-9 if case["tol"] is None else case["tol"]
    if case["int_t"]:
        t0 = float(round(t0))
    # f is a fraction of a step, or (tiny values) an absolute overhang
    over = case["f"] if abs(case["f"]) < 1e-6 and case["abs"] else case["f"] * h
    tend = t0 + h * case["steps"] + over
    if tend <= t0 or h * case["steps"] + over < 1e-7:
        return None
    ts, t = [t0], t0
    while t != tend:
        nxt = t + h
        gap = tend - nxt - tol
        if abs(gap) < 1e-11 and tol > 0:
            return None
        t = tend if nxt + tol >= tend else nxt
        ts.append(t)
        if len(ts) > 60:
            raise RuntimeError("runaway plan")
    return t0, tend, ts


def check(case, rec):
    from pbt.core import Skip
    from safe_autonomy_dynamics.external.aerobench.util import Euler
    p = plan(case)
    if p is None:
        raise Skip()
    t0, tend, ts = p
    f = rhs(case)
    seen = []

    def der(t, y):
        seen.append((t, np.array(y, dtype=float)))
        if case["kind"] == "identity" and case["own"]:
            return y  # the very array that was handed in
        return f(t, y)

    y0 = np.array(case["y"], dtype=float)
    kw = {"step": case["step"]}
    if case["tol"] is not None:
        kw["time_tol"] = case["tol"]
    start = int(t0) if case["int_t"] else t0
    ig = Euler(der, start, y0, tend, **kw)
    if ig.status != "running" or ig.t != t0 or not same(ig.y, case["y"]):
        fail("not at the start before the first step", t=ig.t, y=ig.y, status=ig.status)
    expect_raises(AssertionError, ig.dense_output, "dense output before the first step")
    y = y0.copy()
    dense = []
    tt = 1e-11
    for k in range(1, len(ts)):
        if ig.status != "running":
            fail(f"finished after {k-1} steps instead of {len(ts)-1}", t=ig.t, end=tend)
        dt = ts[k] - ts[k - 1]
        yn = y + dt * f(ts[k - 1], y)
        ig.step()
        last = k == len(ts) - 1
        if (num(ig.t, "time") != tend) if last else not near(ig.t, ts[k], tt):
            fail(f"time after step {k} of {len(ts)-1}", got=ig.t, expected=ts[k], end=tend)
        if (ig.status == "finished") != last:
            fail(f"status after step {k} of {len(ts)-1} is {ig.status!r}", t=ig.t, end=tend)
        sc = 1e-9 * (1 + np.max(np.abs(y)) + np.max(np.abs(yn)))
        if not near(vec(ig.y, case["n"], "y"), yn, sc):
            fail(f"step {k} is not an explicit Euler step of the time advanced", t=ts[k - 1], dt=dt, y_before=y, got=ig.y, expected=yn)
        if len(seen) != k or not near(seen[-1][0], ts[k - 1], tt) or not near(seen[-1][1], y, sc):
            fail("the right-hand side is not evaluated once, at the start of the step", step=k, calls=len(seen), at=seen[-1] if seen else None)
        fun = ig.dense_output()
        dense.append((fun, ts[k - 1], y, ts[k], yn))
        y = yn
        if case.get("edit") and k == case["at"]:  # the caller corrects the state between two steps
            y = np.round(yn, 1) + 0.5
            if case["edit"] == "write":
                ig.y[...] = y
            else:
                ig.y = y.copy()
        # every function handed out so far describes its own step
        for fn, ta, ya, tb, yb in (dense if case["sub"] else dense[-1:]):
            for q in [0.0, 1.0] + case["q"]:
                t = ta + q * (tb - ta)
                e = ya + q * (yb - ya)
                # the clock's rounding, over the slope of this step
                sl = np.max(np.abs(yb - ya)) / (tb - ta) * 4e-13 if tb > ta else 0
                if not near(vec(fn(t), case["n"], "dense output"), e, 2e-9 * (1 + np.max(np.abs(ya)) + np.max(np.abs(yb))) + sl):
                    fail("dense output is not the line through the step's end points", time=t, step=[ta, tb], got=fn(t), expected=e, steps_taken=k)
    yf, calls = np.array(ig.y), len(seen)
    for _ in range(case["extra"]):
        ig.step()
        if ig.t != tend or not same(ig.y, yf) or ig.status != "finished" or len(seen) != calls:
            fail("a step after the end changes something", t=ig.t, y=ig.y, y_at_end=yf, status=ig.status)
    if case["extra"] and dense and not (case.get("edit") and case["at"] == len(ts) - 1):
        fn, ta, ya, tb, yb = dense[-1]
        g = ig.dense_output()
        if not near(g(tb), yb, 1e-8 * (1 + np.max(np.abs(ya)) + np.max(np.abs(yb)))) or not near(g(ta), ya, 1e-8 * (1 + np.max(np.abs(ya)) + np.max(np.abs(yb)))):
            fail("dense output after the end is not about the last step", got=[g(ta), g(tb)], expected=[ya, yb])
    if not same(y0, case["y"]):
        fail("the caller's start vector was modified", before=case["y"], after=y0)
    rec.nt(len(ts) > 2 and case["kind"] != "zero")
    rec.label("divides" if case["f"] == 0 else "tiny overhang" if abs(case["f"]) < 1e-6 else "shortened last step", case["kind"], f"extra={case['extra'] > 0}")


@st.composite
def bad_cases(draw):
    return {"t0": draw(gen.fl(-10, 10)), "dt": draw(st.one_of(st.just(0.0), gen.fl(-10, 0))), "step": draw(st.one_of(st.just(0.0), st.just(None), gen.fl(-10, 0))), "which": draw(st.sampled_from(["span", "step"])), "good": draw(gen.logf(.01, 2))}


def check_bad(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import Euler
    f = lambda t, y: y  # noqa: E731
    if case["which"] == "span":
        expect_raises(AssertionError, lambda: Euler(f, case["t0"], np.ones(2), case["t0"] + case["dt"], step=case["good"]), "end not after start")
    elif case["step"] is None:
        expect_raises(AssertionError, lambda: Euler(f, case["t0"], np.ones(2), case["t0"] + case["good"]), "no step size")
    else:
        expect_raises(AssertionError, lambda: Euler(f, case["t0"], np.ones(2), case["t0"] + case["good"], step=case["step"]), "step size not positive")
    rec.nt()
    rec.label(case["which"])


NAME = st.from_regex(r"[a-z][a-zA-Z_0-9]{0,12}", fullmatch=True)


@st.composite
def frz_cases(draw):
    return {"what": draw(st.sampled_from(["own", "euler", "limits", "ctrl", "llc"])), "have": draw(st.lists(NAME, min_size=1, max_size=4, unique=True)), "new": draw(NAME), "vals": [draw(gen.fl(-5, 5)) for _ in range(5)],
            "late": draw(st.booleans())}


def check_frz(case, rec):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import CtrlLimits, LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import Euler, Freezable, SafetyLimits
    w = case["what"]
    if w == "own":
        class Thing(Freezable):
            def __init__(self, names):
                for n_, v in zip(names, case["vals"]):
                    setattr(self, n_, v)
                if not case["late"]:
                    self.freeze_attrs()
        ob, have = Thing(case["have"]), case["have"]
        other = Thing([])
        if case["late"]:
            ob.freeze_attrs()
            other.before = 1.0  # an open object of the same class stays open
            if other.before != 1.0:
                fail("attribute of an open object is lost")
        plain = Freezable()
        plain.anything = 2
        if plain.anything != 2:
            fail("attribute of an open object is lost")
    else:
        ob = {"euler": lambda: Euler(lambda t, y: y, 0.0, np.ones(1), 1.0, step=.1), "limits": lambda: SafetyLimits(v=(1, 2)), "ctrl": CtrlLimits, "llc": LowLevelController}[w]()
        have = {"euler": ["t", "tend", "tprev"], "limits": ["altitude", "v", "alpha"], "ctrl": ["NzMax", "ElevatorMaxDeg", "ThrottleMin"], "llc": ["xequil", "uequil"]}[w]
    if hasattr(ob, case["new"]) or case["new"] in ("freeze_attrs", "_frozen"):
        from pbt.core import Skip
        raise Skip()
    expect_raises(TypeError, lambda: setattr(ob, case["new"], 1.0), f"new attribute {case['new']!r} of a closed {type(ob).__name__}")
    if hasattr(ob, case["new"]):
        fail("the rejected attribute exists", name=case["new"])
    for n_, v in zip(have, case["vals"][::-1]):
        setattr(ob, n_, v)
        if getattr(ob, n_) != v:
            fail("an existing attribute of a closed object cannot be changed", name=n_, value=v, got=getattr(ob, n_))
    expect_raises(TypeError, lambda: setattr(ob, case["new"], 1.0), "new attribute of a closed object after other changes")
    rec.nt()
    rec.label(w)


SUBS = [
    Sub("integration", cases, check, 6000, 80000, "right-hand side, span and step size drawn, compared step by step with explicit Euler on the same clock; non-trivial: at least two steps with motion", shards=4),
    Sub("rejected", bad_cases, check_bad, 200, 1000, "empty spans and non-positive step sizes; all non-trivial"),
    Sub("closed", frz_cases, check_frz, 600, 5000, "new and existing attributes on closed objects; all non-trivial"),
]
