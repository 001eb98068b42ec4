"""C38 flying the closed-loop F-16 over time."""
import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.checks import c28, c29
from pbt.core import Sub, fail, near, same, vec

ASSUMPTIONS = ["flights whose reference trajectory amplifies a change of 1e-10 beyond 1e-7, or leaves the envelope (|alpha|, |beta| < 60 deg, |theta| < 85 deg, airspeed 100-3000 ft/s), are outside the comparison",
               "the shipped trim point is a level equilibrium of the tabulated (stevens) model to about 1e-3"]
TRIM = list(f16ref.TRIM_X) + [0.0] * 3


@st.composite
def craft(draw):
    k = draw(st.sampled_from([0.0, 1.0, 1.0, 3.0]))
    d = [10, .03, .02, .3, .05, 1, .1, .1, .1, 1000, 1000, 500, 5, .05, .05, .05]
    x = [t + k * s * draw(gen.fl(-1, 1)) for t, s in zip(TRIM, d)]
    if draw(st.integers(0, 3)) == 0:
        x[0] += draw(gen.fl(0, 500))
        x[11] = draw(gen.fl(1000, 45000, 35000))
    return {"x": x,
            "refs": [[draw(st.one_of(st.just(0.0), gen.fl(-.5, 2), gen.fl(-2, 8))), draw(st.one_of(st.just(0.0), gen.fl(-.3, .3))), draw(st.one_of(st.just(0.0), gen.fl(-.1, .1))), draw(st.one_of(st.just(0.0), gen.fl(-.1, .8)))]
                     for _ in range(draw(st.integers(1, 3)))]}


@st.composite
def cases(draw):
    return {"craft": [draw(craft()) for _ in range(draw(st.integers(1, 3)))], "model": draw(st.sampled_from(["stevens", "morelli"])), "v2": draw(st.sampled_from([False, False, True])),
            "step": draw(st.sampled_from([1 / 30, 1 / 60, 0.02, 0.01])), "n": draw(st.integers(5, 60)), "tail": draw(st.sampled_from([0.0, 0.0, 0.3, 0.7])), "share": draw(st.booleans())}


def schedule(c, t, tend):
    r = c["refs"]
    return np.array(r[min(int(t / tend * len(r)), len(r) - 1)])


def reference(case, tend, times, eps=0.0):
    """fixed-step Euler flight of all craft with the reference closed loop"""
    y = np.concatenate([c["x"] for c in case["craft"]]) + eps
    ys = [y.copy()]
    for a, b in zip(times, times[1:]):
        d = np.concatenate([f16ref.controlled(y[16 * i:16 * i + 16], schedule(c, a, tend), case["model"], case["v2"])[0] for i, c in enumerate(case["craft"])])
        y = y + (b - a) * d
        ys.append(y.copy())
        for i in range(len(case["craft"])):
            s = y[16 * i:16 * i + 16]
            if not np.all(np.isfinite(s)) or abs(s[1]) > 1.05 or abs(s[2]) > 1.05 or abs(s[4]) > 1.48 or not 100 < s[0] < 3000:
                return None
    return np.array(ys)


def check(case, rec):
    from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import Euler, extract_single_result
    h, n = case["step"], case["n"]
    tend = h * (n + case["tail"])
    k = len(case["craft"])
    times = [0.0]
    for _ in range(n):
        times.append(times[-1] + h)
    if case["tail"]:
        times.append(tend)
    else:
        times[-1] = tend
    a = reference(case, tend, times)
    b = reference(case, tend, times, 1e-10) if a is not None else None
    if b is None or np.max(np.abs(a - b) / (1 + np.abs(a))) > 1e-7:
        rec.label("outside")
        return
    ctl = [LowLevelController()] * k if case["share"] else [LowLevelController() for _ in range(k)]

    def der(t, y):
        return np.concatenate([controlled_f16(y[16 * i:16 * i + 16], schedule(c, t, tend), ctl[i], case["model"], case["v2"])[0] for i, c in enumerate(case["craft"])])

    y0 = np.concatenate([c["x"] for c in case["craft"]])
    keep = y0.copy()
    e = Euler(der, 0.0, y0, tend, step=h)
    ts, ys = [0.0], [y0.copy()]
    while e.status == "running":
        if len(ts) > len(times) + 2:
            fail("the flight does not end at its end time", tend=tend, step=h, times=ts[-3:])
        e.step()
        ts.append(float(e.t))
        ys.append(vec(e.y, 16 * k, "state of the flight"))
    if not same(y0, keep):
        fail("the flight modified its start state", before=keep, after=y0)
    if len(ts) != len(times) or not near(ts, times, 1e-9):
        fail("the flight's clock", got=np.array(ts), expected=np.array(times))
    ys = np.array(ys)
    tol = 1e-6 * (1 + np.abs(a)) + 100 * np.abs(a - b)
    if not near(ys, a, tol):
        j = int(np.nonzero(np.any(np.abs(ys - a) > tol, axis=1))[0][0])
        c = int(np.nonzero(np.abs(ys[j] - a[j]) > tol[j])[0][0])
        fail(f"the closed-loop flight leaves the reference flight at time {ts[j]} (aircraft {c // 16 + 1} of {k}, component {c % 16})", got=ys[j][c // 16 * 16:c // 16 * 16 + 16], expected=a[j][c // 16 * 16:c // 16 * 16 + 16])
    # each aircraft's share of the record
    res = {"status": "finished", "times": ts, "states": ys, "modes": [["m"] * len(ts)] * k}
    for i in range(k):
        s = extract_single_result(dict(res, modes=[tuple("m%d" % j for j in range(k)) for _ in ts]), i, ctl[i])["states"]
        if not same(np.array(s), ys[:, 16 * i:16 * i + 16]):
            fail(f"the recorded states extracted for aircraft {i + 1} of {k} are not that aircraft's")
    rec.nt(bool(np.any(np.abs(ys[-1] - ys[0]) > 1e-2)) and any(np.any(c["refs"]) for c in case["craft"]))
    rec.label(case["model"], f"{k} aircraft")


@st.composite
def hold_cases(draw):
    d = [5, .01, .01, 0, .01, 1, .05, .05, .05, 1000, 1000, 100, 2, .02, .02, .02]
    z = draw(st.booleans())
    return {"x": [t + s * draw(gen.fl(-1, 1)) * (0 if z else 1) for t, s in zip(TRIM, d)], "heading": draw(gen.fl(-3, 3)), "where": [draw(gen.fl(-1e5, 1e5)) for _ in range(2)]}


def check_hold(case, rec):
    """level flight is held: at the shipped trim point nothing moves, and small disturbances of rates and angles die out"""
    from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    ctl = LowLevelController()
    trim = np.array(TRIM)
    trim[5], trim[9:11] = case["heading"], case["where"]
    d = vec(controlled_f16(trim, np.zeros(4), ctl, "stevens")[0], 16, "derivative")
    v = trim[0]
    d[9:11] -= [v * np.cos(trim[5]), v * np.sin(trim[5])]
    if not near(d, 0, [2e-3, 1e-4, 1e-6, 1e-6, 1e-6, 1e-6, 1e-6, 1e-4, 1e-6, 1e-6, 1e-6, 1e-2, 1e-2, 1e-2, 1e-6, 1e-6]):
        fail("the shipped trim point is no level equilibrium", heading=trim[5], excess=d)
    y = np.array(case["x"], dtype=float)
    y[5], y[9:11] = case["heading"], case["where"]
    start = y.copy()
    for _ in range(480):
        y = y + (1 / 60) * vec(controlled_f16(y, np.zeros(4), ctl, "stevens")[0], 16, "derivative")
    if np.any(np.abs(y[6:9]) > 0.02) or abs(y[1] - TRIM[1]) > 0.05 or abs(y[2]) > 0.02 or abs(y[3] - start[3]) > 0.3 or abs(y[4] - TRIM[4]) > 0.2 or not 450 < y[0] < 560 or abs(y[11] - start[11]) > 300:
        fail("a small disturbance of level flight does not die out within 8 s", start=start, end=y)
    rec.nt(not same(start[:9], trim[:9]))


SUBS = [
    Sub("flights", cases, check, 440, 4000, "1-3 aircraft under reference schedules, 5-60 fixed steps, vs reference flight; non-trivial: moved under non-zero references", shards=6),
    Sub("level_flight", hold_cases, check_hold, 240, 2000, "disturbed level flight over 8 s; non-trivial: disturbed", shards=4),
]
