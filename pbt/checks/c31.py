"""C31 F-16 trim constraints and cost."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import f16ref, gen
from pbt.checks import c28
from pbt.core import Sub, fail, near, num, same, vec

ASSUMPTIONS = ["conditions are numbered 1 level, 2 climb, 3 coordinated turn, 4 pull-up"]
CONST = ["radgam", "singam", "rr", "pr", "tr", "phi", "cphi", "sphi", "thetadot", "coord", "stab", "orient"]


@st.composite
def consts(draw):
    gam = draw(gen.fl(-1.2, 1.2))
    phi = draw(st.one_of(st.just(0.0), gen.fl(-1.4, 1.4)))
    rate = st.one_of(st.just(0.0), gen.fl(-0.5, 0.5))
    # unused entries get values that must not matter
    return [gam, math.sin(gam), draw(rate), draw(rate), draw(rate), phi, math.cos(phi), math.sin(phi), draw(rate), draw(st.sampled_from([0.0, 1.0])), draw(st.sampled_from([0.0, 1.0])),
            draw(st.integers(1, 4))]


NEAR = [502.0, 0.0389, 0.0, 0.0, 0.0389, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1000.0, 9.0567]


@st.composite
def near_trim(draw):
    k = draw(st.sampled_from([0.0, 1e-4, 1e-3, 1e-2]))
    return [v + k * draw(gen.fl(-1, 1)) for v in NEAR]


@st.composite
def con_cases(draw):
    return {"x": draw(st.one_of(c28.state(), near_trim())), "u": draw(c28.controls()), "c": draw(consts()), "hold": draw(st.sampled_from([h for h in c28.HOLD if h != "readonly"]))}


def check_con(case, rec):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.conf16 import conf16
    x, u, c = c28.hold(case["x"], case["hold"]), c28.hold(case["u"], case["hold"]), list(case["c"])
    exp = f16ref.constrain(x, u, c)
    gx, gu = conf16(x, u, c)
    gx, gu = vec(gx, 13, "state"), vec(gu, 4, "control")
    if not near(gx, exp, 1e-12 * (1 + np.abs(exp))):
        bad = [n for n, g, e in zip(c28.NAMES, gx, exp) if not abs(g - e) <= 1e-12 * (1 + abs(e))]
        fail(f"constraints set {bad} wrongly", condition=c[-1], constants=dict(zip(CONST, c)), state=case["x"], got=gx, expected=exp)
    if not same(gu, case["u"]) or c != case["c"]:
        fail("constraints changed controls or constants", controls=gu, constants=c)
    if not near(x, exp, 1e-12 * (1 + np.abs(exp))):
        fail("the caller's state is not updated in place", got=x, expected=exp)
    rec.nt(not same(exp, case["x"]))
    rec.label(f"condition {c[-1]}")


@st.composite
def cost_cases(draw):
    near_ = draw(st.booleans())
    x, u, c = draw(near_trim() if near_ else c28.state()), draw(c28.controls()), draw(consts())
    if near_:  # a condition that is (almost) met
        k = draw(st.sampled_from([0.0, 1e-5, 1e-3, 1e-2]))
        s3 = [f16ref.TRIM_U[0] + k * draw(gen.fl(-1, 1)), f16ref.TRIM_U[1] + k * draw(gen.fl(-1, 1)), NEAR[1] + k * draw(gen.fl(-1, 1))]
        u = [0.1, -1.0, 0.0, 0.0]
        c = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, draw(st.integers(1, 4))]
        s = s3 if draw(st.booleans()) else s3[:2] + [0.0, 0.0] + [s3[2], 0.0, s3[2]]
    else:
        v = draw(c28.controls())
        s = [v[0], v[1], draw(gen.fl(-.15, .7))] if draw(st.booleans()) else v + [draw(gen.fl(-.15, .7)), draw(gen.fl(-1.5, 1.5)), draw(gen.fl(-1.4, 1.4))]
    return {"x": x, "u": u, "c": c, "s": s, "model": draw(st.sampled_from([None, "stevens", "morelli"])), "form": draw(st.sampled_from(["array", "list", "tuple"])), "adj": draw(st.booleans()), "near": near_}


def check_cost(case, rec):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 import clf16
    x, u, c, s = np.array(case["x"], dtype=float), np.array(case["u"], dtype=float), list(case["c"]), case["s"]
    sv = {"array": np.array(s), "list": list(s), "tuple": tuple(s)}[case["form"]]
    ex, eu = x.copy(), u.copy()
    if len(s) == 3:
        eu[:2], ex[1] = s[:2], s[2]
    else:
        eu[:], ex[1], ex[3], ex[4] = s[:4], s[4], s[5], s[6]
    ex = f16ref.constrain(ex, eu, c)
    if abs(math.cos(ex[4])) < 0.05:
        from pbt.core import Skip
        raise Skip()
    model = case["model"] or "stevens"
    exd = f16ref.subf16(ex, eu, model)[0]
    exp = f16ref.cost(ex, exd, c)
    got = num(clf16(sv, x, u, c) if case["model"] is None else clf16(sv, x, u, c, model, case["adj"]), "cost")
    # rounding in the residuals, amplified by weights and squares (and by the root below one)
    w = f16ref.WEIGHTS[c[-1]]
    rs = f16ref.residuals(ex, exd, c)
    floor = sum(w[i] * (2 * abs(v) + 1e-9) * 1e-9 * (1 + abs(exd[i])) for i, v in rs.items())
    tol = 1e-8 * exp + floor + (math.sqrt(floor) if exp < 1 else 0)
    if abs(exp - 1) < 1e-6:
        tol += 1e-5
    if not near(got, exp, tol) or got < 0:
        fail("trim cost is not the weighted sum of squared residuals of its condition", condition=c[-1], constants=dict(zip(CONST, c)), decision=s, state=case["x"], model=model, got=got, expected=exp,
             residuals=rs)
    if got < 1e-12 and any(abs(v) > 1e-6 for v in rs.values()):
        fail("the cost vanishes although a penalised residual does not", residuals=rs, got=got)
    if not near(x, ex, 1e-12 * (1 + np.abs(ex))) or not near(u, eu, 0):
        fail("decision variables are not placed into the states and controls they stand for", condition=c[-1], decision=s, got_state=x, expected_state=ex, got_control=u, expected_control=eu)
    if not same(sv, s) or c != case["c"]:
        fail("the decision vector or the constants were modified", decision=sv, constants=c)
    again = num(clf16(s, np.array(case["x"], dtype=float), np.array(case["u"], dtype=float), c, model), "cost")
    if not near(again, got, 1e-12 * (1 + got)):
        fail("the cost of the same inputs differs", first=got, second=again)
    rec.nt(exp > 1e-6)
    rec.label(f"condition {c[-1]}", model, f"{len(s)} variables", "below one" if exp < 1 else "above one")


SUBS = [
    Sub("constraints", con_cases, check_con, 3000, 30000, "all four conditions on random states; non-trivial: some state is changed", shards=2),
    Sub("cost", cost_cases, check_cost, 3500, 40000, "cost of random and nearly trimmed flight for both decision lengths and models; non-trivial: positive cost", shards=4),
]
