"""C33 safety verifier and extraction of single aircraft."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, expect_raises, fail, same

ASSUMPTIONS = ["roll rate and sideslip limits are upper limits in the unit of the recorded signal; values below their negative are not generated"]
KEYS = ["altitude", "Nz", "v", "alpha", "psMaxAccelDeg", "betaMaxDeg"]
COL = {"altitude": 11, "v": 0, "alpha": 1, "betaMaxDeg": 2}
NAMES = ['vt', 'alpha', 'beta', 'phi', 'theta', 'psi', 'P', 'Q', 'R', 'pos_n', 'pos_e', 'alt', 'pow']
RANGE = {"altitude": (0, 50000), "Nz": (-6, 10), "v": (100, 2500), "alpha": (-1, 2), "psMaxAccelDeg": (0.25, 500), "betaMaxDeg": (0.125, 30)}
UPPER = ("psMaxAccelDeg", "betaMaxDeg")


class Llc:
    """stands in for a low level controller with k integrators"""

    def __init__(self, k):
        self.k = k

    def get_num_integrators(self):
        return self.k


def make_llc(kind):
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    if kind == "none":
        return None, 13
    if kind == "real":
        return LowLevelController(), 16
    return Llc(int(kind)), 13 + int(kind)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 12))
    lim = {}
    for k in KEYS:
        how = draw(st.sampled_from(["set", "set", "set", "none", "absent"]))
        if how == "none":
            lim[k] = None
        elif how == "set":
            lo, hi = RANGE[k]
            a, b = sorted([draw(st.one_of(gen.fl(lo, hi), gen.fl(lo, hi), st.just(0.0))), draw(gen.fl(lo, hi))])
            lim[k] = a if k in UPPER else [a, b]
    spot = st.one_of(gen.fl(0, 1), st.sampled_from([0.0, 1.0]))
    rows = [{k: draw(spot) for k in KEYS} for _ in range(n)]
    bad = draw(st.lists(st.fixed_dictionaries({"row": st.integers(0, n - 1), "key": st.sampled_from(KEYS), "low": st.booleans(), "by": st.one_of(st.sampled_from([1e-6, 1e-3, 1.0, 1e6, None]), gen.logf(1e-5, 100))}), max_size=2))
    return {"n": n, "lim": lim, "rows": rows, "bad": bad, "llc": draw(st.sampled_from(["real", "none", "2", "5"])), "fill": draw(gen.fl(-1e6, 1e6)), "lists": draw(st.sampled_from(["list", "array", "tuple"])),
            "pair": draw(st.sampled_from(["tuple", "list", "array"])), "twice": draw(st.booleans()), "rep": draw(st.sampled_from([1] * 30 + [90, 400]))}


def run_of(case):
    """(results, any violated?) of a case"""
    llc, nv = make_llc(case["llc"])
    rep = case.get("rep", 1)  # a long run repeats the drawn instants; the last of them may leave a limit
    n, rows = case["n"] * rep, case["rows"] * rep
    states = np.full((n, nv), float(case["fill"]))
    nz, ps = [0.0] * n, [0.0] * n
    violated = []

    def put(i, k, v):
        if k == "Nz":
            nz[i] = v
        elif k == "psMaxAccelDeg":
            ps[i] = v
        else:
            states[i, COL[k]] = v

    for i, r in enumerate(rows):
        for k in KEYS:
            l = case["lim"].get(k)
            if l is None:
                put(i, k, RANGE[k][0] + r[k] * (RANGE[k][1] - RANGE[k][0]) * (-30, 1, 30)[i % 3])  # anything goes
            elif k in UPPER:
                put(i, k, l if r[k] == 1 else l * (2 * r[k] - 1))
            else:
                put(i, k, l[1] if r[k] == 1 else min(max(l[0] + r[k] * (l[1] - l[0]), l[0]), l[1]))
    for b in case["bad"]:
        l = case["lim"].get(b["key"])
        if l is None:
            continue
        if b["by"] is None:
            v = float("nan")
        elif b["key"] in UPPER:
            v = l + b["by"]
        else:
            v = l[0] - b["by"] if b["low"] else l[1] + b["by"]
        put(b["row"] + n - case["n"], b["key"], v)
        violated.append([b["row"], b["key"], v])
    mk = {"list": list, "array": np.array, "tuple": tuple}[case["lists"]]
    return {"states": states, "Nz_list": mk(nz), "ps_list": mk(ps), "status": "finished", "times": [0.1 * i for i in range(n)]}, violated


def limits(case):
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits
    mk = {"tuple": tuple, "list": list, "array": np.array}[case["pair"]]
    return SafetyLimits(**{k: v if v is None or k in UPPER else mk(v) for k, v in case["lim"].items()})


def eq(a, b):
    return all(same(a[k], b[k]) if k != "status" else a[k] == b[k] for k in a) and set(a) == set(b)


def check(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimitsVerifier
    res, violated = run_of(case)
    # a value near a limit within rounding of the placement is not a verdict to test; values on it are exact
    before = copy.deepcopy(res)
    ver = SafetyLimitsVerifier(limits(case), llc=make_llc(case["llc"])[0])
    for _ in range(2 if case["twice"] else 1):
        try:
            ver.verify(res)
            ok = True
        except AssertionError as e:
            ok, msg = False, e
        if ok and violated:
            fail("a run that violates a limit is accepted", limits=case["lim"], violated=violated, controller=case["llc"])
        if not ok and not violated:
            fail(f"a run within all limits is rejected: {msg}", limits=case["lim"], controller=case["llc"], states=res["states"], Nz=res["Nz_list"], ps=res["ps_list"])
        if not eq(before, res):
            fail("verification modified the run")
    rec.nt(any(v is not None for v in case["lim"].values()))
    rec.label("violating" if violated else "safe", f"controller {case['llc']}")
    if len(violated) == 1:
        rec.label("single violation of " + violated[0][1])


@st.composite
def one_cases(draw):
    c = draw(cases())
    c["size"] = draw(st.integers(1, 40))
    return c


def check_shape(case, rec):
    """runs whose number of values is no multiple of the state size are rejected"""
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimitsVerifier
    res, _ = run_of({**case, "bad": []})
    flat = res["states"].ravel()
    nv = make_llc(case["llc"])[1]
    k = case["size"]
    if k % nv == 0:
        k += 1
    res["states"] = np.resize(flat, (1, k)) if k > 13 else np.resize(flat, (1, k))
    expect_raises(AssertionError, lambda: SafetyLimitsVerifier(limits(case), llc=make_llc(case["llc"])[0]).verify(res), "run with a wrong number of state variables")
    rec.nt()


@st.composite
def ext_cases(draw):
    k = draw(st.one_of(st.integers(1, 4), st.integers(1, 9)))
    return {"k": k, "n": draw(st.integers(1, 6)), "llc": draw(st.sampled_from(["real", "2", "5", "0"])), "ext": draw(st.booleans()), "index": draw(st.integers(0, 8)), "seed": draw(st.integers(0, 2**30))}


def check_ext(case, rec):
    from safe_autonomy_dynamics.external.aerobench.util import extract_single_result
    llc, nv = make_llc(case["llc"])
    k, n = case["k"], case["n"]
    r = np.random.default_rng(case["seed"])
    res = {"status": "finished", "times": [float(x) for x in np.cumsum(r.random(n))], "modes": [f"m{i}" for i in range(n)], "states": r.normal(size=(n, k * nv))}
    keys = ["xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list"] if case["ext"] else []
    for key in keys:
        one = (lambda: r.normal(size=3)) if key in ("xd_list", "u_list") else (lambda: float(r.normal()))
        res[key] = [tuple(one() for _ in range(k)) for _ in range(n)]
    before = copy.deepcopy(res)
    i = case["index"] % k
    got = extract_single_result(res, i, llc)
    if k == 1:
        if case["index"] != 0:
            expect_raises(AssertionError, lambda: extract_single_result(res, case["index"], llc), "second aircraft of a run of one")
        exp = before
    else:
        exp = {**{q: before[q] for q in ("status", "times", "modes")}, "states": before["states"][:, i * nv:(i + 1) * nv], **{q: [t[i] for t in before[q]] for q in keys}}
    if set(got) != set(exp):
        fail("extracted run has other entries", got=sorted(got), expected=sorted(exp))
    for q in exp:
        a, b = got[q], exp[q]
        good = a == b if q in ("status", "modes", "times") else len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if not good:
            fail(f"entry {q!r} of aircraft {i} of {k} is not that aircraft's", got=a, expected=b)
    for q in before:
        same_ = before[q] == res[q] if q in ("status", "times", "modes") else all(same(x, y) if not isinstance(x, tuple) else all(same(p, s) for p, s in zip(x, y)) for x, y in zip(before[q], res[q]))
        if not same_:
            fail("extraction modified the run", entry=q)
    rec.nt(k > 1)
    rec.label(f"{k} aircraft", "signals" if case["ext"] else "states only")


@st.composite
def idx_cases(draw):
    return {"x": [draw(gen.fl(-100, 100)) for _ in range(13)], "name": draw(st.sampled_from(NAMES))}


def check_idx(case, rec):
    """indices, names and the model's state order agree"""
    from safe_autonomy_dynamics.external.aerobench.util import StateIndex, get_state_names
    names = get_state_names()
    if names != NAMES:
        fail("state names are not those of the model's state vector", got=names)
    names[0] = "changed"
    if get_state_names() != NAMES:
        fail("callers share the list of names")
    attr = {"vt": ["VT", "VEL"], "pos_n": ["POSN", "POS_N"], "pos_e": ["POSE", "POS_E"], "alt": ["ALT", "H"]}.get(case["name"], [case["name"].upper()])
    for a in attr:
        if case["x"][getattr(StateIndex, a)] != case["x"][NAMES.index(case["name"])] or getattr(StateIndex, a) != NAMES.index(case["name"]):
            fail("state index does not point at the state of its name", index=a, got=getattr(StateIndex, a))
    rec.nt()


SUBS = [
    Sub("verify", cases, check, 5000, 60000, "runs on or within every set limit, with up to two values moved beyond one; non-trivial: some limit is set", shards=4),
    Sub("shape", one_cases, check_shape, 200, 2000, "number of values is no multiple of the state size; all non-trivial"),
    Sub("extract", ext_cases, check_ext, 1500, 15000, "runs of one to four aircraft; non-trivial: more than one", shards=2),
    Sub("indices", idx_cases, check_idx, 60, 500, "names and indices; all non-trivial"),
]
