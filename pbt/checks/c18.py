"""C18 quantities with units."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import Sub, expect_raises, fail, near, num, same

ASSUMPTIONS = ["integrator initial values are plain numbers (their fields take no quantities)", "conversion factors are the harness's own table"]

FT = 0.3048
LEN = {"meter": 1.0, "kilometer": 1000.0, "foot": FT, "inch": 0.0254, "mile": 1609.344, "centimeter": 0.01, "nautical_mile": 1852.0, "yard": 0.9144}
TIME = {"second": 1.0, "minute": 60.0, "hour": 3600.0, "millisecond": 1e-3}
ANG = {"radian": 1.0, "degree": math.pi / 180, "turn": 2 * math.pi, "arcminute": math.pi / 10800, "milliradian": 1e-3}
VEL = {f"{a}/{b}": x / y for a, x in LEN.items() for b, y in TIME.items()}
VEL.update({"knot": 1852 / 3600, "mph": 0.44704, "kph": 1 / 3.6})
ACC = {"meter/second**2": 1.0, "foot/second**2": FT, "kilometer/hour**2": 1000 / 3600**2}
RATE = {f"{a}/{b}": x / y for a, x in ANG.items() for b, y in TIME.items()}
RATE["rpm"] = 2 * math.pi / 60
DIM = {"length": LEN, "velocity": VEL, "angle": ANG, "rate": RATE, "acceleration": ACC}
WRONG = {"length": ["second", "radian", "meter/second", "kilogram", "meter**2"], "velocity": ["meter", "second", "meter/second**2", "degree/second", "newton"],
         "angle": ["meter", "second", "radian/second", "kelvin"], "rate": ["radian", "degree", "meter/second", "second", "rad/s**2"]}
FIELDS = {
    "point": {**dict.fromkeys(["x", "y", "z"], "length"), **dict.fromkeys(["x_dot", "y_dot", "z_dot"], "velocity")},
    "rot2d": {"x": "length", "y": "length", "theta": "angle", "x_dot": "velocity", "y_dot": "velocity", "wz": "rate"},
    "sixdof": {**dict.fromkeys(["x", "y", "z"], "length"), **dict.fromkeys(["x_dot", "y_dot", "z_dot"], "velocity"), **dict.fromkeys(["wx", "wy", "wz"], "rate")},
    "sun": {"theta": "angle"},
    "dub2": {"x": "length", "y": "length", "heading": "angle", "v": "velocity"},
    "dub3": {**dict.fromkeys(["x", "y", "z"], "length"), **dict.fromkeys(["heading", "gamma", "roll"], "angle"), "v": "velocity"},
}
POS = {"x_with_units": ("x", "length"), "y_with_units": ("y", "length"), "z_with_units": ("z", "length"), "position_with_units": ("position", "length"),
       "velocity_with_units": ("velocity", "velocity")}
DOT = {f"{a}_dot_with_units": (f"{a}_dot", "velocity") for a in "xyz"}
ROT = {**{f"w{a}_with_unit": (f"w{a}", "rate") for a in "xyz"}, "angular_velocity_with_units": ("angular_velocity", "rate")}
DUB = {**{f"{a}_with_units": (a, "angle") for a in ("heading", "yaw", "gamma", "pitch", "roll")}, "v_with_units": ("v", "velocity"), "acceleration_with_units": ("acceleration", "acceleration")}
ACCESS = {"point": {**POS, **DOT}, "rot2d": {**POS, **DOT, **ROT}, "sixdof": {**POS, **DOT, **ROT}, "sun": {}, "dub2": {**POS, **DUB}, "dub3": {**POS, **DUB},
          "int1": POS, "int2": POS, "int3": POS}


def base(kind, dim):
    """size of the entity's base unit of a dimension in SI"""
    return FT if kind in ("dub2", "dub3") and dim in ("length", "velocity", "acceleration") else 1.0


BASE_TEXT = {"length": "meter", "velocity": "meter/second", "angle": "radian", "rate": "radian/second", "acceleration": "meter/second**2"}


@st.composite
def cases(draw):
    k = draw(st.sampled_from(list(FIELDS)))
    f = {}
    for nm, dim in FIELDS[k].items():
        if draw(st.booleans()) or k == "sun":
            lo = 1.0 if nm == "v" else -1000.0
            style = draw(st.sampled_from(["unit", "unit", "unit", "plain", "int", "intq"]))
            v = draw(gen.fl(lo, 1000)) if style in ("unit", "plain") else draw(st.integers(int(lo), 1000))
            if style in ("unit", "plain") and dim == "length" and draw(st.integers(0, 2)) == 0:  # far away
                v = draw(st.sampled_from([-1, 1])) * (draw(gen.logf(1e3, 8e6)) + 0.3)
            f[nm] = {"v": v, "unit": draw(st.sampled_from(sorted(DIM[dim]) + [BASE_TEXT[dim]] * 3)) if style in ("unit", "intq") else None, "how": draw(st.sampled_from(["pint", "ureg", "mul", "mag32"]))}
    nu = len(ref.CONTROLS[k])
    return {"k": k, "f": f, "u": draw(gen.fracs(nu)), "step": draw(st.booleans()), "dt": draw(gen.logf(0.01, 2.0)), "read": {d: draw(st.sampled_from(sorted(DIM[d]))) for d in DIM}}


def quantity(x):
    import pint
    if x["unit"] is None:
        return x["v"]
    if x["how"] == "pint":
        return pint.Quantity(x["v"], x["unit"])
    ureg = pint.get_application_registry()
    if x["how"] == "mul":
        return x["v"] * ureg.Unit(x["unit"])
    if x["how"] == "mag32":
        return ureg.Quantity(np.float64(x["v"]), x["unit"])
    return ureg.Quantity(x["v"], x["unit"])


def check_access(e, kind, read):
    import pint
    for name, (plain, dim) in ACCESS[kind].items():
        q = getattr(e, name)
        if not isinstance(q, pint.Quantity):
            fail(f"{name} is not a quantity", got=q)
        v = np.array(getattr(e, plain), dtype=np.float64)
        if not same(np.array(q.magnitude, dtype=np.float64), v):
            fail(f"{name} does not carry the value of {plain}", got=q, plain=v)
        want = {"length": "foot", "velocity": "foot/second", "acceleration": "foot/second**2"} if kind in ("dub2", "dub3") else {}
        unit = want.get(dim, BASE_TEXT[dim])
        if q.units != pint.Unit(unit):
            fail(f"{name} is not in the entity's base unit {unit}", got=str(q.units))
        u = read[dim]
        conv = np.array(q.to(u).magnitude, dtype=np.float64)
        exp = v * base(kind, dim) / DIM[dim][u]
        if not near(conv, exp, 1e-6 * np.max(np.abs(exp)) + 1e-300):
            fail(f"{name} converted to {u} is not the same physical quantity", got=conv, expected=exp)


def check(case, rec):
    k = case["k"]
    f = case["f"]
    given = {nm: quantity(x) for nm, x in f.items()}
    in_base = {nm: (x["v"] if x["unit"] is None else x["v"] * DIM[FIELDS[k][nm]][x["unit"]] / base(k, FIELDS[k][nm])) for nm, x in f.items()}
    a = ref.build({"k": k, "init": given})
    b = ref.build({"k": k, "init": in_base})
    mdl = ref.RefModel({"k": k, "init": in_base})
    sa, sb = hist.state_of(a, mdl), hist.state_of(b, mdl)
    tol = 1.3e-7 * np.abs(mdl.s0)  # a rounding to single precision apart, and none at all without a conversion
    for nm, x in f.items():
        if nm in mdl.names and (x["unit"] is None or x["unit"] == BASE_TEXT[FIELDS[k][nm]] and base(k, FIELDS[k][nm]) == 1.0):
            tol[mdl.names.index(nm)] = 0
    if not near(sa, mdl.s0, tol) or not near(sb, mdl.s0, 0):
        fail("a quantity and its value in base units build different entities", given={n: str(v) for n, v in given.items()}, in_base=in_base, from_quantities=sa, from_numbers=sb)
    check_access(a, k, case["read"])
    wild = (k == "dub3" and (abs(np.cos(sa[5])) < 0.3 or sa[6] < 10)) or (k in ("sixdof", "rot2d") and np.max(np.abs(sa[-3:] if k == "sixdof" else sa[-1:])) > 2)
    if case["step"] and not wild:  # (steep manoeuvres and spins would make the solver crawl)
        a.step(case["dt"], gen.control(mdl, case["u"]) if mdl.nu else None)
        check_access(a, k, case["read"])
    rec.nt(any(x["unit"] is not None and x["v"] for x in f.values()))
    rec.label(k, *{FIELDS[k][n] for n, x in f.items() if x["unit"]})


@st.composite
def int_cases(draw):
    c = draw(gen.entity_case(kinds=["int1", "int2", "int3"], max_steps=2, dts=gen.logf(0.01, 3)))
    c["read"] = {d: draw(st.sampled_from(sorted(DIM[d]))) for d in DIM}
    return c


def check_int(case, rec):
    e, mdl = hist.start(case)
    check_access(e, mdl.kind, case["read"])
    for s, u, dt, got, i in hist.steps(case, e, mdl):
        check_access(e, mdl.kind, case["read"])
        rec.nt(not same(s, got))
    rec.label(mdl.kind)


@st.composite
def wrong_cases(draw):
    k = draw(st.sampled_from(list(FIELDS)))
    nm = draw(st.sampled_from(sorted(FIELDS[k])))
    good = {n: draw(gen.fl(1, 100)) for n in FIELDS[k] if n != nm and draw(st.booleans())}
    return {"k": k, "name": nm, "unit": draw(st.sampled_from(WRONG[FIELDS[k][nm]])), "v": draw(st.sampled_from([0.0, 0, 1, 1.5, -3.0, 200.0])), "good": good, "how": draw(st.sampled_from(["pint", "ureg"]))}


def check_wrong(case, rec):
    init = dict(case["good"])
    init[case["name"]] = quantity({"v": case["v"], "unit": case["unit"], "how": case["how"]})
    expect_raises(ValueError, lambda: ref.build({"k": case["k"], "init": init}), f"{case['k']} with {case['name']}={case['v']} {case['unit']}")
    rec.nt()
    rec.label(case["k"], FIELDS[case["k"]][case["name"]])


@st.composite
def fn_cases(draw):
    dim = draw(st.sampled_from(["length", "velocity", "angle", "rate", "acceleration"]))
    us = sorted(DIM[dim])
    odim = draw(st.sampled_from(["length", "velocity", "acceleration"]))
    return {"dim": dim, "to": draw(st.sampled_from(us)), "fro": draw(st.sampled_from(us)), "v": draw(gen.fl(-1e4, 1e4)), "unitobj": draw(st.booleans()),
            "wrong": draw(st.sampled_from(sorted(DIM[odim]))) if odim != dim else None,
            "L": draw(st.sampled_from(sorted(LEN))), "T": draw(st.sampled_from(sorted(TIME))), "A": draw(st.sampled_from(sorted(ANG)))}


def check_fn(case, rec):
    import pint
    from safe_autonomy_dynamics.base_models import BaseUnits, build_unit_conversion_validator_fn
    d = DIM[case["dim"]]
    fn = build_unit_conversion_validator_fn(pint.Unit(case["to"]) if case["unitobj"] else case["to"])
    exp = case["v"] * d[case["fro"]] / d[case["to"]]
    got = fn(pint.Quantity(case["v"], case["fro"]))
    if not isinstance(got, float) or not near(got, exp, 1e-6 * abs(exp)):
        fail("unit conversion is wrong", value=case["v"], unit=case["fro"], to=case["to"], got=got, expected=exp)
    if fn(case["v"]) != case["v"] or fn(7) != 7.0:
        fail("a plain number is not taken as it is", value=case["v"], got=fn(case["v"]))
    if case["wrong"]:
        expect_raises(ValueError, lambda: fn(pint.Quantity(case["v"], case["wrong"])), f"converting {case['wrong']} to {case['to']}")
    u = BaseUnits(case["L"], case["T"], case["A"])
    L, T, A = LEN[case["L"]], TIME[case["T"]], ANG[case["A"]]
    for name, size, si in (("length", L, "meter"), ("time", T, "second"), ("angle", A, "radian"), ("velocity", L / T, "meter/second"), ("angular_velocity", A / T, "radian/second"),
                           ("acceleration", L / T**2, "meter/second**2"), ("angular_acceleration", A / T**2, "radian/second**2")):
        got = num(pint.Quantity(1.0, getattr(u, name)).to(si).magnitude, name)
        if not near(got, size, 1e-9 * size):
            fail(f"derived base unit {name} is wrong", units=(case["L"], case["T"], case["A"]), got=got, expected=size)
    rec.nt(case["to"] != case["fro"])
    rec.label(case["dim"])


SUBS = [
    Sub("quantities", cases, check, 3200, 16000, "entity from quantities in random compatible units vs plain numbers, all unit accessors; non-trivial: some non-zero quantity given", shards=4),
    Sub("integrators", int_cases, check_int, 400, 2000, "integrator unit accessors; non-trivial: it moved"),
    Sub("wrong_dimension", wrong_cases, check_wrong, 1200, 6000, "one field with a quantity of another dimension; all non-trivial"),
    Sub("conversion", fn_cases, check_fn, 1600, 8000, "conversion function and derived base units; non-trivial: units differ", shards=2),
]
