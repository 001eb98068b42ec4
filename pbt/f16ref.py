"""Independent F-16 reference: tables, engine, Morelli polynomials, vector-form flight equations, controller, trim.

Tables are the harness's own copy (f16tables.json); formulas follow Stevens & Lewis and Morelli, written in vector / monomial
form rather than in the library's scalar form.
"""
import json
import math
import os

import numpy as np

with open(os.path.join(os.path.dirname(__file__), "f16tables.json"), encoding="utf-8") as f:
    TABLE = {k: np.array(v) for k, v in json.load(f).items()}

ALPHA = [-10.0 + 5 * i for i in range(12)]
EL = [-24.0, -12.0, 0.0, 12.0, 24.0]
BETA = [-30.0 + 10 * i for i in range(7)]
ABSBETA = [5.0 * i for i in range(7)]
ALT = [1e4 * i for i in range(6)]
MACH = [0.2 * i for i in range(6)]
G = 32.17
RTOD = 57.29578


def cell(knots, x):
    """index of the cell and position in it; outermost cells continue beyond the table."""
    i = int(np.clip(np.searchsorted(knots, x, side="right") - 1, 0, len(knots) - 2))
    return i, (x - knots[i]) / (knots[i + 1] - knots[i])


def lin(knots, vals, x):
    i, t = cell(knots, x)
    return vals[i] * (1 - t) + vals[i + 1] * t


def bilin(rows, cols, tab, r, c):
    """tab[row][col]"""
    i, t = cell(rows, r)
    return lin(cols, tab[i], c) * (1 - t) + lin(cols, tab[i + 1], c) * t


def sgn(x):
    return int(x > 0) - int(x < 0)


def cx(a, el):
    return bilin(EL, ALPHA, TABLE["cx"], el, a)


def cm(a, el):
    return bilin(EL, ALPHA, TABLE["cm"], el, a)


def cy(b, ail, rdr):
    return -.02 * b + .021 * ail / 20 + .086 * rdr / 30


def cz(a, b, el):
    return lin(ALPHA, TABLE["cz"], a) * (1 - (b / 57.3)**2) - .19 * el / 25


def cl(a, b):
    return sgn(b) * bilin(ABSBETA, ALPHA, TABLE["cl"], abs(b), a)


def cn(a, b):
    return sgn(b) * bilin(ABSBETA, ALPHA, TABLE["cn"], abs(b), a)


def _ctl(name):
    return lambda a, b: bilin(BETA, ALPHA, TABLE[name], b, a)


dlda, dldr, dnda, dndr = _ctl("dlda"), _ctl("dldr"), _ctl("dnda"), _ctl("dndr")


def dampp(a):
    return np.array([lin(ALPHA, row, a) for row in TABLE["dampp"]])


def adc(vt, alt):
    tf = 1 - .703e-5 * alt
    temp = 390.0 if alt >= 35000 else 519 * tf
    return vt / math.sqrt(1.4 * 1716.3 * temp), .5 * 2.377e-3 * tf**4.14 * vt**2


def tgear(th):
    return 64.94 * th if th <= .77 else 217.38 * th - 117.38


def rtau(dp):
    return float(np.interp(dp, [25, 50], [1.0, 0.1]))


def pdot(power, command):
    if command >= 50:
        target = command if power >= 50 else 60
    else:
        target = 40 if power >= 50 else command
    rate = 5 if power >= 50 else rtau(target - power)
    return rate * (target - power)


def thrust(power, alt, mach):
    h, m = 0.01 if alt < 0 else alt, max(mach, 0.0)
    idle, mil, mx = (bilin(MACH, ALT, TABLE["thrust_" + k], m, h) for k in "abc")
    return idle + (mil - idle) * power / 50 if power < 50 else mil + (mx - mil) * (power - 50) / 50


# Morelli: coefficient -> [(value, {variable: power})]





M = {
    # alpha powers
    "cx0": [(-.01943367, (0, 0, 0)), (.2136104, (1, 0, 0)), (-.2903457, (0, 0, 2)), (-.003348641, (0, 0, 1)), (-.2060504, (1, 0, 1)), (.6988016, (2, 0, 0)), (-.9035381, (3, 0, 0))],
    "cz_a": [(-.1378278, (0, 0, 0)), (-4.211369, (1, 0, 0)), (4.775187, (2, 0, 0)), (-10.26225, (3, 0, 0)), (8.399763, (4, 0, 0))],
    "cl0": [(-.105853, (0, 1, 0)), (-.5776677, (1, 1, 0)), (-.01672435, (2, 1, 0)), (.1357256, (0, 2, 0)), (.2172952, (1, 2, 0)), (3.464156, (3, 1, 0)), (-2.835451, (4, 1, 0)),
            (-1.098104, (2, 2, 0))],
    "clda": [(-.1463144, (0, 0, 0)), (-.0407391, (1, 0, 0)), (.03253159, (0, 1, 0)), (.4851209, (2, 0, 0)), (.297885, (1, 1, 0)), (-.3746393, (2, 1, 0)), (-.3213068, (3, 0, 0))],
    "cldr": [(.02635729, (0, 0, 0)), (-.0219291, (1, 0, 0)), (-.003152901, (0, 1, 0)), (-.05817803, (1, 1, 0)), (.4516159, (2, 1, 0)), (-.4928702, (3, 1, 0)), (-.01579864, (0, 2, 0))],
    "cm0": [(-.0202937, (0, 0, 0)), (.04660702, (1, 0, 0)), (-.6012308, (0, 0, 1)), (-.08062977, (1, 0, 1)), (.08320429, (0, 0, 2)), (.5018538, (2, 0, 1)), (.6378864, (0, 0, 3)),
            (.4226356, (1, 0, 2))],
    "cn0": [(.2993363, (0, 1, 0)), (.06594004, (1, 1, 0)), (-.2003125, (0, 2, 0)), (-.06233977, (1, 2, 0)), (-2.107885, (2, 1, 0)), (2.14142, (2, 2, 0)), (.8476901, (3, 1, 0))],
    "cnda": [(-.03348717, (0, 0, 0)), (.04276655, (1, 0, 0)), (.006573646, (0, 1, 0)), (.3535831, (1, 1, 0)), (-1.373308, (2, 1, 0)), (1.237582, (3, 1, 0)), (.2302543, (2, 0, 0)),
             (-.2512876, (3, 0, 0)), (.1588105, (0, 3, 0)), (-.5199526, (1, 3, 0))],
    "cndr": [(-.08115894, (0, 0, 0)), (-.0115658, (1, 0, 0)), (.02514167, (0, 1, 0)), (.2038748, (1, 1, 0)), (-.3337476, (2, 1, 0)), (.1004297, (2, 0, 0))],
}
P = {  # plain polynomials in alpha
    "cxq": [.4833383, 8.644627, 11.31098, -74.22961, 60.75776], "cyp": [-.1006733, .8679799, 4.260586, -6.923267], "cyr": [.8071648, .1189633, 4.177702, -9.162236],
    "czq": [-30.54956, -41.32305, 329.2788, -684.8038, 408.0244], "clp": [-.4126806, -.1189974, 1.247721, -.7391132], "clr": [.06250437, .6067723, -1.101964, 9.100087, -11.92672],
    "cmq": [-5.19153, -3.554716, -35.98636, 224.7355, -412.0991, 241.175], "cnp": [.02677652, -.3298246, .1926178, 4.013325, -4.404302], "cnr": [-.3698756, -.1167551, -.7641297],
}
CLAMP = {"alpha": (-10, 45), "beta": (-30, 30), "de": (-25, 25), "da": (-21.5, 21.5), "dr": (-30, 30)}


def morelli(alpha, beta, de, da, dr, p, q, r, cbar, b, V, xcg, xcgref):
    lim = lambda v, k: min(max(v, math.radians(CLAMP[k][0])), math.radians(CLAMP[k][1]))  # noqa: E731
    a, be, e, ai, ru = lim(alpha, "alpha"), lim(beta, "beta"), lim(de, "de"), lim(da, "da"), lim(dr, "dr")
    mono = lambda k: math.fsum(c * a**i * be**j * e**l for c, (i, j, l) in M[k])  # noqa: E731
    poly = lambda k: math.fsum(c * a**i for i, c in enumerate(P[k]))  # noqa: E731
    ph, qh, rh = p * b / (2 * V), q * cbar / (2 * V), r * b / (2 * V)
    X = mono("cx0") + poly("cxq") * qh
    Y = -1.145916 * be + .06016057 * ai + .1642479 * ru + poly("cyp") * ph + poly("cyr") * rh
    Z = mono("cz_a") * (1 - be**2) - .4354 * e + poly("czq") * qh
    L = mono("cl0") + poly("clp") * ph + poly("clr") * rh + mono("clda") * ai + mono("cldr") * ru
    Mm = mono("cm0") + poly("cmq") * qh + Z * (xcgref - xcg)
    N = mono("cn0") + poly("cnp") * ph + poly("cnr") * rh + mono("cnda") * ai + mono("cndr") * ru - Y * (xcgref - xcg) * cbar / b
    return np.array([X, Y, Z, L, Mm, N])


S, B, CBAR, RM, XCG, HE = 300.0, 30.0, 11.32, 1.57e-3, 0.35, 160.0


def coefficients(x, u, model):
    """(X, Y, Z, L, M, N) including damping"""
    vt, p, q, r = x[0], x[6], x[7], x[8]
    a, b = x[1] * RTOD, x[2] * RTOD
    _, el, ail, rdr = u
    if model == "stevens":
        c = np.array([
            cx(a, el), cy(b, ail, rdr), cz(a, b, el),
            cl(a, b) + dlda(a, b) * ail / 20 + dldr(a, b) * rdr / 30,
            cm(a, el),
            cn(a, b) + dnda(a, b) * ail / 20 + dndr(a, b) * rdr / 30
        ])
    else:
        d2r = math.pi / 180
        c = morelli(a * d2r, b * d2r, el * d2r, ail * d2r, rdr * d2r, p, q, r, CBAR, B, vt, XCG, XCG)
    d = dampp(a)
    ph, qh, rh = p * B / (2 * vt), q * CBAR / (2 * vt), r * B / (2 * vt)
    return c + np.array([d[0] * qh, d[1] * rh + d[2] * ph, d[3] * qh, d[4] * rh + d[5] * ph, d[6] * qh, d[7] * rh + d[8] * ph])


def body_to_earth(phi, theta, psi):
    """rotation taking body (x forward, y right, z down) vectors to north-east-down"""
    c, s = math.cos, math.sin
    R3 = np.array([[c(psi), -s(psi), 0], [s(psi), c(psi), 0], [0, 0, 1]])
    R2 = np.array([[c(theta), 0, s(theta)], [0, 1, 0], [-s(theta), 0, c(theta)]])
    R1 = np.array([[1, 0, 0], [0, c(phi), -s(phi)], [0, s(phi), c(phi)]])
    return R3 @ R2 @ R1


def subf16(x, u, model, adjust_cy=True):
    """(xd, Nz, Ny, az, ay) by vector equations"""
    x, u = np.asarray(x, dtype=float), np.asarray(u, dtype=float)
    vt, al, be, phi, th, psi, p, q, r = x[:9]
    mach, qbar = adc(vt, x[11])
    C = coefficients(x, u, model)
    vel = vt * np.array([math.cos(al) * math.cos(be), math.sin(be), math.sin(al) * math.cos(be)])
    om = np.array([p, q, r])
    R = body_to_earth(phi, th, psi)
    aero = RM * qbar * S * C[:3]
    push = np.array([RM * thrust(x[12], x[11], mach), 0, 0])
    acc = aero + push + R.T @ np.array([0, 0, G]) - np.cross(om, vel)
    uw2 = vel[0]**2 + vel[2]**2
    xd = np.zeros(13)
    xd[0] = vel @ acc / vt
    xd[1] = (vel[0] * acc[2] - vel[2] * acc[0]) / uw2
    xd[2] = (acc[1] - math.sin(be) * xd[0]) / (vt * math.cos(be))
    # Euler-angle rates: body rates = E * rates
    E = np.array([[1, 0, -math.sin(th)], [0, math.cos(phi), math.sin(phi) * math.cos(th)], [0, -math.sin(phi), math.cos(phi) * math.cos(th)]])
    xd[3:6] = np.linalg.solve(E, om)
    # moment equations with the published inertia constants and engine angular momentum
    qsb = qbar * S * B
    xd[6] = q * (-.770 * r + .02755 * p + 1.642e-6 * HE) + qsb * (1.055e-4 * C[3] + 1.642e-6 * C[5])
    xd[7] = r * (.9604 * p - 1.792e-5 * HE) + 1.759e-2 * (r**2 - p**2) + 1.792e-5 * qbar * S * CBAR * C[4]
    xd[8] = q * (-.7336 * p - .02755 * r + 1.587e-5 * HE) + qsb * (1.642e-6 * C[3] + 1.587e-5 * C[5])
    ned = R @ vel
    xd[9:12] = ned[0], ned[1], -ned[2]
    xd[12] = pdot(x[12], tgear(u[0]))
    az = aero[2] - 15 * xd[7]
    ay = aero[1] + (15 * xd[8] if adjust_cy else 0)
    return xd, -az / G - 1, ay / G, az, ay


# low-level controller
TRIM_X = np.array([502.0, 0.0389, 0, 0, 0.0389, 0, 0, 0, 0, 0, 0, 1000.0, 9.0567])
TRIM_U = np.array([0.1395, -0.7496, 0, 0])
K_LONG = np.array([-156.8801506723475, -31.037008068526642, -38.72983346216317])
K_LAT = np.array([[37.84483, -25.40956, -6.82876, -332.88343, -17.15997], [-23.91233, 5.69968, -21.63431, 64.49490, -88.36203]])
U_LO, U_HI = np.array([0, -25, -21.5, -30.0]), np.array([1, 25, 21.5, 30.0])


def llc(u_ref, x):
    """(deviation in controller order, saturated command, unsaturated command)"""
    x = np.asarray(x, dtype=float)
    lon = np.array([x[1] - TRIM_X[1], x[7], x[13]])
    lat = np.array([x[2], x[6], x[8], x[14], x[15]])
    raw = TRIM_U + np.array([u_ref[3], -K_LONG @ lon, *(-K_LAT @ lat)])
    return np.concatenate([lon, lat]), np.minimum(np.maximum(raw, U_LO), U_HI), raw


def controlled(x, u_ref, model, v2):
    dev, u, _ = llc(u_ref, x)
    xd, nz, ny, _, _ = subf16(x[:13], u, model)
    if v2:  # the variant built on the state derivative
        ps, nyr = xd[6] * math.cos(xd[1]) + xd[8] * math.sin(xd[1]), ny + xd[8]
    else:  # the deviation of the angle of attack from trim is what the controller sees
        ps, nyr = x[6] * math.cos(x[1] - TRIM_X[1]) + x[8] * math.sin(x[1] - TRIM_X[1]), ny + x[8]
    full = np.concatenate([xd, [nz - u_ref[0], ps - u_ref[1], nyr - u_ref[2]]])
    return full, np.concatenate([[u[0]], np.radians(u[1:]), u_ref[:3]]), nz, ps, nyr


# trim
def constrain(x, u, const):
    radgam, _, rr, pr, tr, phi, _, _, thetadot, _, _, orient = const
    x = np.array(x, dtype=float)
    if orient == 3:
        # body rates of a turn about the vertical at rate tr
        x[6:9] = body_to_earth(x[3], x[4], 0.0).T @ np.array([0, 0, tr])
    else:
        x[3] = phi
        x[4] = x[1] + (radgam if orient == 2 else 0)
        x[6:9] = rr, (thetadot if orient == 4 else pr), 0
    x[12] = tgear(u[0])
    return x


WEIGHTS = {1: {0: 100, 1: 100, 2: 100, 6: 100, 7: 100, 8: 100}, 2: {0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10, 11: 500}, 3: {0: 1, 1: 100, 2: 100, 11: 100, 6: 10, 7: 10, 8: 10, 5: 500},
           4: {0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10, 4: 500}}


def residuals(x, xd, const):
    singam, tr, td, orient = const[1], const[4], const[8], const[11]
    target = np.zeros(13)
    if orient == 2:
        target[11] = x[0] * singam
    elif orient == 3:
        target[5] = tr
    elif orient == 4:
        target[4] = td
    return {i: xd[i] - target[i] for i in WEIGHTS[orient]}


def cost(x, xd, const):
    w = WEIGHTS[const[11]]
    c = sum(w[i] * v**2 for i, v in residuals(x, xd, const).items())
    return math.sqrt(c) if c < 1 else c
