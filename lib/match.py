"""Spectra, evaluations and reference expressions shared by the checks which
compare the fixed-order with the effective-theory calculation (P10, P13)."""
import math

import numpy as np

import drvlib
import points
from p07 import pert
from p20 import ORD, fl

OFF = {k: 0 for k in ORD}
ONE = ORD[:12]
K = 1 / (16 * math.pi ** 2)
ZERO = 0.0.hex()


def flags(on):
    return fl({**OFF, **{k: 1 for k in on}})


def heavy(r, MS, tb, name="h", xmax=1.5, tau=True):
    """well separated superpartner masses of order MS, both signs of mu, M1, M2 and of all mixings"""
    p = points.susy(points.Rng(name), MS=MS, tb=tb, xt=0.5, q_rel=1.0)
    slots = [0.60 * (3.1 ** (i / 7.0)) for i in range(8)]
    r.shuffle(slots)
    m = [MS * s * r.uniform(0.97, 1.03) for s in slots]
    gen = lambda: [(MS * r.uniform(.6, 1.7)) ** 2 for _ in range(2)]
    for k, x in zip(("mq2", "mu2", "md2", "ml2", "me2"), m):
        p[k] = points.diag(*gen(), x * x)
    p["mu"], p["MA"], p["MG"] = m[5] * r.choice((-1, 1)), m[6], m[7]
    for k in ("M1", "M2"):
        p[k] = MS * r.uniform(.5, 1.7) * r.choice((-1, 1))
    mix(p, *[r.uniform(-xmax, xmax) for _ in range(3)])
    return p


def mix(p, xt, xb, xl):
    """X_f in units of the average sfermion mass"""
    tb = p["vu"] / p["vd"]
    for k, x, (a, b), t in (("Au", xt, ("mq2", "mu2"), 1 / tb), ("Ad", xb, ("mq2", "md2"), tb), ("Ae", xl, ("ml2", "me2"), tb)):
        p[k] = points.diag(0, 0, x * (p[a][8] * p[b][8]) ** .25 + p["mu"] * t)


def coincident(r):
    """several of all masses equal or nearly equal, which selects the special branches"""
    p = points.susy(r, tb=r.logu(1.5, 40))
    M = r.logu(800, 5e3)
    near = lambda: M * r.choice((1.0, 1.0, 1 + r.sign() * r.logu(1e-6, .12), r.logu(.5, 2)))
    for k in ("mq2", "mu2", "md2", "ml2", "me2"):
        a = M * r.choice((1.0, r.logu(.6, 1.8)))
        p[k] = points.diag(a * a, a * a, near() ** 2)
    p["mu"], p["MA"], p["MG"], p["M1"], p["M2"] = near() * r.sign(), near(), near(), near() * r.sign(), near() * r.sign()
    p["scale"] = r.choice((M, M, M * r.logu(.5, 2)))
    mix(p, *[r.choice((0.0, 1e-3, r.uniform(-2, 2))) for _ in range(3)])
    return p


def given(r, p):
    """sfermion masses and mixing given by a spectrum generator"""
    q = p.copy()
    for a, b, n, s in (("mq2", "mu2", "MSt", "s2t"), ("mq2", "md2", "MSb", "s2b"), ("ml2", "me2", "MStau", "s2tau")):
        m = sorted(abs(p[k][8]) ** .5 * r.uniform(.95, 1.05) for k in (a, b))
        q[n], q[s] = m, r.uniform(-.99, .99)
    for n, m in (("Mt", 160), ("Mb", 2.5), ("Mtau", 1.7), ("MW", 79), ("MZ", 90.5)):
        q[n] = m * r.uniform(.97, 1.03)
    return q


def set_sm(p, m, rt=1.0, rb=0.0, rl=0.0, g3=None):
    """masses of the third-generation fermions in units of m; the reference mass Mt is m"""
    for y, v, x, n in (("Yu", "vu", rt, "Mt"), ("Yd", "vd", rb, "Mb"), ("Ye", "vd", rl, "Mtau")):
        p[y] = points.diag(0, 0, x * m * 2 ** .5 / p[v])
        p[n] = x * m
    p["Mt"] = m
    if g3 is not None:
        p["g3"] = g3
    return p


def v2(p):
    return p["vu"] ** 2 + p["vd"] ** 2


def fo_req(p, on, only_at=0, mom=1, p2=0.0):
    return f"fo {only_at} 0 {mom} {flags(on)} {float(p2).hex()} {points.ser(p)}"


def eft_req(p, on):
    return f"eft {flags(on)} {points.ser(p)}"


def tc_req(p):
    return f"tc -1 -1 {points.ser(p)}"


def fo_val(e):
    """one- and two-loop corrections to the light Higgs mass, gaugeless perturbation theory"""
    v = pert([e["m0gl"], e["m1gl"], e["m2"]])
    return float(v[1]), float(v[2])


def tc_val(e, names, scheme=1):
    return {k: e["tc"][225 + 5 * j + scheme] for j, k in enumerate(names)}


# ---- one loop ----------------------------------------------------------------
def re_b0(p2, m2, q2):
    if m2 < 1e-9 * p2:
        return 2 - math.log(p2 / q2)
    r = p2 / (4 * m2)
    if r < 1e-12:
        return -math.log(m2 / q2)
    if r < 1:
        s = math.sqrt(1 / r - 1)
        return 2 - math.log(m2 / q2) - 2 * s * math.atan(1 / s)
    b = math.sqrt(1 - 1 / r)
    return 2 - math.log(m2 / q2) + b * math.log((1 - b) / (1 + b))


def _b0(m1, m2, q):
    if abs(m1 / m2 - 1) < 1e-6:
        return -math.log(m1 * m2 / q / q) / 2
    return 1 - (m1 * math.log(m1 / q) - m2 * math.log(m2 / q)) / (m1 - m2)


def _db0(m1, m2):
    d = m1 - m2
    if abs(d) < 1e-3 * m1:
        return 1 / (6 * math.sqrt(m1 * m2))
    return (m1 * m1 - m2 * m2 - 2 * m1 * m2 * math.log(m1 / m2)) / (2 * d ** 3)


def one_loop_convention(p, t):
    """fixed order minus effective theory at one loop, known exactly: momentum dependence of the
    top loop beyond O(p^2), masses of bottom and tau in their loops, gaugino-higgsino correction
    to the vacuum expectation value"""
    tb = p["vu"] / p["vd"]
    sb2 = tb * tb / (1 + tb * tb)
    q, s2b = p["scale"] ** 2, 2 * tb / (1 + tb * tb)
    yt2 = p["Yu"][8] ** 2
    mt2 = yt2 * p["vu"] ** 2 / 2
    o = 3 * yt2 * sb2 * K * ((4 * mt2 - t) * re_b0(t, mt2, q) - (4 * mt2 * -math.log(mt2 / q) + t * (4 / 6 + math.log(mt2 / q))))
    for y, n in ((p["Yd"][8], 3), (p["Ye"][8], 1)):
        m = y * y * p["vd"] ** 2 / 2
        o += n * y * y * (1 - sb2) * K * (4 * m - t) * (re_b0(t, m, q) - re_b0(t, 0, q))
    dv = 0
    for g, n in ((p["g2"], 3), (p["g1"], .6)):
        M = p["M2"] if n == 3 else p["M1"]
        a, b = M * M, p["mu"] ** 2
        d = _db0(a, b)
        dv += K * t * n * g * g * (.5 * (_b0(a, b, q) - (a + b) * d) - M * p["mu"] * s2b * d)
    return o + dv
