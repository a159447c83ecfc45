"""One-loop renormalisation-group equations of the MSSM in the DR' scheme (third-generation
Yukawa couplings), written independently of the library; used by P10."""
import math

from match import K


def step(p, d, yt2=1.0, yb2=1.0, yl2=1.0, g32=1.0, gauge=0.0, vev=2.0):
    """one Euler step of size d in ln Q; the squared couplings in the beta functions are multiplied by the switches;
    vev: coefficient of the gauge-coupling part of the anomalous dimension of the vevs (2: Feynman gauge)"""
    q = p.copy()
    yt, yb, yl = p["Yu"][8], p["Yd"][8], p["Ye"][8]
    a, b, c, g = yt * yt * yt2, yb * yb * yb2, yl * yl * yl2, p["g3"] ** 2 * g32
    e1, e2 = p["g1"] ** 2 * gauge, p["g2"] ** 2 * gauge
    M = p["MG"]
    At, Ab, Al = p["Au"][8], p["Ad"][8], p["Ae"][8]
    mQ, mU, mD, mL, mE = (p[k][8] for k in ("mq2", "mu2", "md2", "ml2", "me2"))
    tb = p["vu"] / p["vd"]
    sb2 = tb * tb / (1 + tb * tb)
    cb2 = 1 - sb2
    mHu, mHd = p["MA"] ** 2 * cb2 - p["mu"] ** 2, p["MA"] ** 2 * sb2 - p["mu"] ** 2
    Xt, Xb, Xl = mHu + mQ + mU + At * At, mHd + mQ + mD + Ab * Ab, mHd + mL + mE + Al * Al
    e = d * K
    q["Yu"][8] = yt * (1 + e * (6 * a + b - 16 / 3 * g))
    q["Yd"][8] = yb * (1 + e * (6 * b + a + c - 16 / 3 * g))
    q["Ye"][8] = yl * (1 + e * (4 * c + 3 * b))
    q["Au"][8] = At + e * (12 * a * At + 2 * b * Ab + 32 / 3 * g * M)
    q["Ad"][8] = Ab + e * (12 * b * Ab + 2 * a * At + 2 * c * Al + 32 / 3 * g * M)
    q["Ae"][8] = Al + e * (8 * c * Al + 6 * b * Ab)
    q["mq2"][8] = mQ + e * (2 * a * Xt + 2 * b * Xb - 32 / 3 * g * M * M)
    q["mu2"][8] = mU + e * (4 * a * Xt - 32 / 3 * g * M * M)
    q["md2"][8] = mD + e * (4 * b * Xb - 32 / 3 * g * M * M)
    q["ml2"][8] = mL + e * 2 * c * Xl
    q["me2"][8] = mE + e * 4 * c * Xl
    q["mu"] = p["mu"] * (1 + e * (3 * a + 3 * b + c - 3 * e2 - .6 * e1))
    v = e * (0.15 * e1 + 0.75 * e2) * vev
    q["vu"] = p["vu"] * (1 - 3 * a * e + v)
    q["vd"] = p["vd"] * (1 - e * (3 * b + c) + v)
    s2b = 2 * tb / (1 + tb * tb)
    dlns2b = (1 - tb * tb) / (1 + tb * tb) * e * (3 * b + c - 3 * a)
    MA2 = (p["MA"] ** 2 * (1 + e * (3 * a + 3 * b + c - 3 * e2 - .6 * e1) - dlns2b)
               + 2 * p["mu"] / s2b * e * (6 * a * At + 6 * b * Ab + 2 * c * Al + 6 * e2 * p["M2"] + 1.2 * e1 * p["M1"]))
    q["MA"] = MA2 ** .5 if MA2 > 0 else float("nan")
    q["g1"] = p["g1"] * (1 + e * 33 / 5 * e1)
    q["g2"] = p["g2"] * (1 + e * e2)
    q["scale"] = p["scale"] * math.exp(d)
    return q


def at_scale(p, d):
    return p.with_(scale=p["scale"] * math.exp(d))
