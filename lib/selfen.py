"""Momentum dependence of the one-loop CP-even Higgs self-energies, written independently of the library; used by P23.

Every coupling of a Higgs boson to a pair of particles is the derivative of their field-dependent mass matrix (lib/veff.py)
or, for a gauge and a Higgs boson, a matrix element of the gauge generators; the loop function is the real part of B0.
"""
import math

import numpy as np

import veff

# double exponential quadrature on [0, 1]; nodes come with x and 1 - x
_T = np.linspace(-4.2, 4.2, 181)
_S = .5 * math.pi * np.sinh(_T)
_X1, _X2 = 1 / (1 + np.exp(-2 * _S)), 1 / (1 + np.exp(2 * _S))
_W = (_T[1] - _T[0]) * .5 * math.pi * np.cosh(_T) / (2 * np.cosh(_S) ** 2)


def _db0_int(a, b, s):
    m = _X1 * a[..., None] + _X2 * b[..., None]
    return -(np.log1p(-_X1 * _X2 * s / m) * _W).sum(-1)


def _b0_zero(a, b):
    """B0(0; a, b) with Q^2 = 1"""
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    e = (hi - lo) / lo
    with np.errstate(all="ignore"):
        f = np.where(e < 1e-5, e / 2 - e * e / 6, ((1 + e) * np.log1p(e) - e) / e)       # -(B0 + ln lo)
    return -np.log(lo) - f


def delta_b0(a, b, s):
    """Re B0(s; a, b) - B0(0; a, b)"""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    th = (np.sqrt(a) + np.sqrt(b)) ** 2
    low = s < .5 * th
    out = np.empty(a.shape)
    if low.any():
        out[low] = _db0_int(a[low], b[low], s)
    h = ~low
    if h.any():
        out[h] = b0_closed(a[h], b[h], s) - _b0_zero(a[h], b[h])
    return out


def b0_closed(a, b, s):
    """real part of B0 for s of the order of the threshold or above it, Q^2 = 1"""
    x, y = np.sqrt(a), np.sqrt(b)
    lam = (s - (x + y) ** 2) * (s - (x - y) ** 2)
    q = np.sqrt(np.abs(lam))
    up = s - a - b
    with np.errstate(all="ignore"):
        above = np.sign(up) * q / s * np.log((np.abs(up) + q) / np.sqrt(4 * a * b))     # outside the two thresholds
        mid = -q / s * np.arctan2(q, -up)                               # between the thresholds
    t = np.where(lam < 0, mid, -above)
    d = (a - b) / (2 * s) * np.log(b / a)
    return 2 - .5 * np.log(a * b) + d + t


def momentum(p, ss):
    """list of (matrix M(s) - M(0), sum of the moduli of the contributions, rounding error), units as the library's mass matrix"""
    g2s, gps = p["g2"] ** 2, .6 * p["g1"] ** 2
    g2, gp = math.sqrt(g2s), math.sqrt(gps)
    vd, vu = p["vd"], p["vu"]
    h = math.hypot(vd, vu)
    loops = []                        # (coefficient matrices c_i, masses a, b, kind, factor)

    # sfermions
    at = lambda x, y: [m for m, _ in veff.sfermions(p, x, y, g2s, gps)]
    mats = veff.sfermions(p, vd, vu, g2s, gps)
    D = [[(u - d) / (2 * h) for u, d in zip(at(*up), at(*dn))] for up, dn in (((vd + h, vu), (vd - h, vu)), ((vd, vu + h), (vd, vu - h)))]
    for k, (m, n) in enumerate(mats):
        x, O = np.linalg.eigh(m)
        loops.append(([O.T @ D[i][k] @ O for i in (0, 1)], x, x, "s", -n / 2))

    # fermions: real symmetric mass matrices of Majorana fields
    def fer(x, y):
        N = np.array([[p["M1"], 0, -gp * x / 2, gp * y / 2], [0, p["M2"], g2 * x / 2, -g2 * y / 2],
                      [-gp * x / 2, g2 * x / 2, 0, -p["mu"]], [gp * y / 2, -g2 * y / 2, -p["mu"], 0]])
        C = np.array([[p["M2"], g2 * y / 2 ** .5], [g2 * x / 2 ** .5, p["mu"]]])
        Z = np.zeros((2, 2))
        out = [(N, 1), (np.block([[Z, C], [C.T, Z]]), 1)]
        for k, v, nc in (("Yu", y, 3), ("Yd", x, 3), ("Ye", x, 1)):
            m = p[k][8] * v / 2 ** .5
            out.append((np.array([[0, m], [m, 0]]), nc))
        return out
    F0 = fer(vd, vu)
    Y = [[(u[0] - d[0]) / (2 * h) for u, d in zip(fer(*up), fer(*dn))] for up, dn in (((vd + h, vu), (vd - h, vu)), ((vd, vu + h), (vd, vu - h)))]
    for k, (m, n) in enumerate(F0):
        x, O = np.linalg.eigh(m)
        if np.abs(x).max() == 0:
            continue
        loops.append(([O.T @ Y[i][k] @ O for i in (0, 1)], x, x, "f", n))

    # gauge and Higgs bosons
    g = [g2, g2, g2, gp]
    bg = veff.background(vd, vu)
    Fm = lambda f: np.array([g[a] * veff.ACT[a] @ f for a in range(4)])
    F = Fm(bg)
    MV, OV = np.linalg.eigh(F @ F.T)
    MV = np.where(MV < 1e-12 * MV.max(), 0, MV)
    e = [np.eye(8)[0], np.eye(8)[6]]
    dF = [Fm(x) for x in e]
    V = slice(0, 4) if MV.min() > 0 else slice(1, 4)           # the photon (mass zero) decouples
    rot = lambda m: (OV.T @ m @ OV)[V, V]
    m = MV[V]
    loops.append(([rot(F @ d.T + d @ F.T) for d in dF], m, m, "s", -2))
    loops.append(([rot(F @ d.T) for d in dF], m, m, "g", 1))
    H = veff.higgs_hessian(p, vd, vu, g2s, gps) + F.T @ F
    # without the gauge fixing terms, which do not depend on the fields
    dH = [(veff.higgs_hessian(p, *up, g2s, gps) - veff.higgs_hessian(p, *dn, g2s, gps)) / (2 * h)
          for up, dn in (((vd + h, vu), (vd - h, vu)), ((vd, vu + h), (vd, vu - h)))]
    x, O = np.linalg.eigh(H)
    loops.append(([O.T @ d @ O for d in dH], x, x, "s", -.5))
    # gauge and Higgs boson: g_a (T_a)_{s i}
    T = np.array([g[a] * veff.ACT[a] for a in range(4)])
    T = np.einsum("ab,aij->bij", OV, T)[V]
    loops.append(([np.einsum("ast,t,sr->ar", T, y, O) for y in e], m, x, "v", 1))

    res = []
    for s in ss:
        M, A, N = (np.zeros((2, 2)) for _ in range(3))
        for c, a, b, kind, n in loops:
            if kind == "f":
                a2, b2 = a * a, b * b
            else:
                a2, b2 = a, b
            if min(a2.min(), b2.min()) <= 0:
                return None
            db = delta_b0(a2[:, None], b2[None, :], s)
            if kind == "f":
                full = _b0_zero(a2[:, None], b2[None, :]) + math.log(p["scale"] ** 2) + db
                W = (a[:, None] + b[None, :]) ** 2 - s
                L = W * db - s * (full - db)
            elif kind == "v":
                full = _b0_zero(a2[:, None], b2[None, :]) + math.log(p["scale"] ** 2) + db
                W = 2 * b[None, :] - a[:, None] + 2 * s
                L = W * db + 2 * s * (full - db)
            else:
                W, L = 1.0, db
            # rounding error of B0 calculated by differences of logarithms
            R = np.abs(W) * 1e-14 * (1 + np.maximum(a2[:, None], b2[None, :]) / s)
            for i in (0, 1):
                for j in (0, 1):
                    t = n * c[i] * (c[j].T if kind == "g" else c[j])
                    N[i, j] += np.abs(t * R).sum()
                    t = t * L
                    M[i, j] += t.sum()
                    A[i, j] += np.abs(t).sum()
        res.append((veff.K * M, veff.K * A, veff.K * N))
    return res
