"""Effective potential of the MSSM in the DR' scheme, written independently of the library; used by P16.

one loop: complete field dependence (all sfermions, fermions, neutralinos, charginos, Higgs and gauge bosons in
't Hooft-Feynman gauge with the gauge-fixing vacuum expectation values kept fixed);
two loops, gaugeless limit: the general formulas of a softly broken theory (Martin) with couplings generated from the
superpotential, and the SUSY-QCD part.
"""
import math

import numpy as np
from scipy.special import spence

K = 1 / (16 * math.pi ** 2)


# ---------------------------------------------------------------- loop integrals
def J(x, q):
    x = np.asarray(x, float)
    s = np.where(x > 0, x, 1.0)
    return np.where(x > 0, x * (np.log(s / q) - 1), 0.0)


def G(x, q):
    """m^4 (ln m^2/Q^2 - 3/2)"""
    x = np.asarray(x, float)
    s = np.where(x == 0, 1.0, np.abs(x))
    return x * x * (np.log(s / q) - 1.5)


def li2(z):
    return spence(1 - z)


def xi(x, y, z):
    """the function xi(x,y,z) of the two-loop vacuum integral; all arguments positive"""
    a = np.sort(np.stack([x, y, z]), axis=0)
    x, y, z = a
    r2 = (z - y) ** 2 + x * (x - 2 * (y + z))
    R = np.sqrt(r2.astype(complex))
    u = 2 * x / ((z - y) + x + R)
    v = 2 * y / ((z - x) + y + R)
    t = R * (2 * np.log(u) * np.log(v) - np.log(x / z) * np.log(y / z) - 2 * li2(u) - 2 * li2(v) + math.pi ** 2 / 3)
    return t.real


def I2(x, y, z, q):
    """two-loop vacuum integral I(x,y,z), vectorised, arguments >= 0"""
    x, y, z = np.broadcast_arrays(*[np.asarray(k, float) for k in (x, y, z)])
    s = np.sort(np.stack([x.ravel(), y.ravel(), z.ravel()]), axis=0)
    a, b, c = s
    out = np.zeros(a.shape)
    m3 = a > 0
    if m3.any():
        A, B, C = a[m3], b[m3], c[m3]
        la, lb, lc = (np.log(k / q) for k in (A, B, C))
        out[m3] = (.5 * ((A - B - C) * lb * lc + (B - A - C) * la * lc + (C - A - B) * la * lb)
                   + 2 * (A * la + B * lb + C * lc) - 2.5 * (A + B + C) - .5 * xi(A, B, C))
    m2 = (a == 0) & (b > 0)
    if m2.any():
        X, Y = c[m2], b[m2]
        lx, ly = np.log(X / q), np.log(Y / q)
        out[m2] = ((X - Y) * (li2(Y / X) - np.log(np.where(X == Y, 1.0, X / Y)) * np.log(np.where(X == Y, 1.0, np.abs(X - Y) / q)) + .5 * lx * lx - math.pi ** 2 / 6)
                   - 2.5 * (X + Y) + 2 * X * lx + 2 * Y * ly - X * lx * ly)
    m1 = (b == 0) & (c > 0)
    if m1.any():
        X = c[m1]
        lx = np.log(X / q)
        out[m1] = X * (-.5 * lx * lx + 2 * lx - 2.5 - math.pi ** 2 / 6)
    return out.reshape(x.shape)


# ---------------------------------------------------------------- one loop
def sfermions(p, vd, vu, g2s, gps):
    """all squared sfermion mass matrices with their multiplicities (real degrees of freedom)"""
    d = (vd * vd - vu * vu) / 4
    out = []
    for n, L, R, A, y, v, w, t3, yl, yr, nc in (
            ("u", "mq2", "mu2", "Au", "Yu", vu, vd, .5, 1 / 6, -2 / 3, 3),
            ("d", "mq2", "md2", "Ad", "Yd", vd, vu, -.5, 1 / 6, 1 / 3, 3),
            ("e", "ml2", "me2", "Ae", "Ye", vd, vu, -.5, -.5, 1., 1)):
        for k in (0, 4, 8):
            Y = p[y][k] if k == 8 else 0.0
            m = np.array([[p[L][k] + Y * Y * v * v / 2 + d * (g2s * t3 - gps * yl), Y * (p[A][k] * v - p["mu"] * w) / 2 ** .5],
                          [0, p[R][k] + Y * Y * v * v / 2 - d * gps * yr]])
            m[1, 0] = m[0, 1]
            out.append((m, 2 * nc))
    for k in (0, 4, 8):
        out.append((np.array([[p["ml2"][k] + d * (g2s * .5 + gps * .5)]]), 2))
    return out


def fermions(p, vd, vu, g2s, gps):
    """all M^dagger M of the fermions, multiplicities negative"""
    out = []
    for y, v, nc in (("Yu", vu, 3), ("Yd", vd, 3), ("Ye", vd, 1)):
        if p[y][8]:
            out.append((np.array([[(p[y][8] * v) ** 2 / 2]]), -4 * nc))
    g2, gp = math.sqrt(g2s), math.sqrt(gps)
    if g2 or gp:
        N = np.array([[p["M1"], 0, -gp * vd / 2, gp * vu / 2], [0, p["M2"], g2 * vd / 2, -g2 * vu / 2],
                      [-gp * vd / 2, g2 * vd / 2, 0, -p["mu"]], [gp * vu / 2, -g2 * vu / 2, -p["mu"], 0]])
        C = np.array([[p["M2"], g2 * vu / 2 ** .5], [g2 * vd / 2 ** .5, p["mu"]]])
        out += [(N.T @ N, -2), (C.T @ C, -4)]
    return out


def trace_derivatives(mats, p, q):
    """derivatives (dd, du, uu, d, u) of 1/4 sum n Tr G(M^2) for matrices that are quadratic in the fields: exact perturbation theory"""
    vd, vu = p["vd"], p["vu"]
    s = math.hypot(vd, vu)
    at = lambda a, b: mats(vd + a * s, vu + b * s)
    grid = {k: at(*k) for k in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1))}
    res = np.zeros(5)
    for i, (m0, n) in enumerate(grid[0, 0]):
        g = {k: v[i][0] for k, v in grid.items()}
        d, u = (g[1, 0] - g[-1, 0]) / (2 * s), (g[0, 1] - g[0, -1]) / (2 * s)
        dd, uu = (g[1, 0] + g[-1, 0] - 2 * m0) / s ** 2, (g[0, 1] + g[0, -1] - 2 * m0) / s ** 2
        du = ((g[1, 1] + g[-1, -1] - 2 * m0) / s ** 2 - dd - uu) / 2
        x, O = np.linalg.eigh(m0)
        x = np.maximum(x, 1e-300)
        L = np.log(x / q)
        g1 = 2 * x * (L - 1)
        D = np.empty((len(x), len(x)))
        for a in range(len(x)):
            for b in range(len(x)):
                e = (x[a] - x[b]) / x[b]
                D[a, b] = 2 * (L[a] - 1 + (1 if abs(e) < 1e-14 else np.log1p(e) / e))
        rot = lambda m: O.T @ m @ O
        d, u, dd, du, uu = map(rot, (d, u, dd, du, uu))
        tr = lambda m: (g1 * np.diag(m)).sum()
        res += n / 4 * np.array([(D * d * d.T).sum() + tr(dd), (D * d * u.T).sum() + tr(du), (D * u * u.T).sum() + tr(uu), tr(d), tr(u)])
    return res


# real components of the Higgs doublets: Hd0 (2), Hd- (2), Hu+ (2), Hu0 (2); generators acting on them
def _generators():
    s = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
    gens = []
    for a in range(4):
        t = np.zeros((4, 4), complex)      # (Hd0, Hd-, Hu+, Hu0)
        if a < 3:
            t[:2, :2] = s[a] / 2
            t[2:, 2:] = s[a] / 2
        else:
            t[:2, :2] = -np.eye(2) / 2
            t[2:, 2:] = np.eye(2) / 2
        gens.append(t)
    return gens


GEN = _generators()


def real_quadratic(h):
    """real symmetric matrix of phi^dagger h phi for phi = (x + i y)/sqrt2, ordering x1 y1 x2 y2 ..."""
    n = len(h)
    e = np.zeros((n, 2 * n), complex)
    for i in range(n):
        e[i, 2 * i], e[i, 2 * i + 1] = 1 / 2 ** .5, 1j / 2 ** .5
    return 2 * (e.conj().T @ h @ e).real / 2, e


def real_action(t):
    """real matrix of i*t acting on the real components"""
    n = len(t)
    out = np.zeros((2 * n, 2 * n))
    a = 1j * t
    for i in range(n):
        for j in range(n):
            out[2 * i:2 * i + 2, 2 * j:2 * j + 2] = [[a[i, j].real, -a[i, j].imag], [a[i, j].imag, a[i, j].real]]
    return out


QUAD = [real_quadratic(t)[0] for t in GEN]         # D^a = phi^T QUAD phi (without coupling)
ACT = [real_action(t) for t in GEN]


def background(vd, vu):
    f = np.zeros(8)
    f[0], f[6] = vd, vu
    return f


def higgs_mass_terms(p, gh2):
    """m1^2, m2^2, m3^2 that make (vd, vu) a minimum of the tree-level potential"""
    vd, vu = p["vd"], p["vu"]
    v2 = vd * vd + vu * vu
    m3 = p["MA"] ** 2 * vd * vu / v2
    d = gh2 / 8 * (vd * vd - vu * vu)
    return m3 * vu / vd - d, m3 * vd / vu + d, m3


def higgs_hessian(p, vd, vu, g2s, gps):
    m1, m2, m3 = higgs_mass_terms(p, g2s + gps)
    H = np.zeros((8, 8))
    for i in range(4):
        H[i, i] = m1
        H[i + 4, i + 4] = m2
    # -m3^2 (Hu0 Hd0 - Hu+ Hd-) + c.c.
    H[0, 6] = H[6, 0] = -m3
    H[1, 7] = H[7, 1] = m3
    H[2, 4] = H[4, 2] = m3
    H[3, 5] = H[5, 3] = -m3
    f = background(vd, vu)
    for a in range(4):
        g2 = g2s if a < 3 else gps
        q = 2 * QUAD[a]                # second derivative of D
        D = .5 * f @ q @ f
        dD = q @ f
        H += g2 * (np.outer(dD, dD) + D * q)
    return H


def v1_bosons(p, vd, vu):
    """gauge and Higgs bosons and ghosts"""
    q = p["scale"] ** 2
    g2s, gps = p["g2"] ** 2, .6 * p["g1"] ** 2
    g2, gp = math.sqrt(g2s), math.sqrt(gps)
    f, f0 = background(vd, vu), background(p["vd"], p["vu"])
    g = [g2, g2, g2, gp]
    F = np.array([g[a] * ACT[a] @ f for a in range(4)])
    F0 = np.array([g[a] * ACT[a] @ f0 for a in range(4)])
    MV = F @ F.T
    t = 3 * G(np.linalg.eigvalsh(MV), q).sum()
    t -= 2 * G(np.linalg.eigvals(F0 @ F.T).real, q).sum()
    C0 = np.zeros((12, 12), complex)
    C0[:4, :4] = MV
    C0[4:, 4:] = higgs_hessian(p, vd, vu, g2s, gps) + F0.T @ F0
    B = np.zeros((12, 12), complex)
    B[:4, 4:] = 1j * (F - F0)
    B[4:, :4] = B[:4, 4:].conj().T
    comp = np.zeros((24, 24), complex)      # k^2 + k B + C
    comp[:12, 12:] = np.eye(12)
    comp[12:, :12] = -C0
    comp[12:, 12:] = -B
    k2 = -(np.linalg.eigvals(comp) ** 2)
    k2 = np.where(np.abs(k2) < 1e-9 * np.abs(k2).max(), 1e-300, k2)
    k2 = np.where(k2.real < 0, -k2, k2)
    # every root m^2 appears twice (k = +- i m)
    return (t + .5 * (k2 ** 2 * (np.log(k2 / q) - 1.5)).sum().real) / 4


def combine(d, p):
    """correction to the CP-even Higgs mass matrix: V_ij - delta_ij V_i/phi_i"""
    return np.array([d[0] - d[3] / p["vd"], d[1], d[1], d[2] - d[4] / p["vu"]])


def one_loop(p, h=.02):
    g2s, gps = p["g2"] ** 2, .6 * p["g1"] ** 2
    d = trace_derivatives(lambda a, b: sfermions(p, a, b, g2s, gps) + fermions(p, a, b, g2s, gps), p, p["scale"] ** 2)
    if g2s or gps:
        d = d + np.array(stencil(lambda a, b: v1_bosons(p, a, b), p["vd"], p["vu"], h))
    return K * combine(d, p)


def stencil(V, vd, vu, h):
    """V_dd, V_du, V_uu and V_d, V_u by eighth-order differences"""
    c2 = [-205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560]
    c1 = [0, 4 / 5, -1 / 5, 4 / 105, -1 / 280]
    a, b = h * vd, h * vu
    v0 = V(vd, vu)
    n = range(1, 5)
    D = {k: V(vd + k * a, vu) for s in n for k in (s, -s)}
    U = {k: V(vd, vu + k * b) for s in n for k in (s, -s)}
    P = {k: V(vd + k * a, vu + k * b) for s in n for k in (s, -s)}
    first = lambda T, e: sum(c1[k] * (T[k] - T[-k]) for k in n) / e
    second = lambda T, e: (c2[0] * v0 + sum(c2[k] * (T[k] + T[-k]) for k in n)) / e ** 2
    dd, uu, pp = second(D, a), second(U, b), second(P, 1.0)
    du = (pp - a * a * dd - b * b * uu) / (2 * a * b)
    return dd, du, uu, first(D, a), first(U, b)


def matrix(V, p, h=.02):
    return combine(stencil(V, p["vd"], p["vu"], h), p)


# ---------------------------------------------------------------- two loops, Yukawa couplings (gaugeless limit)
class Yukawa2:
    """all O(y^4) two-loop terms for W = yt(tL Hu0 - bL Hu+)tR + yb(bL Hd0 - tL Hd-)bR + ytau(lL Hd0 - nu Hd-)lR + mu(Hu+Hd- - Hu0Hd0)"""

    def __init__(self, p):
        self.p = p
        self.q = p["scale"] ** 2
        nc = 3
        self.names = ["Hd0", "Hd-", "Hu+", "Hu0"] + [f"{f}{k}" for f in ("tL", "tR", "bL", "bR") for k in range(nc)] + ["lL", "lR", "nu"]
        ix = {n: i for i, n in enumerate(self.names)}
        self.ix, n = ix, len(self.names)
        W, T, m = np.zeros((n, n, n)), np.zeros((n, n, n)), np.zeros((n, n))
        yt, yb, yl = p["Yu"][8], p["Yd"][8], p["Ye"][8]

        def put(a, b, c, y, A):
            from itertools import permutations
            for s in set(permutations((ix[a], ix[b], ix[c]))):
                W[s] += y
                T[s] += y * A
        for k in range(nc):
            put(f"tL{k}", "Hu0", f"tR{k}", yt, p["Au"][8])
            put(f"bL{k}", "Hu+", f"tR{k}", -yt, p["Au"][8])
            put(f"bL{k}", "Hd0", f"bR{k}", yb, p["Ad"][8])
            put(f"tL{k}", "Hd-", f"bR{k}", -yb, p["Ad"][8])
        put("lL", "Hd0", "lR", yl, p["Ae"][8])
        put("nu", "Hd-", "lR", -yl, p["Ae"][8])
        for a, b, s in (("Hu+", "Hd-", 1), ("Hu0", "Hd0", -1)):
            m[ix[a], ix[b]] = m[ix[b], ix[a]] = s * p["mu"]
        self.W, self.T, self.m, self.n = W, T, m, n
        soft = {"tL": "mq2", "bL": "mq2", "tR": "mu2", "bR": "md2", "lL": "ml2", "nu": "ml2", "lR": "me2"}
        self.soft = np.zeros(n)
        for a, i in ix.items():
            k = a.rstrip("012") if a[0] in "tb" else a
            if k in soft:
                self.soft[i] = p[soft[k]][8]
        # complex field i = (x + I y)/sqrt2
        E = np.zeros((n, 2 * n), complex)
        for i in range(n):
            E[i, 2 * i], E[i, 2 * i + 1] = 1 / 2 ** .5, 1j / 2 ** .5
        self.E = E
        self.h = np.einsum("kij,ia,jb->kab", W, E, E)          # second derivatives of F_k
        # third derivatives of the trilinear soft terms
        self.t = 2 * np.einsum("kij,kc,ia,jb->cab", T, E, E, E, optimize=True).real
        names = [[f"{f}L{k}", f"{f}R{k}"] for f in "tb" for k in range(nc)] + [["lL", "lR"], ["nu"]]
        self.blocks = [[2 * ix[a] + k for a in bl for k in (0, 1)] for bl in names]
        self.pairs = [(ix[a], ix[c]) for a, c in [(f"{f}L{k}", f"{f}R{k}") for f in "tb" for k in range(nc)]
                      + [("lL", "lR"), ("Hu0", "Hd0"), ("Hu+", "Hd-")]]

    def potential(self, vd, vu, odd=0.0):
        """two-loop potential (in units of K^2) at the CP-even background vd, vu and the CP-odd one (heavy combination)"""
        p, ix, E, n = self.p, self.ix, self.E, self.n
        b = math.atan2(p["vu"], p["vd"])
        cb, sb = math.cos(b), math.sin(b)
        x = np.zeros(2 * n)
        x[2 * ix["Hd0"]], x[2 * ix["Hu0"]] = vd, vu
        x[2 * ix["Hd0"] + 1], x[2 * ix["Hu0"] + 1] = odd * sb, odd * cb
        phi = E @ x
        M = self.m + self.W @ phi                               # fermion mass matrix
        F = self.m @ phi + .5 * self.W @ phi @ phi
        g = M @ E                                               # dF_k/dR_a
        t3 = self.t
        H2 = 2 * np.tensordot(F.conj(), self.h, 1).real + 2 * (g.T @ g.conj()).real
        H2 += 2 * ((E.T * self.soft) @ E.conj()).real + t3 @ x
        # diagonalise in blocks; Higgs block analytically (independent of the fields in the gaugeless limit)
        m2, O = np.zeros(2 * n), np.zeros((2 * n, 2 * n))
        for a, c, sg in ((0, 6, 1), (1, 7, -1), (2, 4, -1), (3, 5, 1)):
            # light (massless) and heavy combination of (down, up) components
            O[a, a], O[c, a], O[a, c], O[c, c] = cb, sg * sb, -sg * sb, cb
            m2[c] = p["MA"] ** 2
        for bl in self.blocks:
            w, z = np.linalg.eigh(H2[np.ix_(bl, bl)])
            m2[bl] = w
            O[np.ix_(bl, bl)] = z
        self.m2 = m2
        # couplings in the mass basis
        rot = lambda t: O.T @ t @ O                              # last two indices
        h = rot(self.h)
        G1 = g @ O
        c = np.tensordot(G1.conj(), h, ([0], [0])).real          # c[k,i,j] = sum_F g_k^* h_ij
        l3 = np.tensordot(O, rot(t3), ([0], [0])) + 2 * (c + c.transpose(1, 2, 0) + c.transpose(2, 0, 1))
        d = np.einsum("kii->ki", h)
        l4 = 2 * (d.T @ d.conj()).real + 4 * (np.abs(h) ** 2).sum(0)
        q = self.q
        ms, inv = distinct(m2)
        red = np.zeros((2 * n, len(ms)))
        red[np.arange(2 * n), inv] = 1
        a3 = np.tensordot(red.T, red.T @ (l3 * l3) @ red, 1)
        V = -(a3 * I2(ms[:, None, None], ms[None, :, None], ms[None, None, :], q)).sum() / 12
        Jm = J(m2, q)
        V += Jm @ l4 @ Jm / 8
        # fermions: Dirac pairs, diagonalised exactly
        U, mf = np.zeros((n, n), complex), np.zeros(n)
        U[ix["nu"], ix["nu"]] = 1
        for i, j in self.pairs:
            z = M[i, j]
            mf[i] = mf[j] = abs(z)
            s = z.conjugate() / abs(z) if z else 1
            U[i, i], U[j, i], U[i, j], U[j, j] = 1 / 2 ** .5, s / 2 ** .5, 1j / 2 ** .5, -1j * s / 2 ** .5
        Y = np.tensordot(E @ O, self.W, ([0], [0]))              # [a, i, j]
        Y = U.T @ Y @ U
        fm, finv = distinct(mf)
        fr = np.zeros((n, len(fm)))
        fr[np.arange(n), finv] = 1
        yy = np.tensordot(red.T, fr.T @ (np.abs(Y) ** 2) @ fr, 1)
        ym = np.tensordot(red.T, fr.T @ ((Y ** 2).real * np.outer(mf, mf)) @ fr, 1)
        S, X, Z = ms[:, None, None], fm[None, :, None] ** 2, fm[None, None, :] ** 2
        I = I2(X, Z, S, q)
        ffs = J(X, q) * J(Z, q) - J(X, q) * J(S, q) - J(Z, q) * J(S, q) + (X + Z - S) * I
        return V + .5 * (yy * ffs).sum() + (ym * I).sum()


def distinct(m):
    """distinct values (up to rounding) and the index of each entry"""
    o = np.argsort(m)
    s = m[o]
    new = np.concatenate([[True], np.diff(s) > 1e-12 * np.abs(s[1:])])
    inv = np.empty(len(m), int)
    inv[o] = np.cumsum(new) - 1
    return s[new], inv


def v2_yukawa(p):
    y = Yukawa2(p)
    return lambda vd, vu: K * K * y.potential(vd, vu)


def qcd_terms(p, kind, vd, vu):
    """colour-stripped terms of the two-loop SUSY-QCD potential of the quark `kind` ("u" or "d") of the third generation"""
    L, R, A, y, v, w = (("mq2", "mu2", "Au", "Yu", vu, vd) if kind == "u" else ("mq2", "md2", "Ad", "Yd", vd, vu))
    Y, q, mg = p[y][8], p["scale"] ** 2, p["MG"]
    t, g = (Y * v) ** 2 / 2, mg * mg
    a, b, c = p[L][8] + t, p[R][8] + t, Y * (p[A][8] * v - p["mu"] * w) / 2 ** .5
    d = math.hypot(a - b, 2 * c) or 1e-300
    s2 = (2 * c / d) ** 2
    T = np.array([(a + b + d) / 2, (a + b - d) / 2])
    JT, Jt, Jg = J(T, q), float(J(t, q)), float(J(g, q))
    I = I2(T, t, g, q)
    return np.array([Jt ** 2 - 2 * t * float(I2(t, t, 0, q)),
                     (T * I2(T, T, 0, q)).sum(),
                     (1 - s2 / 2) * (JT ** 2).sum() + s2 * JT[0] * JT[1],
                     (Jt * Jg - (Jt + Jg) * JT + (t + g - T) * I).sum(),
                     2 * mg * Y * v / 2 ** .5 * 2 * c / d * (I[0] - I[1])])


def v2_qcd(p, kind):
    c = np.array([8, 8, 4, 8, -8]) * p["g3"] ** 2 * K * K
    return lambda vd, vu: float(c @ qcd_terms(p, kind, vd, vu))
