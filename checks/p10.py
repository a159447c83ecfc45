"""P10: renormalisation-scale independence, order by order, along the flow of the DR' parameters."""
import math

import numpy as np

import build
import drvlib
import p06
import p07
import p09
import points
import rge
from match import K, ONE, eft_req, fo_req, fo_val, heavy, mix, v2

H = 1e-3           # step in ln Q
NAN = float("nan")
TB2 = ("YT6", "YTAU6", "YTAU2YB4", "YTAU4YB2")

# fixed order: flags, only_at, momentum iteration, switches (yt2, yb2, yl2, g32)
FO = {
    "at_as": (("G32YT4",), 0, 0, (0, 0, 0, 1)),
    "at_as+ab_as": (("G32YT4", "G32YB4"), 0, 0, (0, 0, 0, 1)),
    "at2 (only at)": (("YT6",), 1, 1, (1, 0, 0, 0)),
    "at2+atab+ab2": (("YT6",), 0, 1, (1, 1, 0, 0)),
    "all Yukawa": (TB2, 0, 1, (1, 1, 1, 0)),
    "all": (TB2 + ("G32YT4", "G32YB4"), 0, 1, (1, 1, 1, 1)),
}
# effective theory: one-loop flags, two-loop flags, switches, residual in units v^2/2*K^2*(SM Yukawa couplings):
# the Yukawa couplings of the low-energy theory are expressed by running masses
EFT = {
    "at_as": (("YT4",), ("G32YT4",), (0, 0, 0, 1), lambda t, b, l, g: 0.0),
    "ab_as": (("YB4",), ("G32YB4",), (0, 0, 0, 1), lambda t, b, l, g: -192 * g * b ** 2),
    "at2": (("YT4",), ("YT6",), (1, 0, 0, 0), lambda t, b, l, g: 0.0),
    "ab2": (("YB4",), ("YB6",), (0, 1, 0, 0), lambda t, b, l, g: -108 * b ** 3),
    "atau2": (("YTAU4",), ("YTAU6",), (0, 0, 1, 0), lambda t, b, l, g: -8 * l ** 3),
    "at2+atab+ab2": (("YT4", "YB4"), ("YT6", "YB6", "YB2YT4", "YT2YB4"), (1, 1, 0, 0), lambda t, b, l, g: -108 * b ** 3 - 72 * t * t * b + 36 * t * b * b),
    "ab2+abatau+atau2": (("YB4", "YTAU4"), ("YB6", "YTAU6", "YTAU2YB4", "YTAU4YB2"), (0, 1, 1, 0),
                         lambda t, b, l, g: -108 * b ** 3 - 8 * l ** 3 - 24 * b * b * l - 36 * b * l * l),
}


TOL = {"at_as": 1e-6, "ab_as": 1e-6, "at2": 2e-2, "ab2": 1e-2, "atau2": 3e-2, "at2+atab+ab2": 3e-2, "ab2+abatau+atau2": 3e-2}
TYPICAL = {"at2": 1e-3, "at2+atab+ab2": 2e-3, "ab2": 1e-6, "atau2": 1e-6, "ab2+abatau+atau2": 1e-6}


def point(r, MS, i, tbmax=5.0):
    while True:
        p = candidate(r, MS, i, tbmax)
        if all(abs(rge.step(p, H, *sw, gauge=g)["MA"] / p["MA"] - 1) < .002
               for sw in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)) for g in (0, 1)):
            return p


def candidate(r, MS, i, tbmax):
    while True:
        tb = r.logu(.7, tbmax)
        p = heavy(r, MS, tb, f"x{i}")
        if abs(p["ml2"][8] / p["me2"][8] - 1) > .35 and abs(math.log(tb)) > .15:
            break
    v = 246 / (1 + tb * tb) ** .5
    p["vu"], p["vd"] = tb * v, v
    p["scale"] = MS * r.logu(.5, 2)
    p["Yu"] = points.diag(0, 0, r.uniform(.4, 1.) * (1 + tb ** -2) ** .5)
    p["Yd"] = points.diag(0, 0, r.logu(.02, .9) * (1 + tb * tb) ** .5)
    p["Ye"] = points.diag(0, 0, r.logu(.02, .9) * (1 + tb * tb) ** .5)
    mix(p, *[r.uniform(-1.5, 1.5) for _ in range(3)])
    for k in ("Mt", "Mb", "Mtau", "MZ", "MW"):
        p[k] = NAN
    return p


def pair(fn, p, *a, **k):
    return [fn(p, s * H, *a, **k) for s in (1, -1)]


def deriv(a, b):
    return (np.array(a) - np.array(b)) / (2 * H)


def fo_one(ctx, exe):
    """the whole inverse propagator matrix at arbitrary momentum: d m0 + d m1 = -(g_i + g_j)(p^2 - m0)_ij"""
    r = ctx.rng("fo1")
    jobs, reqs = [], []
    for i in range(ctx.n(400, 5000)):
        MS = r.logu(300, 5e4)
        p = point(r, MS, i, 15)
        p2 = r.choice((0.0, r.uniform(50, 200) ** 2, r.logu(100, 3 * MS) ** 2))
        rq = [fo_req(q, (), mom=0, p2=p2) for q in pair(rge.step, p, gauge=1.0, g32=0.0) + pair(rge.at_scale, p) + [p]]
        jobs.append((p, p2, len(reqs)))
        reqs += rq
    ev = drvlib.run(exe, reqs)
    for p, p2, k in jobs:
        e = ev[k:k + 5]
        if any("m0" not in x for x in e):
            ctx.count("no spectrum")
            continue
        d0, d1 = deriv(e[0]["m0"], e[1]["m0"]), deriv(e[2]["m1"], e[3]["m1"])
        m0 = np.array(e[4]["m0"])
        gd, gu = K * (3 * p["Yd"][8] ** 2 + p["Ye"][8] ** 2), K * 3 * p["Yu"][8] ** 2
        G = p2 * np.array([1, 0, 0, 1]) - m0
        want = -np.array([2 * gd, gd + gu, gd + gu, 2 * gu]) * G
        scale = np.abs(d0) + np.abs(d1) + np.abs(want)
        floor = 3e-13 / H * np.abs(e[4]["m1"]).max() + 1e-13 / H * np.abs(m0).max() + 1e-9
        for j, n in ((0, "11"), (1, "12"), (2, "21"), (3, "22")):
            ctx.close(f"fo1:{n}", f"fixed order, one loop ({n})", d0[j] + d1[j], want[j], 1e-6 * scale[j] + 10 * floor,
                      f"one-loop scale dependence of the inverse propagator ({n}), p = {p2 ** .5:.1f}", reqs[k + 4])
        ctx.seen("fixed order, one loop", k)
        # gaugeless limit at zero momentum
    jobs, reqs = [], []
    for i in range(ctx.n(100, 2000)):
        p = point(r, r.logu(300, 5e4), i, 15)
        p["g1"], p["g2"] = 1e-7, 1e-7
        jobs.append((p, len(reqs)))
        reqs += [fo_req(q, (), mom=0) for q in pair(rge.step, p, g32=0.0) + pair(rge.at_scale, p) + [p]]
    ev = drvlib.run(exe, reqs)
    for p, k in jobs:
        e = ev[k:k + 5]
        if any("m0" not in x for x in e):
            ctx.count("no spectrum")
            continue
        d0, d1 = deriv(e[0]["m0gl"], e[1]["m0gl"]), deriv(e[2]["m1gl"], e[3]["m1gl"])
        m0 = np.array(e[4]["m0gl"])
        gd, gu = K * (3 * p["Yd"][8] ** 2 + p["Ye"][8] ** 2), K * 3 * p["Yu"][8] ** 2
        want = np.array([2 * gd, gd + gu, gd + gu, 2 * gu]) * m0
        scale = np.abs(d0) + np.abs(d1) + np.abs(want)
        floor = 3e-13 / H * np.abs(e[4]["m1gl"]).max() + 1e-13 / H * np.abs(m0).max() + 1e-9
        for j, n in ((0, "11"), (1, "12"), (2, "21"), (3, "22")):
            ctx.close(f"fo1gl:{n}", f"fixed order, one loop, gaugeless ({n})", d0[j] + d1[j], want[j], 1e-6 * scale[j] + 10 * floor,
                      f"scale dependence of the gaugeless one-loop mass matrix ({n})", reqs[k + 4])
        ctx.seen("fixed order, one loop, gaugeless", k)


def fo_two(ctx, exe):
    r = ctx.rng("fo2")
    jobs, reqs = [], []
    for i in range(ctx.n(120, 2000)):
        for name, (fl, at, mom, sw) in FO.items():
            p = point(r, r.logu(3e3, 2e4), i)
            if sw[1] == 0 and "ab" not in name:
                p["Yd"][8] = 1e-6
            if sw[2] == 0:
                p["Ye"][8] = 1e-6
            p["Mb"] = p["Yd"][8] * p["vd"] / 2 ** .5
            jobs.append((name, p, len(reqs)))
            reqs += [fo_req(q, fl, only_at=at, mom=mom) for q in pair(rge.step, p, *sw) + pair(rge.at_scale, p) + [p]]
    ev = drvlib.run(exe, reqs)
    for name, p, k in jobs:
        e = ev[k:k + 5]
        if any("m2" not in x for x in e):
            ctx.count("no spectrum")
            continue
        f = [fo_val(x) for x in e]
        a, b = (f[0][0] - f[1][0]) / (2 * H), (f[2][1] - f[3][1]) / (2 * H)
        if a + b != a + b:
            ctx.count("not judged: nan")
            continue
        noise = 1e-15 / H * max(abs(x) for z in (e[4]["m2"], e[4]["m1gl"]) for x in z)
        ctx.close(f"fo2:{name}", f"fixed order, two loops, {name}", a + b, 0.0, 4e-3 * (abs(a) + abs(b)) + 100 * noise + 1e-3 * abs(f[4][1]) + 1e-3,
                  f"two-loop scale dependence, {name}: {a:.5g} + {b:.5g}", reqs[k + 4])
        ctx.seen("fixed order, two loops", (name, k))


def fix_mz(q, mz):
    """tree-level mass squared e^2*m_t^2: removes the dependence of the loop functions on it"""
    tb = q["vu"] / q["vd"]
    return q.with_(MZ=mz * abs((1 + tb * tb) / (1 - tb * tb)), MW=80.0)


def eft_one(ctx, exe):
    r = ctx.rng("eft1")
    jobs, reqs = [], []
    for i in range(ctx.n(400, 5000)):
        p = point(r, r.logu(2e3, 1e5), i, 40)
        jobs.append((p, len(reqs)))
        reqs += [eft_req(q, ONE) for q in pair(rge.step, p, gauge=1.0, g32=0.0, vev=4.0) + pair(rge.at_scale, p) + [p]]
    ev = drvlib.run(exe, reqs)
    for p, k in jobs:
        e = ev[k:k + 5]
        a, b = (e[0]["eft0"] - e[1]["eft0"]) / (2 * H), (e[2]["eft1"][3] - e[3]["eft1"][3]) / (2 * H)
        ctx.close("eft1", "effective theory, one loop", a + b, 0.0, 1e-6 * (abs(a) + abs(b)) + 3e-9 * (abs(e[4]["eft0"]) + abs(e[4]["eft1"][3])),
                  f"one-loop scale dependence: {a:.5g} + {b:.5g}", reqs[k + 4])
        ctx.seen("effective theory, one loop", k)


def eft_two(ctx, exe):
    r = ctx.rng("eft2")
    jobs, reqs = [], []
    for i in range(ctx.n(200, 3000)):
        for name, (one, two, sw, res) in EFT.items():
            p = point(r, r.logu(1e4, 1e5), i)
            for k, n in (("Yd", "b"), ("Ye", "l")):
                if not sw[1 if k == "Yd" else 2] and not (k == "Yd" and name == "ab_as"):
                    p[k][8] = 1e-5
            x = 1.6 * min(p["mq2"][8], p["mu2"][8]) ** .5
            if "YT6" in two and abs(p["mu"]) > x:      # see P13: LAMBDA_YT6 at displaced masses
                p["mu"] = math.copysign(.97 * x, p["mu"])
                mix(p, *[r.uniform(-1.5, 1.5) for _ in range(3)])
            mz = p["Yu"][8] * p["vu"] / 2 ** .5 * math.e
            jobs.append((name, p, len(reqs)))
            reqs += [eft_req(fix_mz(q, mz), one + two) for q in pair(rge.step, p, *sw) + pair(rge.at_scale, p) + [p]]
    ev = drvlib.run(exe, reqs)
    devs = {}
    for name, p, k in jobs:
        e = ev[k:k + 5]
        a, b = (e[0]["eft1"][3] - e[1]["eft1"][3]) / (2 * H), (e[2]["eft2"][3] - e[3]["eft2"][3]) / (2 * H)
        n = v2(p) / 2 * K * K
        sb2 = p["vu"] ** 2 / v2(p)
        t, bb, l = p["Yu"][8] ** 2 * sb2, p["Yd"][8] ** 2 * (1 - sb2), p["Ye"][8] ** 2 * (1 - sb2)
        w = n * EFT[name][3](t, bb, l, p["g3"] ** 2)
        ctx.close(f"eft2:{name}", f"effective theory, two loops, {name}", a + b, w, TOL[name] * (abs(a) + abs(b) + abs(w)) + 3e-10 * abs(e[4]["eft2"][3]) / H,
                  f"two-loop scale dependence, {name}: {a:.5g} + {b:.5g}", reqs[k + 4])
        ctx.seen("effective theory, two loops", (name, k))
        devs.setdefault(name, []).append(abs(a + b - w) / (abs(a) + abs(b) + abs(w)))
    for name, t in TYPICAL.items():
        d = sorted(devs[name])[len(devs[name]) // 2]
        ctx.close(f"eft2-typical:{name}", f"effective theory, two loops, {name} (typical)", d, 0.0, t, f"median relative scale dependence, {name}")


SPLIT = {"at2+atab+ab2": ("Yd", ("yt^6", "yt^4*yb^2", "yt^2*yb^4", "yb^6")),
         "ab2+abatau+atau2": ("Yd", ("ytau^6", "ytau^4*yb^2", "ytau^2*yb^4", "yb^6"))}
NODES = (.05, .4, .75, 1.1)


def eft_split(ctx, exe):
    """the scale dependence is a homogeneous cubic polynomial in the squared Yukawa couplings: one relation per monomial"""
    r = ctx.rng("eft2split")
    jobs, reqs = [], []
    V = np.linalg.inv(np.vander(NODES, 4, increasing=True))
    for i in range(ctx.n(60, 1000)):
        for name, (var, mono) in SPLIT.items():
            one, two, sw, res = EFT[name]
            p = point(r, r.logu(1e4, 1e5), i)
            if not sw[2]:
                p["Ye"][8] = 1e-5
            if not sw[0]:
                p["Yu"][8] *= .5
            x = 1.6 * min(p["mq2"][8], p["mu2"][8]) ** .5
            if "YT6" in two and abs(p["mu"]) > x:
                p["mu"] = math.copysign(.97 * x, p["mu"])
            mix(p, *[r.uniform(-1.5, 1.5) for _ in range(3)])
            cb = (1 + (p["vu"] / p["vd"]) ** 2) ** -.5
            p["Ye"][8] = r.uniform(.3, .8) / cb if sw[2] else 1e-5
            mz = p["Yu"][8] * p["vu"] / 2 ** .5 * math.e
            jobs.append((name, p, len(reqs)))
            for s in NODES:
                y = p.copy()
                y[var][8] = s ** .5 / cb
                reqs += [eft_req(fix_mz(q, mz), one + two) for q in pair(rge.step, y, *sw) + pair(rge.at_scale, y) + [y]]
    ev = drvlib.run(exe, reqs)
    devs = {}
    for name, p, k in jobs:
        rows = []
        for j, s in enumerate(NODES):
            e = ev[k + 5 * j:k + 5 * j + 5]
            a, b = (e[0]["eft1"][3] - e[1]["eft1"][3]) / (2 * H), (e[2]["eft2"][3] - e[3]["eft2"][3]) / (2 * H)
            n = v2(p) / 2 * K * K
            sb2 = p["vu"] ** 2 / v2(p)
            w = n * EFT[name][3](p["Yu"][8] ** 2 * sb2, s, p["Ye"][8] ** 2 * (1 - sb2), p["g3"] ** 2)
            rows.append((a, b, w, 3e-10 * abs(e[4]["eft2"][3]) / H))
        M = np.array(rows)
        if not np.isfinite(M).all():
            ctx.count("not judged: nan")
            continue
        C, noise = V @ M[:, :3], np.abs(V) @ M[:, 3]
        for j, mono in enumerate(SPLIT[name][1]):
            a, b, w = C[j]
            sc = abs(a) + abs(b) + abs(w)
            devs.setdefault((name, mono), []).append(max(0.0, abs(a + b - w) - noise[j]) / sc)
        ctx.seen("effective theory, two loops, monomials of the Yukawa couplings", (name, k))
    for (name, mono), v in devs.items():
        d = sorted(v)[len(v) // 2]      # single points lie at the edge of a degenerate branch
        ctx.close(f"eft2-typical:{name}:{mono}", f"effective theory, two loops, coefficient of {mono}", d, 0.0, SPLIT_TOL.get(mono, 5e-4),
                  f"median relative scale dependence proportional to {mono} ({name}), {len(v)} points")


SPLIT_TOL = {"yt^6": 2e-3}


def two_loop_flow(p, d):
    """the O(g3^4) part of the two-loop beta functions"""
    q = p.copy()
    M, e = p["MG"], d * K * K * p["g3"] ** 4
    q["Yu"][8] *= 1 - 16 / 9 * e
    q["Au"][8] += 64 / 9 * e * M
    s3 = sum(2 * p["mq2"][k] + p["mu2"][k] + p["md2"][k] for k in (0, 4, 8))
    for k in ("mq2", "mu2", "md2"):
        q[k][8] += e * (-128 / 3 * M * M + 16 / 3 * s3)
    return q


def one_loop_flow(p, d):
    """the O(g3^2) part of the one-loop beta functions, explicit scale kept"""
    q = rge.step(p, d, 0, 0, 0, 1)
    M, e = p["MG"], d * K * p["g3"] ** 2
    q["scale"] = p["scale"]
    q["g3"] = p["g3"] * (1 - 3 * e)
    q["MG"] = M * (1 - 6 * e)
    for k in ("mq2", "mu2", "md2"):
        for i in (0, 4):
            q[k][i] -= e * 32 / 3 * M * M
    return q


def eft_three(ctx, exe):
    """O(at*as^2): beta(2) d(one loop) + beta(1) d(two loops) + d(three loops)/d lnQ = 0"""
    r = ctx.rng("eft3")
    jobs, reqs = [], []
    for i in range(ctx.n(60, 1500)):
        p = point(r, r.logu(2e4, 1e5), i)
        p["Yd"][8] = p["Ye"][8] = 1e-5
        p["MSt"] = [NAN, NAN]
        mz = p["Yu"][8] * p["vu"] / 2 ** .5 * math.e
        jobs.append((p, len(reqs)))
        reqs += [eft_req(fix_mz(q, mz), ("YT4", "G32YT4")) for f in (two_loop_flow, one_loop_flow, rge.at_scale) for q in pair(f, p)]
    ev = drvlib.run(exe, reqs)
    devs = []
    for p, k in jobs:
        e = ev[k:k + 6]
        if any("eft3" not in x for x in e):
            ctx.count("three loops: no hierarchy")
            continue
        a = (e[0]["eft1"][3] - e[1]["eft1"][3]) / (2 * H)
        b = (e[2]["eft2"][3] - e[3]["eft2"][3]) / (2 * H)
        c = (e[4]["eft3"][7] - e[5]["eft3"][7]) / (2 * H)
        s = abs(a) + abs(b) + abs(c)
        ctx.close("eft3", "effective theory, three loops", a + b + c, 0.0, 5e-3 * s, f"three-loop scale dependence: {a:.5g} + {b:.5g} + {c:.5g}", reqs[k + 4])
        ctx.seen("effective theory, three loops", k)
        devs.append(abs(a + b + c) / s)
    d = sorted(devs)[len(devs) // 2]
    ctx.close("eft3-typical", "effective theory, three loops (typical)", d, 0.0, 6e-4, "median relative scale dependence, three loops")


# residual scale dependence of the hierarchies, measured at the points below: (O(as), O(as^2)) relative to the largest contribution
H3 = .05
GS = (.05, .07, .09, .11)
HTOL = {"h3": (1e-5, 1e-2), "h4": (1e-5, 4e-2), "h5": (1e-4, 1e-2), "h6": (1e-4, 3e-2), "h6b": (1e-4, 4e-2), "h9": (1e-5, 3e-2)}


def strong_flow(p, h):
    """O(as) and O(as^2) evolution of the SUSY-QCD parameters over ln(Q) = h; vacuum expectation values fixed"""
    S = p06.msq(points.Point({**points.default(), **p})) ** 2

    def beta(y):
        g, yt, M, A, m = y[0], y[1], y[2], y[3], y[4:]
        s3 = g * g * (10 * S + m[2] + m[5])
        dm = -K * 32 / 3 * g * g * M * M + K * K * (-128 / 3 * g ** 4 * M * M + 16 / 3 * g * g * s3)
        return np.array([-3 * K * g ** 3 + 14 * K * K * g ** 5, yt * (-16 / 3 * K * g * g - 16 / 9 * K * K * g ** 4),
                         M * (-6 * K * g * g + 56 * K * K * g ** 4), 32 / 3 * K * g * g * M + 64 / 9 * K * K * g ** 4 * M] + [dm] * 9)

    y = np.array([p["g3"], p["Yu"][8], p["MG"], p["Au"][8]] + [p[k][4 * i] for k in ("mq2", "mu2", "md2") for i in range(3)])
    for _ in range(4):
        s = h / 4
        k1 = beta(y)
        k2 = beta(y + s / 2 * k1)
        k3 = beta(y + s / 2 * k2)
        k4 = beta(y + s * k3)
        y = y + s / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    q = points.Point(p)
    q["g3"], q["MG"] = y[0], y[2]
    q["Yu"], q["Au"] = points.diag(0, 0, y[1]), points.diag(0, 0, y[3])
    for j, k in enumerate(("mq2", "mu2", "md2")):
        q[k] = points.diag(*y[4 + 3 * j:7 + 3 * j])
    q["scale"], q["Mt"] = p["scale"] * math.exp(h), y[1] * p["vu"] / 2 ** .5
    return q


def hierarchies_three(ctx, exe):
    """one- + two- + three-loop hierarchy matrices and the DR' conversion are independent of Q through O(at*as^2)"""
    r = ctx.rng("hier3")
    jobs, reqs = [], []
    for name in ("h3", "h4", "h5", "h6", "h6b", "h9"):
        for t in range(ctx.n(5, 60)):
            while True:                             # tiny mixing angles are known to about 1e-8 only
                p = p09.tight_point(r, name)
                if abs(p["Au"][8] - p["mu"] * p["vd"] / p["vu"]) > .1 * p09.TIGHT[name][2] * (p["mq2"][8] * p["mu2"][8]) ** .25:
                    break
            p["Yu"] = points.diag(0, 0, .3)
            p["scale"] = (p["MG"] if name != "h9" else p["mq2"][8] ** .5) * r.logu(.6, 1.6)
            if name == "h6b":                       # this hierarchy expands in the difference of these masses (see P21)
                w = max(p["mq2"][8], p["mu2"][8]) ** .5 * r.uniform(.99, 1.01)
                for _ in range(3):
                    f = (w / p06.msq(points.Point({**points.default(), **p}))) ** 2
                    for k in ("mq2", "mu2", "md2"):
                        for g in (0, 4) if k != "md2" else (0, 4, 8):
                            p[k][g] *= f ** (12 / 10.5)
            pts = []
            for g in GS:
                p["g3"] = g
                pts += [strong_flow(p, h) for h in (-H3, H3, -2 * H3, 2 * H3)]
            jobs.append((name, t, pts, len(reqs)))
            for q in pts:
                reqs += ["hier 0 0 " + points.ser(q), "full 0 " + points.ser(q)]
    ev = drvlib.run(exe, reqs)
    devs = {}
    for name, t, pts, at in jobs:
        ms = [p06.msq(points.Point({**points.default(), **q})) for q in pts]
        for i, n in enumerate(p06.NAMES):
            if p06.MOTHER[n] != name:
                continue
            T = []
            for a, q in enumerate(pts):
                e, f = ev[at + 2 * a], ev[at + 2 * a + 1]
                if f"Mt41L_{i}" not in e or "mst_0" not in f:
                    break
                conv = p07.h3m_matrix(q, i, *f["mst_0"], ms[a])[0]
                T.append([[e[f"Mt41L_{i}"][k], e[f"Mt42L_{i}"][k], e[f"L3_{i}"][k], float(conv[k])] for k in (1, 3)])
            if len(T) < len(pts):
                ctx.count("hierarchies: no spectrum")
                continue
            T = np.array(T).reshape(len(GS), 4, 2, 4)
            D = (8 * (T[:, 1] - T[:, 0]) - (T[:, 3] - T[:, 2])) / (12 * H3)
            A = np.array([[g ** (2 * j) for j in (1, 2, 3, 4)] for g in GS])
            for j, k in ((0, "12"), (1, "22")):
                if name == "h4" and j == 0:
                    continue                    # dropped in this hierarchy: the off-diagonal element is suppressed by its expansion parameter
                c = np.linalg.solve(A, D[:, j])
                size = np.abs(np.linalg.solve(A, D[:, 1])).max(1) * (1 if j else .05)
                for o, (tol, what) in enumerate(zip(HTOL[name], ("O(at*as)", "O(at*as^2)"))):
                    dev = abs(c[o].sum()) / max(size[o], np.abs(c[o]).max())
                    devs.setdefault((n, what, k), []).append((dev, tol))
                    ctx.close(f"hier3:{n}:{what}:{k}", f"hierarchies, {what}, {name} ({k})", dev, 0.0, tol if j else 60 * tol,
                              f"scale dependence of the hierarchy {n} ({k}) at {what}: " + " + ".join(f"{x:.5g}" for x in c[o]), reqs[at])
            ctx.seen("hierarchies, scale dependence", (n, t))
    for (n, what, k), v in devs.items():
        d = sorted(x for x, _ in v)
        ctx.close(f"hier3-typical:{n}:{what}:{k}", f"hierarchies, {what} (typical)", d[len(d) // 2], 0.0, .7 * v[0][1], f"median scale dependence of the hierarchy {n} ({k}) at {what}")


def run(ctx):
    exe, _ = build.build_drv()
    fo_one(ctx, exe)
    fo_two(ctx, exe)
    eft_one(ctx, exe)
    eft_two(ctx, exe)
    eft_split(ctx, exe)
    eft_three(ctx, exe)
    hierarchies_three(ctx, exe)
    return ctx.finish("exercised", "distinct parameter points (and coupling combinations) at which the logarithmic derivative along the renormalisation-group flow was measured", 300)
