"""P13: the fixed-order and the effective-theory calculation agree for heavy superpartners."""
import math

import build
import drvlib
import points
from match import K, ONE, eft_req, flags, fo_req, fo_val, heavy, mix, one_loop_convention, set_sm, tc_req, tc_val, v2
from p12 import tc_names

M = 150.0          # all fermion masses of the two-loop comparisons


def F5(x):
    if abs(x - 1) < 1e-3:
        x = 1.001
    return 3 * x * (1 - x ** 4 + 2 * x * x * math.log(x * x)) / (1 - x * x) ** 3


def apart(p):
    """the degenerate branches of LAMBDA_YTAU6 are only approximate"""
    return abs(p["ml2"][8] / p["me2"][8] - 1) > .3


def cb2_(p):
    return p["vd"] ** 2 / v2(p)


def unit(p):
    return v2(p) / 2 * K * K * (2 * M * M / v2(p)) ** 3


def lm_(p):
    return 2 * math.log(p["scale"] / M)


class Family:
    """one combination of couplings: requests of a spectrum and the predicted difference"""

    def __init__(self, p):
        self.p = p


class Atas(Family):
    name, tol = "at_as", 1e-3
    typical = 0.0002

    def reqs(self):
        q = set_sm(self.p.copy(), M, 1, 1e-3, 1e-3)
        return [fo_req(q, ("G32YT4",), mom=0), eft_req(q, ("YT4", "G32YT4"))]

    def diff(self, e, T):
        n = v2(self.p) / 2 * K * K * (2 * M * M / v2(self.p)) ** 2 * self.p["g3"] ** 2
        f, g = fo_val(e[0])[1] / n, e[1]["eft2"][3] / n
        return f - g, 0.0, max(abs(f), 1000)


class Abas(Atas):
    name, tol = "ab_as", 3e-3
    typical = 0.0008

    def reqs(self):
        q = set_sm(self.p.copy(), M, 1, 1, 1e-3)
        r = set_sm(self.p.copy(), M, 1, 1e-3, 1e-3)
        return [fo_req(q, ("G32YB4",), mom=0), eft_req(q, ("YB4", "G32YB4")), fo_req(r, ("G32YB4",), mom=0), eft_req(r, ("YB4", "G32YB4"))]

    def diff(self, e, T):
        n = v2(self.p) / 2 * K * K * (2 * M * M / v2(self.p)) ** 2 * self.p["g3"] ** 2
        f = (fo_val(e[0])[1] - fo_val(e[2])[1]) / n
        g = (e[1]["eft2"][3] - e[3]["eft2"][3]) / n
        return f - g, -24 * T["YB_AS"], max(abs(f), 1000)


class TopBottom(Family):
    name, tol = "at2+atab+ab2", 1.5e-2
    typical = 0.005
    F = ("YT6", "YTAU6", "YTAU2YB4", "YTAU4YB2")
    E = ("YT4", "YB4", "YTAU4", "YT6", "YB6", "YB2YT4", "YT2YB4", "YTAU6", "YTAU2YB4", "YTAU4YB2")

    def reqs(self):
        o = []
        for rb in (1.001, 1e-3):
            q = set_sm(self.p.copy(), M, 1, rb, 1e-3)
            o += [fo_req(q, self.F), eft_req(q, self.E)]
        return o

    def diff(self, e, T):
        n = unit(self.p)
        f = (fo_val(e[0])[1] - fo_val(e[2])[1]) / n
        g = (e[1]["eft2"][3] - e[3]["eft2"][3]) / n
        c = cb2_(self.p)
        return f - g, -T["LAMBDA_YB4"] - T["LAMBDA_AT"] - 24 * T["YB_YB"] / c - 24 * T["YB_YT"] / (1 - c), max(abs(f), 3000)


class Tau(Family):
    name, tol = "atau2", 5e-3
    typical = 0.0005
    F = ("YTAU6", "YTAU2YB4", "YTAU4YB2")
    E = ("YB4", "YTAU4", "YB6", "YTAU6", "YTAU2YB4", "YTAU4YB2")

    def reqs(self):
        q = set_sm(self.p.copy(), M, 1e-6, 1e-3, 1)
        q["Mt"] = M
        return [fo_req(q, self.F), eft_req(q, self.E)]

    def diff(self, e, T):
        n = unit(self.p)
        f, g = fo_val(e[0])[1] / n, e[1]["eft2"][3] / n
        return f - g, -T["LAMBDA_YTAU4"] / 3 - 8 * T["YTAU_YTAU"] / cb2_(self.p), max(abs(f), 1500)


class BottomTau(Tau):
    name, tol = "ab*atau", 1.5e-2
    typical = 0.002

    def reqs(self):
        o = []
        for rb, rl in ((1, 1), (1, 1e-3), (1e-3, 1), (1e-3, 1e-3)):
            q = set_sm(self.p.copy(), M, 1e-6, rb, rl)
            q["Mt"] = M
            o += [fo_req(q, self.F), eft_req(q, self.E)]
        return o

    def diff(self, e, T):
        n, p = unit(self.p), self.p
        f = sum(s * fo_val(e[2 * i])[1] for i, s in enumerate((1, -1, -1, 1))) / n
        g = sum(s * e[2 * i + 1]["eft2"][3] for i, s in enumerate((1, -1, -1, 1))) / n
        tb = p["vu"] / p["vd"]
        m = {k: p[k][8] ** .5 for k in ("mq2", "md2", "ml2", "me2")}
        xb, xl = p["Ad"][8] - p["mu"] * tb, p["Ae"][8] - p["mu"] * tb
        dyl = -xb ** 2 * F5(m["mq2"] / m["md2"]) / (4 * m["mq2"] * m["md2"])
        dyb = -xl ** 2 * F5(m["ml2"] / m["me2"]) / (12 * m["ml2"] * m["me2"])
        return f - g, -T["LAMBDA_YB4"] / 3 - T["LAMBDA_YTAU4"] - 8 * dyl - 24 * dyb, max(abs(f), 2000)


class At2(Family):
    """LAMBDA_YT6 is evaluated at slightly displaced masses (exact branch close to degeneracy), but
    with Y_t of the undisplaced mu: small effect, except for large mu"""

    def __init__(self, p):
        x = 1.6 * min(p["mq2"][8], p["mu2"][8]) ** .5
        if abs(p["mu"]) > x:
            p = p.with_(mu=math.copysign(x * .97, p["mu"]))
        self.p = p
    name, tol = "at2", 4e-2
    typical = 0.002

    def reqs(self):
        p = set_sm(self.p.copy(), M, 1, 1e-3, 1e-3)
        q = p.copy()
        x = p["Au"][8] - p["mu"] * p["vd"] / p["vu"]
        d = .02 if p["mq2"][8] > p["mu2"][8] else -.02
        q["mq2"] = points.diag(*p["mq2"][0:8:4], p["mq2"][8] * (1 + d))
        q["mu2"] = points.diag(*p["mu2"][0:8:4], p["mu2"][8] * (1 - d))
        q["mu"] = p["mu"] * 1.03 ** .5
        q["Au"] = points.diag(0, 0, x + q["mu"] * p["vd"] / p["vu"])
        return [fo_req(q, ("YT6",), only_at=1), eft_req(q, ("YT4", "YT6")), tc_req(q), tc_req(p)]

    def diff(self, e, T):
        n = unit(self.p)
        f, g = fo_val(e[0])[1] / n, e[1]["eft2"][3] / n
        k = "LAMBDA_YT6"
        return f - g, tc_val(e[3], NAMES)[k] - tc_val(e[2], NAMES)[k], max(abs(f), 1500)


class At2Degenerate(Family):
    """exact branch of LAMBDA_YT6 for equal stop and heavy Higgs masses"""
    name, tol = "at2 (degenerate)", 3e-3
    typical = 0.001

    def reqs(self):
        p = set_sm(self.p.copy(), M, 1, 1e-3, 1e-3)
        x = p["Au"][8] - p["mu"] * p["vd"] / p["vu"]
        m = p["mq2"][8]
        p["mq2"][8] = m
        p["mu2"][8], p["MA"] = m * 1.0001, m ** .5
        return [fo_req(p, ("YT6",), only_at=1), eft_req(p, ("YT4", "YT6"))]

    def diff(self, e, T):
        n = unit(self.p)
        f, g = fo_val(e[0])[1] / n, e[1]["eft2"][3] / n
        return f - g, 0.0, max(abs(f), 1500)


NAMES = tc_names()[:-1]
FAMILIES = (At2, At2Degenerate, Atas, Abas, TopBottom, Tau, BottomTau)
# universal (spectrum independent) remainder of the predicted difference: polynomial in log(Q^2/m^2)
CONST = {"at2+atab+ab2": (-16.891, 49.2154), "atau2": (0.0, 26 / 3), "ab*atau": (0.0, 22.0)}
SCALES = {"at2+atab+ab2": (3e4, 8e4), "atau2": (5e4, 1.5e5), "ab*atau": (5e4, 1.5e5)}


def const(name, lm):
    return sum(c * lm ** i for i, c in enumerate(CONST.get(name, (0.0,))))


def spectrum(r, MS, i):
    tb = r.logu(.7, 5)
    while True:
        p = heavy(r, MS, tb, f"x{i}")
        if apart(p):
            break
    p["vu"], p["vd"] = 246 * tb / (1 + tb * tb) ** .5, 246 / (1 + tb * tb) ** .5
    p["scale"] = MS * r.logu(.5, 2)
    mix(p, *[r.uniform(-1.5, 1.5) for _ in range(3)])
    return p


def two_loop(ctx, exe):
    n = ctx.n(300, 6000)
    for F in FAMILIES:
        r = ctx.rng(F.name)
        lo, hi = SCALES.get(F.name, (4e4, 1.5e5))
        fs = [F(spectrum(r, r.logu(lo, hi), i)) for i in range(n)]
        reqs, pos = [], []
        for f in fs:
            q = f.reqs()
            pos.append((len(reqs), len(q)))
            reqs += q + [tc_req(set_sm(f.p.copy(), M, 1, 1, 1))]
        ev = drvlib.run(exe, reqs)
        devs = []
        for f, (a, k) in zip(fs, pos):
            e = ev[a:a + k]
            if any("crash" in x or "exception" in x for x in e + [ev[a + k]]):
                ctx.violate(f"{F.name}:failure", str([x.get("exception", "crash") for x in e if "m2" not in x][:1]), reqs[a])
                continue
            d, pr, scale = f.diff(e, tc_val(ev[a + k], NAMES))
            if d != d:
                ctx.count("not judged: cancellation")
                continue
            devs.append(abs(d - pr - const(F.name, lm_(f.p))) / scale)
            ctx.close(f"two-loop:{F.name}", f"two-loop {F.name}", d, pr + const(F.name, lm_(f.p)), F.tol * scale,
                      f"{F.name}: fixed order minus effective theory (normalised, MS = {f.p['scale']:.0f})", "\n".join(reqs[a:a + k]))
            ctx.seen("two-loop", (F.name, a))
        devs.sort()
        ctx.close(f"two-loop-typical:{F.name}", f"two-loop {F.name} (typical)", devs[len(devs) // 2] if devs else 0.0, 0.0, F.typical / 4,
                  f"{F.name}: median deviation relative to the correction")


def one_loop(ctx, exe):
    """all couplings: momentum p^2 = tree-level mass, known convention differences subtracted"""
    r = ctx.rng("one")
    ps = []
    for i in range(ctx.n(600, 12000)):
        p = spectrum(r, r.logu(6e4, 2e5), i)
        tb = p["vu"] / p["vd"]
        p["Yu"] = points.diag(0, 0, r.uniform(.5, 1) * (1 + tb ** -2) ** .5)
        p["Yd"] = points.diag(0, 0, r.logu(.01, .5))
        p["Ye"] = points.diag(0, 0, r.logu(.01, .5))
        for k in ("Mt", "Mb", "Mtau"):
            p[k] = float("nan")
        ps.append(p)
    spec = drvlib.run(exe, ["spec 1 " + points.ser(p) for p in ps])
    reqs, ts = [], []
    for p, s in zip(ps, spec):
        tb = p["vu"] / p["vd"]
        t = (s["MZ"] * (1 - tb * tb) / (1 + tb * tb)) ** 2
        ts.append(t)
        reqs += [fo_req(p, (), mom=0, p2=t), eft_req(p, ONE)]
    ev = drvlib.run(exe, reqs)
    for i, (p, t) in enumerate(zip(ps, ts)):
        a, b = ev[2 * i:2 * i + 2]
        f = first_order(a["m0"], a["m1"])
        want = one_loop_convention(p, t)
        ctx.close("one-loop", "one loop", f - b["eft1"][3], want, 0.15 + 0.3 * (1e5 / p["scale"]) ** 2,
                  f"one-loop fixed order ({f:.3f}) minus effective theory", reqs[2 * i])
        ctx.seen("one-loop", i)
        # tree level
        ctx.close("tree", "tree level", b["eft0"], t, 1e-9 * t, "tree-level mass of the effective theory", reqs[2 * i + 1])


def first_order(m0, m1):
    import numpy as np
    w, v = np.linalg.eigh(np.array(m0).reshape(2, 2))
    u = v[:, 0]
    return float(u @ np.array(m1).reshape(2, 2) @ u)


def public(ctx, exe):
    """the numbers of the results object"""
    r = ctx.rng("public")
    ps = [points.susy(r, MS=r.logu(2e4, 3e5), tb=r.logu(1.2, 30), xt=r.uniform(-2, 2), q_rel=r.logu(.6, 1.6), mu_rel=r.sign() * r.logu(.4, 1.5), ma_rel=r.logu(.5, 2))
          for _ in range(ctx.n(150, 3000))]
    for p in ps:
        p["MW"] = p["MZ"] = float("nan")
    reqs = ["full 0 " + points.ser(p) for p in ps]
    for p, q, e in zip(ps, reqs, drvlib.run(exe, reqs)):
        if "exception" in e:
            ctx.count("no hierarchy")
            continue
        MS = min(p["mq2"][8], p["mu2"][8], p["MA"] ** 2) ** .5
        f, g, a = e["DMh2FOAt"], e["DMh2EFT"], e["DMh2FO"]
        small = 1e4 / MS ** 2
        ctx.close("public0", "public tree", a[0], g[0], 30 * small * max(g[0], 1) + 1e-7, "tree-level DMh2FO(0) - DMh2EFT(0)", q)
        ctx.close("public:at0", "public tree (at)", f[0], 0.0, 1e-6, "DMh2FOAt(0)", q)
        ctx.close("public1", "public one loop", f[1], g[1], abs(g[1]) * 3000 * small + 1e-4 + 1e-15 * MS * MS, "DMh2FOAt(1) - DMh2EFT(1)", q)
        ctx.close("public2", "public two loop", f[2], g[2], .01 * abs(g[2]) + 15, "DMh2FOAt(2) - DMh2EFT(2)", q)
        ctx.seen("public", q)


def run(ctx):
    exe, _ = build.build_drv()
    two_loop(ctx, exe)
    one_loop(ctx, exe)
    public(ctx, exe)
    return ctx.finish("exercised", "distinct heavy spectra on which both calculations were evaluated and compared", 200)
