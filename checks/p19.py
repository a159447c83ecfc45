"""P19: the tree-level spectrum obeys the exact relations of the model."""
import math

import numpy as np

import build
import drvlib
import points

SF = {  # name: (generation, soft left, soft right, Yukawa, trilinear, up-type, T3, Q)
    "Su": (0, "mq2", "mu2", None, None, 1, .5, 2 / 3), "Sc": (1, "mq2", "mu2", None, None, 1, .5, 2 / 3), "St": (2, "mq2", "mu2", "Yu", "Au", 1, .5, 2 / 3),
    "Sd": (0, "mq2", "md2", None, None, 0, -.5, -1 / 3), "Ss": (1, "mq2", "md2", None, None, 0, -.5, -1 / 3), "Sb": (2, "mq2", "md2", "Yd", "Ad", 0, -.5, -1 / 3),
    "Se": (0, "ml2", "me2", None, None, 0, -.5, -1.0), "Sm": (1, "ml2", "me2", None, None, 0, -.5, -1.0), "Stau": (2, "ml2", "me2", "Ye", "Ae", 0, -.5, -1.0),
}


def mat(x, n=2):
    return np.array(x, float).reshape(n, n)


def expected(p):
    """mass matrices of the model in textbook form (Martin, Haber/Kane), from mixing angle and boson masses"""
    vu, vd, g2 = p["vu"], p["vd"], p["g2"]
    gy2 = .6 * p["g1"] ** 2
    v2 = vu * vu + vd * vd
    tb = vu / vd
    c2b = (vd * vd - vu * vu) / v2
    sb, cb = vu / math.sqrt(v2), vd / math.sqrt(v2)
    mz2, mw2 = (gy2 + g2 * g2) * v2 / 4, g2 * g2 * v2 / 4
    sw2 = gy2 / (gy2 + g2 * g2) if g2 or gy2 else 0.0
    out, mag = {}, {}
    for n, (g, ml, mr, Y, A, up, t3, q) in SF.items():
        y = p[Y][8] if Y else 0.0
        mf = y * (vu if up else vd) / math.sqrt(2)
        x = mf * (p[A][8] - p["mu"] * (1 / tb if up else tb)) if Y else 0.0
        dl, dr = mz2 * c2b * (t3 - q * sw2), mz2 * c2b * q * sw2
        l, r = p[ml][4 * g], p[mr][4 * g]
        out[n] = np.array([[l + mf * mf + dl, x], [x, r + mf * mf + dr]])
        mag[n] = abs(l) + abs(r) + 2 * mf * mf + mz2 + (abs(mf) * (abs(p[A][8]) + abs(p["mu"]) * (1 / tb if up else tb)) if Y else 0)
    ma2 = p["MA"] ** 2
    R = np.array([[sb * sb, -sb * cb], [-sb * cb, cb * cb]])
    out["hh"] = ma2 * R + mz2 * np.array([[cb * cb, -sb * cb], [-sb * cb, sb * sb]])
    Rp = np.array([[sb * sb, sb * cb], [sb * cb, cb * cb]])
    G = np.array([[cb * cb, -sb * cb], [-sb * cb, sb * sb]])
    out["Ah"] = ma2 * Rp + mz2 * G
    out["Hpm"] = ma2 * Rp + mw2 * np.eye(2)
    for n in ("hh", "Ah", "Hpm"):
        mag[n] = ma2 + mz2 + mw2
    mz, mw, sw, cw = math.sqrt(mz2), math.sqrt(mw2), math.sqrt(sw2), math.sqrt(1 - sw2)
    N = np.zeros((4, 4))
    N[0, 0], N[1, 1], N[2, 3] = p["M1"], p["M2"], -p["mu"]
    N[0, 2], N[0, 3], N[1, 2], N[1, 3] = -cb * sw * mz, sb * sw * mz, cb * cw * mz, -sb * cw * mz
    out["Chi"] = np.triu(N) + np.triu(N, 1).T
    mag["Chi"] = abs(p["M1"]) + abs(p["M2"]) + abs(p["mu"]) + mz
    out["Cha"] = np.array([[p["M2"], math.sqrt(2) * sb * mw], [math.sqrt(2) * cb * mw, p["mu"]]])
    mag["Cha"] = abs(p["M2"]) + abs(p["mu"]) + mw
    sv = {f"S{v}L": p["ml2"][4 * g] + .5 * mz2 * c2b for g, v in enumerate(("ve", "vm", "vt"))}
    return out, mag, sv, dict(mz2=mz2, mw2=mw2, ma2=ma2, c2b=c2b, s2b=2 * sb * cb, sb=sb, cb=cb)


def workload(ctx):
    r = ctx.rng("points")
    pts = []
    for _ in range(ctx.n(500)):
        p = points.mixed(r)
        c = r.random()
        if c < .1:
            p["MA"] *= r.choice((0.0, 1e-3, .05, 50.0))
        elif c < .2:
            p["M1"] = r.choice((p["M2"], -p["M2"], 0.0, p["mu"], p["M2"] * (1 + 1e-10)))
        elif c < .3:
            p["mu"] = r.choice((0.0, p["M2"], -p["M2"], 1e-3, 1e6))
        elif c < .4:
            p["Au"][8] = p["mu"] * p["vd"] / p["vu"]
        elif c < .45:
            p["vd"], p["vu"] = p["vu"], p["vd"]
        elif c < .5:
            p["vd"] = p["vu"] * r.choice((1.0, .99999, 1e-3))
        elif c < .6:
            p["mu2"][8] = p["mq2"][8]
            p["md2"][8] = p["mq2"][8] * (1 + r.choice((0, 1e-12, -1e-6)))
        elif c < .65:
            p["mq2"][8] *= 1e-3          # possibly tachyonic third generation
        # independent values for every entry that the spectrum reads
        for k in ("mq2", "mu2", "md2", "ml2", "me2"):
            for g in (0, 4):
                p[k][g] *= r.uniform(.7, 1.4)
        if r.random() < .5:
            for k in ("Au", "Ad", "Ae"):
                p[k][0], p[k][4] = r.uniform(-1e3, 1e3), r.uniform(-1e3, 1e3)
        val = r.random() < .5
        if not val:
            if r.random() < .4:
                p["g1"] = p["g2"] = 0.0
            elif r.random() < .2:
                p["g1"] = 0.0
        pts.append((p, int(val)))
    return pts


def spectrum(ctx, exe):
    pts = workload(ctx)
    reqs = [f"spec {v} {points.ser(p)}" for p, v in pts]
    for (p0, v), rq, e in zip(pts, reqs, drvlib.run(exe, reqs)):
        if "crash" in e:
            ctx.violate("crash", f"crash {e['crash']}", rq)
            continue
        if "exception" in e:
            ctx.count("rejected inputs")
            continue
        p = {k: e[k] for k in points.ORDER if k in e}
        M, mag, sv, c = expected(p)
        gl = p["g2"] == 0
        s2 = math.sqrt(2)
        ctx.close("mass: W", "W", e["VWm"], c["mw2"], 1e-13 * (c["mw2"] + 1e-300), "squared W mass", rq)
        ctx.close("mass: Z", "Z", e["VZ"], c["mz2"], 1e-13 * (c["mz2"] + 1e-300), "squared Z mass", rq)
        for n, y, w in (("Ft", "Yu", "vu"), ("Fb", "Yd", "vd"), ("Ftau", "Ye", "vd")):
            x = p[y][8] * p[w] / s2
            ctx.close("mass: " + n, "fermion", e[n], x, 1e-13 * abs(x) + 1e-300, f"M{n}", rq)
        for n, x in sv.items():
            ctx.close("mass: " + n, "sneutrino", e[n], x, 1e-13 * (abs(x) + c["mz2"]), f"squared sneutrino mass {n}", rq)
        for n, want in M.items():
            k = len(want)
            got = mat(e["mm_" + n], k)
            ctx.seen("mass matrices", (n, gl))
            for i in range(k):
                for j in range(k):
                    ctx.close(f"matrix: {n}", "mass matrices", got[i, j], want[i, j], 3e-13 * mag[n] + 1e-300, f"mass matrix {n}({i},{j})", rq)
            m = np.array(e["M_" + n], float)
            norm = max(np.abs(want).max(), 1e-300)
            if n == "Cha":
                U, V = mat(e["UM"]), mat(e["UP"])
                d = U @ want @ V.T
                d2 = U.T @ np.diag(m) @ V      # convention m = U^T diag V
                for Z, nm in ((U, "UM"), (V, "UP")):
                    ctx.close("unitarity: " + nm, "orthogonality", np.abs(Z @ Z.T - np.eye(2)).max(), 0, 1e-13, f"{nm} orthogonal", rq)
                ctx.close("diagonalised: Cha", "diagonalised", np.abs(d - np.diag(m)).max(), 0, 1e-13 * norm, "U* M V^-1 = diag(MCha)", rq)
                ctx.close("reconstruct: Cha", "diagonalised", np.abs(d2 - want).max(), 0, 1e-13 * norm, "M = U^T diag V", rq)
                if not (0 <= m[0] <= m[1]):
                    ctx.violate("order: Cha", f"chargino masses {m}", rq)
                # sum rules
                ctx.close("sum: Cha", "sum rules", (m ** 2).sum(), p["M2"] ** 2 + p["mu"] ** 2 + 2 * c["mw2"], 1e-12 * norm ** 2, "sum of squared chargino masses", rq)
                ctx.close("det: Cha", "sum rules", m[0] * m[1], abs(p["M2"] * p["mu"] - c["mw2"] * c["s2b"]), 1e-12 * norm ** 2, "product of chargino masses", rq)
                continue
            Z = mat(e["Z_" + n], k)
            ctx.close("unitarity: " + n, "orthogonality", np.abs(Z @ Z.T - np.eye(k)).max(), 0, 1e-13, f"rotation {n} orthogonal", rq)
            ctx.close("diagonalised: " + n, "diagonalised", np.abs(Z @ want @ Z.T - np.diag(m)).max(), 0, 1e-12 * norm, f"Z M Z^T = diag for {n}", rq)
            a = np.abs(m)
            if not all(a[i] <= a[i + 1] * (1 + 1e-12) for i in range(k - 1)):
                ctx.violate("order: " + n, f"masses of {n} not ordered: {m}", rq)
            ctx.close("trace: " + n, "sum rules", m.sum(), np.trace(want), 1e-12 * norm, f"trace of {n}", rq)
            ctx.ev()
            if n in SF:
                g, l, rr = SF[n][:3]
                l, rr = p[l][4 * g], p[rr][4 * g]
                y = e["F" + {"St": "t", "Sb": "b", "Stau": "tau"}[n]] if n in ("St", "Sb", "Stau") else 0
                ctx.close("sum: " + n, "sum rules", m.sum(), l + rr + 2 * y * y + SF[n][6] * c["mz2"] * c["c2b"], 1e-12 * mag[n], f"supertrace of {n}", rq)
            elif n == "hh":
                ctx.close("sum: hh", "sum rules", m.sum(), c["ma2"] + c["mz2"], 1e-12 * mag[n], "mh^2 + mH^2 = mA^2 + mZ^2", rq)
                ctx.close("det: hh", "sum rules", m[0] * m[1], c["ma2"] * c["mz2"] * c["c2b"] ** 2, 1e-12 * mag[n] * max(norm, abs(m[1])), "mh^2 mH^2 = mA^2 mZ^2 cos^2(2 beta)", rq)
                if m[0] > min(c["ma2"], c["mz2"]) * c["c2b"] ** 2 * (1 + 1e-9) + 1e-12 * mag[n] and m[0] > c["mz2"] * c["c2b"] ** 2 * (1 + 1e-9) + 1e-12 * mag[n]:
                    ctx.violate("bound: hh", f"tree-level bound mh <= mZ |cos 2beta| violated: {m}", rq)
            elif n in ("Ah", "Hpm"):
                gs, ph = (c["mz2"], c["ma2"]) if n == "Ah" else (c["mw2"], c["ma2"] + c["mw2"])
                w = sorted((gs, ph))
                for i in (0, 1):
                    ctx.close("goldstone: " + n, "Goldstone", m[i], w[i], 1e-12 * mag[n] + 1e-300, f"{n} eigenvalues are Goldstone and physical mass", rq)
                if abs(gs - ph) > 1e-6 * mag[n]:
                    i = 0 if gs < ph else 1
                    d = np.array([c["cb"], -c["sb"]])
                    ctx.close("goldstone direction: " + n, "Goldstone", abs(Z[i] @ d), 1, 1e-9, f"Goldstone boson of {n} points along the vacuum", rq)
                    ctx.seen("Goldstone position", (n, i))
            elif n == "Chi":
                ctx.close("sum: Chi", "sum rules", (m ** 2).sum(), p["M1"] ** 2 + p["M2"] ** 2 + 2 * p["mu"] ** 2 + 2 * c["mz2"], 1e-12 * norm ** 2, "sum of squared neutralino masses", rq)
                ctx.close("trace: Chi", "sum rules", m.sum(), p["M1"] + p["M2"], 1e-12 * norm, "sum of neutralino masses", rq)
                gy2 = .6 * p["g1"] ** 2
                v2 = p["vu"] ** 2 + p["vd"] ** 2
                # det = -mu^2 M1 M2 + mu s2b (M1 mw^2 + M2 mz^2 sw^2)
                det = -p["mu"] ** 2 * p["M1"] * p["M2"] + p["mu"] * c["s2b"] * (p["M1"] * c["mw2"] + p["M2"] * gy2 * v2 / 4)
                ctx.close("det: Chi", "sum rules", np.prod(m), det, 1e-11 * norm ** 4, "product of neutralino masses", rq)
                ctx.seen("neutralino signs", tuple(m > 0))
        # relation between sectors
        ctx.close("relation: H+ A", "sum rules", sum(e["M_Hpm"]) - sum(e["M_Ah"]), 2 * e["VWm"] - e["VZ"], 1e-12 * mag["hh"], "mH+^2 = mA^2 + mW^2 (with Goldstone bosons)", rq)
        up, dn = e["mm_Su"], e["mm_Sd"]
        for g, (a, b) in enumerate((("Su", "Sd"), ("Sc", "Ss"), ("St", "Sb"))):
            mfa, mfb = (e["Ft"], e["Fb"]) if g == 2 else (0, 0)
            ctx.close("relation: doublet", "sum rules", (e["mm_" + b][0] - mfb ** 2) - (e["mm_" + a][0] - mfa ** 2), -c["mw2"] * c["c2b"], 1e-12 * mag[b], "splitting within the squark doublet", rq)
        for g, (a, b) in enumerate((("SveL", "Se"), ("SvmL", "Sm"), ("SvtL", "Stau"))):
            mf = e["Ftau"] if g == 2 else 0
            ctx.close("relation: slepton doublet", "sum rules", e["mm_" + b][0] - mf ** 2 - e[a], -c["mw2"] * c["c2b"], 1e-12 * mag[b], "splitting within the slepton doublet", rq)
        ctx.count("spectra")


def agreement(ctx, exe):
    """the tree level of all calculators"""
    r = ctx.rng("tree")
    pts = []
    for _ in range(ctx.n(120)):
        p = points.mixed(r)
        if r.random() < .2:
            p["MA"] = r.choice((20.0, 60.0, 91.0, 95.0, 120.0, 5e4))
        if r.random() < .15:
            p["vd"] = p["vu"] * r.uniform(.9, 1.1)
        pts.append(p)
    S = [points.ser(p) for p in pts]
    nz = [f"fo {a} {d} 0 0 0x0p+0 {s}" for s in S for a in (0, 1) for d in (0, 1)]
    fo = drvlib.run(exe, nz)
    eft = drvlib.run(exe, [f"eft 0 {s}" for s in S])
    calc = drvlib.run(exe, [f"calc 0 {s}" for s in S])
    for i, p in enumerate(pts):
        f = fo[4 * i:4 * i + 4]
        if any("exception" in x or "crash" in x for x in f + [eft[i]]):
            if any("crash" in x for x in f + [eft[i], calc[i]]):
                ctx.violate("crash", "crash", nz[4 * i])
            ctx.count("rejected inputs")
            continue
        e = f[0]
        M, mag, sv, c = expected(e)
        # exact lighter eigenvalue without cancellation
        tr = c["ma2"] + c["mz2"]
        big = (tr + math.sqrt((c["ma2"] - c["mz2"]) ** 2 + 4 * c["ma2"] * c["mz2"] * c["s2b"] ** 2)) / 2
        mh2 = c["ma2"] * c["mz2"] * c["c2b"] ** 2 / big
        tol = 1e-12 * big
        ctx.seen("tree-level regions", (c["ma2"] < c["mz2"], round(math.log(e["vu"] / e["vd"])), round(math.log10(c["ma2"]))))
        for x, d in ((f[0], 0), (f[1], 1)):
            ctx.close("tree: fixed order", "tree level", x["mh2"][0], mh2, tol, f"tree-level mh^2, diagonalisation mode {d}", nz[4 * i + d])
            ctx.close("matrix: m0", "tree level", np.abs(mat(x["m0"]) - M["hh"]).max(), 0, 1e-12 * mag["hh"], "tree-level matrix of the fixed-order calculation", nz[4 * i])
            G = M["hh"] - expected(dict(e, MA=0.0))[0]["hh"]
            ctx.close("matrix: m0gl", "tree level", np.abs(mat(x["m0gl"]) - G).max(), 0, 1e-12 * mag["hh"], "gaugeless tree-level matrix", nz[4 * i])
        for x, d in ((f[2], 0), (f[3], 1)):
            ctx.close("tree: only at", "tree level", x["mh2"][0], 0, 1e-10 * big, "tree-level mh^2 with only top-Yukawa contributions", nz[4 * i + 2 + d])
        ctx.close("tree: effective theory", "tree level", eft[i]["eft0"], c["mz2"] * c["c2b"] ** 2 if math.isnan(p["MZ"]) else p["MZ"] ** 2 * c["c2b"] ** 2, 1e-12 * c["mz2"], "tree-level mh^2 of the effective theory", nz[4 * i])
        a = calc[i]
        if "exception" not in a and "crash" not in a:
            ctx.close("tree: main fixed order", "tree level", a["DMh2FO"][0], mh2, tol, "tree-level mh^2 in the main result", "calc 0 " + S[i])
            ctx.close("tree: main effective theory", "tree level", a["DMh2EFT"][0], eft[i]["eft0"], tol, "tree-level mh^2 (effective theory) in the main result", "calc 0 " + S[i])
            ctx.close("tree: main only at", "tree level", a["DMh2FOAt"][0], 0, 1e-10 * big, "tree-level mh^2 (only at) in the main result", "calc 0 " + S[i])
            # decoupling: the two agree up to mZ^4/mA^2
            ctx.close("tree: decoupling", "tree level", eft[i]["eft0"] - mh2, c["mz2"] ** 2 / big * c["c2b"] ** 2 * c["s2b"] ** 2, 3 * (c["mz2"] / big) ** 2 * c["mz2"] + tol, "difference of the tree levels at large mA", nz[4 * i])
        ctx.count("tree-level comparisons")


def run(ctx):
    exe, _ = build.build_drv()
    ctx.log("built")
    spectrum(ctx, exe)
    agreement(ctx, exe)
    return ctx.finish("exploration", "distinct (matrix, limit), sign patterns and tree-level regions", 30)
