"""P09: conversions between renormalisation schemes, judged against series inversion, derivatives and order counting."""
import math

import numpy as np

import build
import drvlib
import points
from p06 import MOTHER, NAMES, msq
from p12 import tc_names

RAW, DR = 4, 1
LIMITS = ("GENERAL", "MQ3_EQ_MU3", "MQ3_EQ_M3", "MU3_EQ_M3", "MQ3_EQ_MU3_EQ_M3", "DEGENERATE")
K = 1 / (16 * math.pi ** 2)


class Ser:
    """power series in the strong coupling a, up to a^2"""

    def __init__(self, *c):
        self.c = list(c) + [0.0] * (3 - len(c))

    def __mul__(self, o):
        o = o if isinstance(o, Ser) else Ser(o)
        return Ser(*[sum(self.c[j] * o.c[i - j] for j in range(i + 1)) for i in range(3)])

    def __add__(self, o):
        return Ser(*[x + y for x, y in zip(self.c, o.c)])

    def of(self, a):
        """substitute a series without constant term for the expansion variable"""
        return Ser(self.c[0]) + Ser(self.c[1]) * a + Ser(self.c[2]) * a * a

    def inverse(self):
        c0, c1, c2 = self.c
        return Ser(1 / c0, -c1 / c0 ** 2, c1 * c1 / c0 ** 3 - c2 / c0 ** 2)

    def power(self, n):
        out = Ser(1.0)
        for _ in range(n):
            out = out * self
        return out


def reexpand(g, y, y2, l1, l2, l3):
    """
    thresholds in terms of SM couplings: a' = a (1 + 2 a g + ...) [alpha_s of the MSSM from that of the SM],
    yt' = yt (1 + a y + a^2 y2); lambda = yt^4 (l1 + a l2 + a^2 l3).  Returns the same corrections in terms of the MSSM couplings.
    """
    # a as a series in a': invert a' = a + 2 g a^2 (the next term is not needed)
    a = Ser(0.0, 1.0, -2 * g)
    y_ratio = Ser(1.0, y, y2).of(a).inverse()          # yt / yt' in a'
    lam = y_ratio.power(4) * Ser(l1, l2, l3).of(a)
    return dict(G3_AS=-g, YT_AS=y_ratio.c[1], YT_AS2=y_ratio.c[2], LAMBDA_AT=lam.c[0], LAMBDA_AT_AS=lam.c[1], LAMBDA_AT_AS2=lam.c[2])


def point(r, limit, sep=.08):
    """well separated masses up to the coincidences that define the limit"""
    while True:
        p = points.susy(r)
        m = r.logu(500, 1e4)
        q, u, g = (m * r.logu(.4, 2.5) for _ in range(3))
        if limit in (1, 4, 5):
            u = q
        if limit in (2, 4, 5):
            g = q
        if limit == 3:
            g = u
        s = [q, u, g, math.sqrt(p["mq2"][0])]
        if any(1e-9 < abs(a / b - 1) < sep for a in s[:3] for b in s[:3]):
            continue
        p["mq2"][8], p["mu2"][8], p["MG"] = q * q, u * u, g
        if limit == 5:
            for k in ("mq2", "mu2", "md2"):
                p[k] = points.diag(q * q, q * q, q * q)
        p["scale"] = m * r.logu(.4, 2.5)
        p["massLimit3LThreshold"] = 0
        if limit == 5:
            # the average squark mass includes D-terms of the sbottoms
            p["mu2"][0] *= (q / msq(points.Point({**points.default(), **p}))) ** 20
        return p


def thresholds(ctx, exe):
    r = ctx.rng("thresholds")
    names = tc_names()
    idx = {n: i for i, n in enumerate(names)}
    reqs, meta = [], []
    for _ in range(ctx.n(70, 1500)):
        for lim in range(6):
            p = point(r, lim)
            x = r.choice((-1, 0, 3, 4, 5))
            reqs.append(f"tc {lim} {x} " + points.ser(p))
            meta.append(lim)
            if r.random() < .2:
                p["Au"][8] = p["mu"] * p["vd"] / p["vu"]         # no mixing
                reqs.append(f"tc {lim} {x} " + points.ser(p))
                meta.append(lim)
    for rq, lim, e in zip(reqs, meta, drvlib.run(exe, reqs)):
        if "tc" not in e:
            ctx.count("exceptions" if "exception" in e else "crashes")
            if "crash" in e:
                ctx.violate("crash", "crash", rq)
            continue
        for om in (0, 1):
            def tc(n, s):
                return e["tc"][(om * 45 + idx[n]) * 5 + s]
            args = [tc(n, RAW) for n in ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2")]
            if any(a != a or abs(a) == math.inf for a in args):
                ctx.violate(f"finite {LIMITS[lim]}", f"threshold correction not finite: {args}", rq)
                continue
            want = reexpand(*args)
            back = reexpand(*[tc(n, DR) for n in ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2")])
            big = reexpand(*map(abs, args))
            b2 = reexpand(*[-abs(tc(n, DR)) for n in ("G3_AS", "YT_AS", "YT_AS2")], *[abs(tc(n, DR)) for n in ("LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2")])
            g, y, y2, l1, l2, l3 = map(abs, args)
            mags = dict(G3_AS=g, YT_AS=y, YT_AS2=2 * g * y + y * y + y2, LAMBDA_AT=l1, LAMBDA_AT_AS=l2 + 4 * l1 * y,
                        LAMBDA_AT_AS2=l3 + l2 * (2 * g + 4 * y) + l1 * (8 * g * y + 10 * y * y + 4 * y2))
            for n, w in want.items():
                tol = 1e-12 * mags[n] + 1e-290
                ctx.close(f"{n} {LIMITS[lim]} {'log' if om else 'nolog'}", n, tc(n, DR), w, tol, f"{n} in the DR' scheme from the MSbar one, limit {LIMITS[lim]}", rq)
                ctx.close(f"back {n} {LIMITS[lim]}", n, back[n], tc(n, RAW), 3e-12 * max(mags[n], abs(big[n]), abs(b2[n])) + 1e-290,
                          f"{n} converted to DR' and back, limit {LIMITS[lim]}", rq)
                ctx.seen("threshold identities", (n, lim, om))


def truncation(ctx, exe):
    """the MSbar shift of lambda with the powers of Xt above xtOrder left out"""
    r = ctx.rng("truncation")
    names = tc_names()
    i3 = names.index("LAMBDA_AT_AS2")
    N = 13
    cheb = [1.6 * math.cos(math.pi * (2 * j + 1) / (2 * N)) for j in range(N)]
    reqs, meta = [], []
    for _ in range(ctx.n(8, 150)):
        for lim in range(6):
            p = point(r, lim, .2)          # the expressions lose digits for nearly equal masses
            m = math.sqrt(p["mq2"][8])
            p["MSt"] = sorted((m * r.uniform(.6, .95), m * r.uniform(1.05, 1.6)))
            p["s2t"] = r.uniform(-.9, .9)
            for x in cheb:
                q = p.copy()
                q["Au"] = points.diag(0, 0, p["mu"] * p["vd"] / p["vu"] + x * m)
                reqs.append(f"tc {lim} -1 " + points.ser(q))
            meta.append(lim)
    evs = drvlib.run(exe, reqs)
    V = np.polynomial.polynomial.polyvander(np.array(cheb), 6)
    W = np.polynomial.polynomial.polyvander(np.array(cheb), 10)
    for t, lim in enumerate(meta):
        es = evs[t * N:(t + 1) * N]
        rq = reqs[t * N]
        if any("tc" not in e for e in es):
            ctx.count("exceptions")
            continue
        coef, noise = [], []
        for om in (0, 1):
            D = np.array([e["tc"][(om * 45 + i3) * 5 + RAW] - e["tc"][(om * 45 + i3) * 5 + DR] for e in es])
            size = max(abs(e["tc"][(om * 45 + i3) * 5 + s]) for e in es for s in (RAW, DR))
            c = np.linalg.lstsq(V, D, rcond=None)[0]
            res = float(np.max(np.abs(V @ c - D)))
            coef.append(c)
            noise.append(res)
            # the conversion itself has no higher power than Xt^6
            c10 = np.linalg.lstsq(W, D, rcond=None)[0]
            ctx.ev()
            if not res < 1e-6 * max(float(np.max(np.abs(D))), 1e-3 * size):
                ctx.violate(f"degree {LIMITS[lim]}", f"conversion to MSbar is not a polynomial of degree 6 in Xt: residual {res:.3e}, coefficients {c10}", rq)
        for x in (3, 4):
            for ol in (0, 1):
                for oxl in (0, 1):
                    got = np.array([e["ms"][(x - 3) * 4 + ol * 2 + oxl] for e in es])
                    high = sum((V[:, k] * coef[oxl][k] for k in range(x + 1, 7)), np.zeros(N))
                    want = V @ coef[ol] - high
                    mag = float(np.max(np.abs(V) @ np.abs(coef[ol])))
                    j = int(np.argmax(np.abs(got - want)))
                    ctx.close(f"truncated shift {x} {LIMITS[lim]}", "shift", got[j], want[j], 1e-7 * mag + 100 * (noise[0] + noise[1]),
                              f"shift of lambda to MSbar up to Xt^{x} (logs {ol}, logs of the truncated terms {oxl}), limit {LIMITS[lim]}, Xt = {cheb[j]:.3f} mQ3", reqs[t * N + j])
                    ctx.seen("truncated shifts", (x, ol, oxl, lim))


TIGHT = {  # masses of mQ3, mU3, M3 and the other squarks, |Xt| in units of the geometric mean
    "h3": ((1., 1.02, 1.03), 1.03, .12), "h4": ((1., 1.02, 1.01), 20., .05), "h5": ((8., .5, .5), 40., .5),
    "h6": ((8., .5, 7.95), 60., .5), "h6b": ((8., .5, 7.95), 8., .5), "h9": ((1., 1.02, .05), 1.02, .12),
}
# relative size of what cancels incompletely (omitted powers of the expansion): measured maximum times ~4
RESIDUAL = {"h3": .05, "h4": .12, "h5": 2e-4, "h6": 2e-3, "h6b": .02, "h9": .03}


def tight_point(r, name):
    ratios, rel, xt = TIGHT[name]
    p = points.susy(r, ratios=ratios, msq_rel=rel, xt=r.uniform(-xt, xt), mu_rel=r.uniform(.1, .8) * r.sign(), MS=r.logu(600, 5000))
    p["Yu"] = points.diag(0, 0, p["Yu"][8])
    p["Mt"] = p["Yu"][8] * p["vu"] / math.sqrt(2)
    return p


def siblings(name):
    return [i for i, n in enumerate(NAMES) if MOTHER[n] == name]


def mdr(ctx, exe):
    """re-expressing the masses leaves the Higgs mass matrix unchanged at O(as) and O(as^2)"""
    r = ctx.rng("mdr")
    GS = (.02, .03, .04, .05)
    QS = (.5, .8, 1.25, 2.0)
    worst = {}
    todo = []
    reqs = []
    for name in TIGHT:
        for _ in range(ctx.n(5, 60)):
            p = tight_point(r, name)
            ref = p["MG"] if name != "h9" else math.sqrt(p["mq2"][8])
            for q in QS:
                p = p.copy()
                p["scale"] = ref * q
                todo.append((name, p, len(reqs)))
                for g in GS:
                    p["g3"] = g
                    reqs += ["hier 0 0 " + points.ser(p), "hier 0 1 " + points.ser(p)]
                reqs.append("full 0 " + points.ser(p))
    ev = drvlib.run(exe, reqs)
    # one-loop matrix at the converted masses
    reqs2, ok = [], []
    for name, p, at in todo:
        es = ev[at:at + 2 * len(GS) + 1]
        if any("crash" in e or "exception" in e for e in es) or "mst_0" not in es[-1]:
            ctx.count("exceptions")
            ok.append(None)
            continue
        base = es[-1]["mst_0"]
        mt = p["Yu"][8] * p["vu"] / math.sqrt(2)
        s2t = 2 * mt * (p["Au"][8] - p["mu"] * p["vd"] / p["vu"]) / (base[0] ** 2 - base[1] ** 2)
        start = len(reqs2)
        for i in siblings(name):
            for a in range(len(GS)):
                q = p.copy()
                q["MSt"], q["s2t"] = es[2 * a + 1][f"mst_{i}"][2:4], s2t
                reqs2.append(f"mt4 0 {i} " + points.ser(q))
            q = p.copy()
            q["MSt"], q["s2t"] = base, s2t
            reqs2.append(f"mt4 0 {i} " + points.ser(q))
        ok.append(start)
    ev2 = drvlib.run(exe, reqs2)
    A = np.array([[g ** 2, g ** 4, g ** 6, g ** 8] for g in GS])
    data = {}
    for (name, p, at), start in zip(todo, ok):
        if start is None:
            continue
        es = ev[at:at + 2 * len(GS)]
        for n, i in enumerate(siblings(name)):
            one = ev2[start + n * (len(GS) + 1):start + (n + 1) * (len(GS) + 1)]
            if any("Mt41L" not in e for e in one):
                ctx.count("exceptions")
                continue
            for k in ((3,) if name == "h4" else (1, 3)):
                d1 = np.linalg.solve(A, [e["Mt41L"][k] - one[-1]["Mt41L"][k] for e in one[:-1]])
                d2 = np.linalg.solve(A, [es[2 * a + 1][f"L2_{i}"][k] - es[2 * a][f"L2_{i}"][k] for a in range(len(GS))])
                d3 = np.linalg.solve(A, [es[2 * a + 1][f"L3_{i}"][k] - es[2 * a][f"L3_{i}"][k] for a in range(len(GS))])
                l1 = max(abs(es[2 * a + 1][f"L1_{i}"][k] - es[2 * a][f"L1_{i}"][k]) for a in range(len(GS)))
                key = (name, i, k, at // ((2 * len(GS) + 1) * len(QS)))
                data.setdefault(key, []).append((d1, d2, d3, l1, max(map(abs, one[-1]["Mt41L"])), reqs[at]))
    for (name, i, k, _), rows in data.items():
        for order in (0, 1):
            # no accidental zero: the size of the terms over all scales
            mag = max(abs(d[j][order]) for d in rows for j in range(3))
            if mag == 0 and order == 0:
                ctx.seen("no O(as) conversion", (NAMES[i], k))
            for d1, d2, d3, l1, m1, rq in rows:
                tot = d1[order] + d2[order] + (d3[order] if order else 0.0)
                noise = m1 * (1e-8 if order == 0 else 3e-8)
                rel = abs(tot) / (mag + noise / RESIDUAL[name])
                worst[(name, order)] = max(worst.get((name, order), 0), rel)
                ctx.close(f"MDR {NAMES[i]} order {order + 1}", NAMES[i], tot, 0.0, RESIDUAL[name] * mag + noise,
                          f"{NAMES[i]}: change of element {k} from DR' to MDR' masses at O(as^{order + 1}) (1 loop {d1[order]:.4e}, 2 loops {d2[order]:.4e}, 3 loops {d3[order]:.4e})", rq)
                ctx.close(f"MDR {NAMES[i]} one loop", NAMES[i], l1, 0.0, 1e-12 * m1, "one-loop expansion depends on the three-loop scheme", rq)
            ctx.seen("order counting", (NAMES[i], k, order))
    ctx.notes["order counting: largest relative remainder"] = {f"{n} O(as^{o + 1})": float(f"{v:.3g}") for (n, o), v in sorted(worst.items())}


def h3m(ctx, exe):
    """the conversion from the H3m scheme is the shift of both stop masses squared by the same amount in the one-loop term"""
    r = ctx.rng("h3m")
    base = []
    for _ in range(ctx.n(60, 1500)):
        p = points.hierarchy_like(r) if r.random() < .7 else tight_point(r, r.choice(sorted(TIGHT)))
        p["Yu"] = points.diag(0, 0, p["Yu"][8])
        p["Mt"] = p["Yu"][8] * p["vu"] / math.sqrt(2)
        base.append(p)
    first = drvlib.run(exe, ["full 0 " + points.ser(p) for p in base])
    reqs, meta = [], []
    XS = (-2., -1.2, -.5, 0., .7, 1.4, 2.)
    for p, f in zip(base, first):
        if "mst_0" not in f:
            ctx.count("exceptions")
            continue
        hier = int(f["hierarchy"][0] if isinstance(f["hierarchy"], list) else f["hierarchy"])
        m1, m2 = f["mst_0"]
        if hier < 0 or not m2 > m1 * (1 + 1e-4):
            continue
        X0 = p["Au"][8] - p["mu"] * p["vd"] / p["vu"]
        d = 1e-3 * m1 * m1
        q0 = p.copy()
        q0["MSt"], q0["s2t"] = [m1, m2], 2 * p["Mt"] * X0 / (m1 * m1 - m2 * m2)
        if abs(q0["s2t"]) > 1:
            continue
        start = len(reqs)
        for X in (X0,) + tuple(x * abs(X0) for x in XS):
            for s in (-2, -1, 1, 2):
                q = q0.copy()
                q["s2t"] = 2 * p["Mt"] * X / (m1 * m1 - m2 * m2)
                q["MSt"] = [math.sqrt(m1 * m1 + s * d), math.sqrt(m2 * m2 + s * d)]
                reqs.append(f"mt4 0 {hier} " + points.ser(q))
        reqs.append("full 0 " + points.ser(q0))
        meta.append((start, q0, X0, d))
    ev = drvlib.run(exe, reqs)
    for start, p, X0, d in meta:
        n = 1 + len(XS)
        f = ev[start + 4 * n]
        rq = reqs[start + 4 * n]
        if "h3mShift" not in f or any("Mt41L" not in e for e in ev[start:start + 4 * n]):
            ctx.count("exceptions")
            continue
        hier = int(f["hierarchy"][0] if isinstance(f["hierarchy"], list) else f["hierarchy"])
        if hier < 0:
            continue
        name = NAMES[hier]
        Y = np.array([e["Mt41L"] for e in ev[start:start + 4 * n]]).reshape(n, 4, 4)
        der = (8 * (Y[:, 2] - Y[:, 1]) - (Y[:, 3] - Y[:, 0])) / (12 * d)
        noise = np.max(np.abs(Y), axis=(0, 1)) * 2e-15 / d * 4
        m1, m2 = p["MSt"]
        q2, g2, av = p["scale"] ** 2, p["MG"] ** 2, msq(points.Point({**points.default(), **p})) ** 2
        L = lambda x: math.log(q2 / x)
        # O(as^2) difference of the stop masses squared between the H3m and the DR' scheme
        dm2 = -p["g3"] ** 4 * K ** 2 * 8 / 3 * (-6 * g2 * (1 + L(g2)) + 10 * av * (1 + L(av)) + m1 ** 2 * (1 + L(m1 ** 2)) + m2 ** 2 * (1 + L(m2 ** 2)))
        mag2 = p["g3"] ** 4 * K ** 2 * 8 / 3 * (6 * g2 * abs(1 + L(g2)) + 10 * av * abs(1 + L(av)) + m1 ** 2 * abs(1 + L(m1 ** 2)) + m2 ** 2 * abs(1 + L(m2 ** 2)))
        for k in range(4):
            c = np.polynomial.polynomial.polyfit(np.array(XS), der[1:, k], 4)
            fit = np.abs(np.polynomial.polynomial.polyval(np.array(XS), c) - der[1:, k]).max()
            want, terms = der[0, k], float(np.abs(c).sum())
            if name == "h4":
                want = c[0]
            elif MOTHER[name] in ("h3", "h9") and k == 3:
                want -= c[4]          # the H3m result of these hierarchies has no Xt^4 terms
            ctx.close(f"H3m {name} {k}", name, f["h3mShift"][k], want * dm2, 3e-6 * mag2 * terms + (abs(noise[k]) + 5 * fit) * mag2 * 5,
                      f"{name}: conversion of element {k} from H3m to DR'", rq)
            ctx.ev()
            if not (np.max(np.abs(c)) * 1e-4 >= fit):
                ctx.count("derivative noisy")
        ctx.seen("H3m conversion", name)
        # the recorded three-loop matrix contains the conversion exactly once
        for k in range(4):
            ctx.close(f"H3m applied {name} {k}", name, f["DMh3"][k] + f["h3mShift"][k], f["L3_0"][k], 1e-11 * (abs(f["L3_0"][k]) + abs(f["h3mShift"][k])) + 1e-290,
                      f"{name}: three-loop matrix in the DR' scheme plus conversion", rq)


def quartic(ctx, exe):
    """adding the reported shift to the quartic coupling in DR' gives the one in MSbar, built from the corrections in MSbar"""
    r = ctx.rng("quartic")
    names = tc_names()
    idx = {n: i for i, n in enumerate(names)}
    reqs = []
    for _ in range(ctx.n(150, 3000)):
        p = r.choice((points.hierarchy_like, points.susy, points.mixed))(r)
        reqs.append(f"full {int(r.random() < .2)} " + points.ser(p))
    for rq, e in zip(reqs, drvlib.run(exe, reqs)):
        if "es_tc" not in e:
            ctx.count("exceptions")
            continue
        p = points.deser(rq[len("full 0 "):])
        h = int(e["hierarchy"][0] if isinstance(e["hierarchy"], list) else e["hierarchy"])
        if h < 0 or rq.startswith("full 1"):
            continue
        c = {n: [e["es_tc"][(45 + idx[n]) * 5 + s] for s in range(5)] for n in ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2")}
        back = reexpand(*[c[n][DR] for n in ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2")])
        if c["LAMBDA_AT"][DR] == 0 or not math.isfinite(c["LAMBDA_AT_AS"][DR]):
            continue
        # normalisation read off the one-loop term
        n1 = e["DLambda"][1] / c["LAMBDA_AT"][DR]
        n2 = n1 * p["g3"] ** 2 * K
        got = e["DLambda"][2] + e["DLambdaMSbarShift"][2]
        mag = abs(n2) * (abs(c["LAMBDA_AT_AS"][DR]) + 4 * abs(c["LAMBDA_AT"][DR] * c["YT_AS"][DR]))
        ctx.close("quartic coupling 2 loops", "quartic", got, n2 * back["LAMBDA_AT_AS"], 1e-10 * mag, "quartic coupling at two loops in MSbar", rq)
        ctx.close("quartic coupling 1 loop", "quartic", e["DLambdaMSbarShift"][1], 0.0, 1e-12 * abs(e["DLambda"][1]), "one-loop coupling needs no conversion", rq)
        ctx.close("quartic coupling tree", "quartic", e["DLambdaMSbarShift"][0], 0.0, 1e-12, "tree-level coupling needs no conversion", rq)
        x = 0 if MOTHER[NAMES[h]] in ("h3", "h9") else 1
        n3 = n2 * p["g3"] ** 2 * K
        ctx.close("quartic coupling 3 loops", "quartic", e["DLambdaMSbarShift"][3], n3 * e["es_ms"][x * 4 + 2], 1e-10 * abs(n3 * e["es_ms"][x * 4 + 2]) + 1e-290,
                  "three-loop shift of the quartic coupling", rq)
        ctx.seen("quartic coupling", NAMES[h])


def run(ctx):
    exe, _ = build.build_drv()
    thresholds(ctx, exe)
    ctx.log("threshold corrections")
    truncation(ctx, exe)
    ctx.log("truncated shifts")
    quartic(ctx, exe)
    h3m(ctx, exe)
    ctx.log("H3m")
    mdr(ctx, exe)
    return ctx.finish("exploration", "distinct (coupling, mass limit, log setting) conversions, truncations and (hierarchy, element, order) cancellations that were judged", 150)
