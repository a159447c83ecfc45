"""P20: correction switches and momentum iteration compose as documented."""
import math

import numpy as np

import build
import drvlib
import points
from p07 import pert

ORD = ("G12G22 G14 G24 G12YB2 G22YB2 YB4 G12YTAU2 G22YTAU2 YTAU4 G12YT2 G22YT2 YT4 "
       "G32YB4 YB6 YT6 YTAU2YB4 YTAU2YT4 YTAU6 YT2YB4 G32YT4 YB2YT4 YTAU4YB2 ONLY_AT_AS").split()
IDX = {k: i for i, k in enumerate(ORD)}
ONE = ORD[:12]
EFT2 = ["G32YB4", "YB6", "YT6", "YTAU2YB4", "YTAU6", "YT2YB4", "G32YT4", "YB2YT4", "YTAU4YB2"]
FO2 = ["G32YT4", "G32YB4", "YT6", "YTAU6", "YTAU2YB4", "YTAU4YB2"]
# powers of g1, g2, g3 in each one- and two-loop contribution of the effective theory
POW = {k: tuple(int(k[k.index(g) + 2]) if g in k else 0 for g in ("G1", "G2", "G3")) for k in ORD if k != "ONLY_AT_AS"}


def fl(d):
    return f"{len(d)} " + " ".join(f"{IDX[k]} {v}" for k, v in d.items()) if d else "0"


def m2(x):
    return np.array(x, float).reshape(2, 2)


def lowest(m):
    """eigenvalue of smallest magnitude (the order of the library's diagonalisation)"""
    m = m2(m)
    t, s = (m[0, 0] + m[1, 1]) / 2, math.hypot((m[0, 0] - m[1, 1]) / 2, (m[0, 1] + m[1, 0]) / 2)
    return min((t - s, t + s), key=abs)


def dsz_requests(e):
    """arguments of the two-loop routines from the normalised parameters"""
    vu, vd = e["vu"], e["vd"]
    mt2, mb2, mtau2 = [(y * v) ** 2 / 2 for y, v in ((e["Yu"][8], vu), (e["Yd"][8], vd), (e["Ye"][8], vd))]
    st, sb, sta = [[x * x for x in e[k]] for k in ("MSt", "MSb", "MStau")]
    s = [math.sin(e[k]) for k in ("theta_t", "theta_b", "theta_tau")]
    c = [math.cos(e[k]) for k in ("theta_t", "theta_b", "theta_tau")]
    q2, mu, tb, v2, ma2 = e["scale"] ** 2, -e["mu"], vu / vd, vu * vu + vd * vd, e["MA"] ** 2

    def rq(w, *a):
        return f"dsz {w} " + " ".join(float(x).hex() for x in a)
    atat = lambda flag: rq("atat", mt2, mb2, ma2, *st, *sb, s[0], c[0], s[1], c[1], q2, mu, tb, v2, 1, flag)
    return {
        "G32YT4": rq("atas", mt2, e["MG"], *st, s[0], c[0], q2, mu, tb, v2, e["g3"], 1),
        "G32YB4": rq("abas", mb2, e["MG"], *sb, s[1], c[1], q2, mu, 1 / tb, v2, e["g3"], 1),
        "YT6": atat(0), "YT6x": atat(1),
        "YTAU6": rq("tautau", mtau2, ma2, e["ml2"][8], *sta, s[2], c[2], q2, mu, tb, v2, 1),
        "BTAU": rq("abtau", mtau2, mb2, *sta, *sb, s[2], c[2], s[1], c[1], q2, mu, tb, v2, 1),
    }


def fo_expected(flags, only_at, massless):
    on = {k: 1 for k in ORD}
    for k in massless:
        on[k] = 0
    if only_at:
        for k in ("YB6", "YTAU6", "YTAU2YB4", "YTAU4YB2", "G32YB4"):
            on[k] = 0
    else:
        on["ONLY_AT_AS"] = 0
    on.update(flags)
    out = [k for k in ("G32YT4", "G32YB4", "YTAU6") if on[k]]
    if on["YT6"]:
        out.append("YT6x" if on["ONLY_AT_AS"] else "YT6")
    if on["YTAU2YB4"] or on["YTAU4YB2"]:
        out.append("BTAU")
    return out


def only_at_sfermions(exe, cases, evs):
    """sbottoms and staus of the only-alpha_t calculation: g1 = g2 = yb = ytau = 0"""
    idx, reqs = [], []
    nan = float("nan")
    for i, (c, e) in enumerate(zip(cases, evs)):
        if c[1] and "MSb" in e:
            p = points.Point({k: e[k] for k in points.ORDER if k in e})
            p = c[0].with_(**p)
            p = p.with_(g1=0.0, g2=0.0, Yd=points.diag(0, 0, 1e-6), Ye=points.diag(0, 0, 1e-6), Yu=points.diag(0, 0, e["Yu"][8]), Mb=nan, Mtau=nan,
                        MSb=[nan, nan], MStau=[nan, nan], s2b=nan, s2tau=nan, theta_b=nan, theta_tau=nan)
            idx.append(i)
            reqs.append("spec 1 " + points.ser(p))
    out = {}
    for i, e in zip(idx, drvlib.run(exe, reqs)):
        if "MSb" in e:
            out[i] = {k: e[k] for k in ("MSb", "MStau", "theta_b", "theta_tau", "Yd", "Ye")}
    return out


def fixed_order(ctx, exe):
    r = ctx.rng("fo")
    cases = []
    for _ in range(ctx.n(500)):
        p = points.mixed(r)
        massless = []
        c = r.random()
        if c < .06:
            p["Ye"] = points.zero33()
            massless = ["YTAU6", "YTAU2YB4", "YTAU4YB2"]
        elif c < .12:
            p["Yd"] = points.zero33()
            massless = ["G32YB4", "YT6", "YB6", "YTAU2YB4", "YTAU4YB2"]
        if r.random() < .2:   # masses that differ from Yukawa times VEV
            p["Mt"] = r.uniform(150, 175)
        if r.random() < .2:
            p["MZ"], p["MW"] = 91.1876, 80.38
        k = r.random()
        if k < .35:
            flags = {}
        elif k < .6:
            flags = {f: 0 for f in FO2}
            if r.random() < .9:
                flags[r.choice(FO2)] = 1
        else:
            flags = {f: r.randrange(2) for f in ORD if r.random() < .4}
        if massless:
            flags = {}
        cases.append((p, r.random() < .3, r.randrange(2), r.randrange(3), flags, massless,
                      r.choice((0.0, 125.0 ** 2, 1.0, 91.0 ** 2, 300.0 ** 2))))
    reqs = [f"fo {int(a)} {d} {m} {fl(f)} {float(q).hex()} {points.ser(p)}" for p, a, d, m, f, _, q in cases]
    evs = drvlib.run(exe, reqs)
    pure = only_at_sfermions(exe, cases, evs)
    second, owner = [], []
    for i, (c, e) in enumerate(zip(cases, evs)):
        if "crash" in e:
            ctx.violate("crash", f"crash {e['crash']}", reqs[i])
            continue
        if "exception" in e:
            ctx.count("exceptions")
            continue
        d = dsz_requests({**e, **pure.get(i, {})})
        need = fo_expected(c[4], c[1], c[5])
        rqs = [d[k] for k in need]
        owner.append((i, need, len(second), rqs))
        second += rqs + [jitter(x, j) for j in range(JITTERS) for x in rqs]
    res2 = drvlib.run(exe, second)
    third, own3 = [], []
    for i, need, off, rqs in owner:
        p, at, diag, mi, flags, massless, q2 = cases[i]
        e, rq = evs[i], reqs[i]
        parts = [m2(x["m"]) for x in res2[off:off + len(rqs)]]
        noise = 0
        for j in range(1, JITTERS + 1):
            noise = max(noise, sum(np.abs(a - m2(b["m"])).max() for a, b in zip(parts, res2[off + j * len(rqs):off + (j + 1) * len(rqs)])))
        mit = {0: np.zeros((2, 2)), 1: m2(e["mit"]), 2: m2(e["mitn"])}[mi]
        want = mit + sum(parts, np.zeros((2, 2)))
        mag = max([np.abs(x).max() for x in parts] + [np.abs(mit).max(), 1e-12])
        ctx.seen("fixed-order switches", (at, mi, tuple(need)))
        tol = 1e-11 * mag + 100 * noise
        # the b/tau corrections of the only-alpha_t calculation (yb = ytau = 1e-6) can be enabled explicitly, but are dominated by rounding
        skip = tol > 1e-4 * mag or (at and not (tol <= 1e-4 * mag and np.isfinite(want).all()))
        if skip:
            ctx.count("two-loop sums not judged: cancellation in the routines")

        for a in range(0 if skip else 4):
            ctx.close("fo:two-loop sum", "two-loop sum", e["m2"][a], want.flat[a], tol + 1e-300,
                      f"two-loop matrix with only_at={at}, iteration={mi}, flags={flags}: sum of {need}", rq)
        # composition of the mass
        if diag == 0:
            a, b = pert([e["m0"], e["m1"]]), pert([e["m0gl"], e["m1gl"], e["m2"]])
            own3.append((i, a[0], None))
            ctx.close("fo:mass 0L", "mass 0L", e["mh2"][0], float(a[0]), 1e-12 * max(map(abs, e["m0"])) , "tree-level mass", rq)
            b2 = max(abs(b[2]), max(map(abs, e["m2"])), max(map(abs, e["m1gl"])) ** 2 / max(1, e["m0gl"][0] + e["m0gl"][3]))
            ctx.close("fo:mass 2L", "mass 2L", e["mh2"][2], float(b[2]), float(1e-10 * b2), "two-loop mass, perturbative", rq)
        else:
            own3.append((i, lowest(e["m0"]), "num"))
        third.append(third_request(e, p, at, lowest(e["m0"]), mi))
    res3 = drvlib.run(exe, third)
    for (i, tree, mode), f3 in zip(own3, res3):
        if "exception" in f3 or "crash" in f3:
            continue
        judge_momentum(ctx, cases[i], evs[i], f3, reqs[i], float(tree), mode)


JITTERS = 4


def jitter(rq, j=0):
    """the same request with arguments changed at the rounding level (measures the conditioning)"""
    w = rq.split()
    a = [float.fromhex(x) for x in w[2:]]
    b = [x * (1 + (3e-14 if (k * 7 + j * 5 + (k * k) // 3 * j) % 3 else -2e-14) * (1 + .3 * j)) for k, x in enumerate(a)]
    b = [x if abs(x) <= 1 < abs(y) or abs(x) == 1 else y for x, y in zip(a, b)]
    return " ".join(w[:2] + [x.hex() for x in b])


def third_request(e, p, at, tree, mi):
    # the tree mass, two neighbouring momenta
    ps = [0.0 if at else tree, tree, 0.0]
    e["_ps"] = ps
    return f"p2 {int(at)} 3 " + " ".join(float(x).hex() for x in ps) + " " + points.ser(p)


def judge_momentum(ctx, case, e, f3, rq, tree, mode):
    p, at, diag, mi, flags, massless, q2 = case
    m1t, m1tree, m1zero = (f3["m1"][4 * k:4 * k + 4] for k in range(3))
    scale = max(max(map(abs, e["m0"])), max(map(abs, m1t)))
    for k in range(4):
        ctx.close("fo:zero momentum", "zero momentum", e["m1z"][k], m1zero[k], 1e-12 * scale, "one-loop matrix at p=0", rq)
    if mode is None:
        a = pert([e["m0"], m1tree])
        mag = max(map(abs, m1tree)) + 1e-6
        # sensitivity to the momentum: B0 at p2 = tree (thresholds of massless particles lie far away)
        ctx.close("fo:mass 1L", "mass 1L", e["mh2"][1], float(a[1]), 1e-9 * mag, "one-loop mass at the tree-level momentum", rq)
    else:
        m0, m1, mm = m2(e["m0"]), m2(m1tree), m2(e["m2"])
        w = [lowest(m0), lowest(m0 + m1), lowest(m0 + m1 + mm)]
        for k, x in enumerate((w[0], w[1] - w[0], w[2] - w[1])):
            ctx.close(f"fo:mass {k}L numeric", "numeric mass", e["mh2"][k], x, 1e-11 * max(map(abs, e["m0"])) + 1e-10 * max(map(abs, m1tree)),
                      f"mass at {k} loops, numeric diagonalisation", rq)
    # perturbative iteration
    x = pert([e["m0gl"], e["m1gl"]])
    for k in range(4):
        ctx.close("fo:perturbative iteration", "perturbative iteration", e["mit"][k], e["m1d"][k] * float(x[1]),
                  1e-10 * max(map(abs, e["m1d"])) * max(map(abs, e["m1gl"])) + 1e-300, "momentum iteration, perturbative", rq)
    # candidate of the solution: lowest eigenvalue of m0 + m1(tree) + shift
    e["_tot"] = m2(e["m0"]) + m2(m1t) + m2(e["mitn"])
    ctx.pending.append((case, e, rq, float(lowest(e["_tot"])), m1t))


def pole(ctx, exe):
    """the iterated matrix is the one-loop matrix evaluated at its own eigenvalue"""
    reqs = []
    for case, e, rq, lam, m1t in ctx.pending:
        d = max(1.0, abs(lam)) * 1e-3
        reqs.append(f"p2 {int(case[1])} 3 {lam.hex()} {(lam + d).hex()} {(lam - d).hex()} {points.ser(case[0])}")
    for (case, e, rq, lam, m1t), f in zip(ctx.pending, drvlib.run(exe, reqs)):
        if "exception" in f or "crash" in f:
            continue
        a, b, c = (m2(f["m1"][4 * k:4 * k + 4]) for k in range(3))
        d = max(1.0, abs(lam)) * 1e-3
        slope = np.abs(b - c).max() / (2 * d)
        kink = np.abs(b + c - 2 * a).max() / d
        if not slope < .3 or kink > 0.05 or not math.isfinite(lam):
            ctx.count("iteration not contracting, not judged")
            continue
        ctx.seen("iteration", (case[1], case[3], int(math.log10(abs(lam) + 1e-3))))
        got = m2(e["mitn"]) + m2(m1t)
        # iteration stops at relative change 1e-9 of p2; B0 itself is accurate to about 1e-8
        tol = 1e-6 * (np.abs(a).max() * 1e-2 + slope * abs(lam) * 1e-2 + 1e-6 * abs(lam)) + 1e-12 * np.abs(e["m0"]).max() * (1 + slope)
        for k in range(4):
            ctx.close("fo:pole equation", "pole equation", got.flat[k], a.flat[k], tol,
                      "one-loop matrix at the iterated momentum", rq)


# derivative at zero from positive momenta (interpolating polynomial)
NODES = [.02 * k for k in range(1, 7)]
WEIGHTS = np.linalg.solve(np.vander(NODES, increasing=True).T, np.eye(len(NODES))[1])


def gaugeless(ctx, exe):
    """the gaugeless one-loop matrix and its momentum derivative follow from the full one at g1 = g2 = 0"""
    r = ctx.rng("gaugeless")
    pts = []
    for _ in range(ctx.n(150)):
        p = points.mixed(r)
        pts.append(p)
    rqs = []
    for p in pts:
        g = p.with_(g1=0.0, g2=0.0)
        rqs.append(f"fo 0 0 1 0 {0.0.hex()} {points.ser(g)}")
        rqs.append(f"fo 0 0 1 0 {0.0.hex()} {points.ser(p)}")
    ev = drvlib.run(exe, rqs)
    third = []
    keep = []
    for k, p in enumerate(pts):
        a, b = ev[2 * k], ev[2 * k + 1]
        if any("exception" in x or "crash" in x for x in (a, b)):
            continue
        mf = min((a["Yu"][8] * a["vu"]) ** 2 / 2, *[a[x][0] ** 2 for x in ("MSt", "MSb", "MStau")])
        ps = [mf * x for x in NODES]
        third.append(f"p2 0 {len(NODES)} " + " ".join(x.hex() for x in ps) + " " + points.ser(p.with_(g1=0.0, g2=0.0, Yd=points.zero33(), Ye=points.zero33())))
        third.append(f"fo 0 0 1 0 {0.0.hex()} " + points.ser(p.with_(g1=0.0, g2=0.0, Yd=points.zero33(), Ye=points.zero33())))
        keep.append((k, mf))
        for i in range(4):
            m = max(map(abs, a["m1z"])) + 1e-12
            ctx.close("gaugeless 1L", "gaugeless 1L", a["m1gl"][i], a["m1z"][i], 1e-9 * m, "gaugeless one-loop matrix", rqs[2 * k])
            ctx.close("gaugeless limit of mass matrix", "tree gaugeless", a["m0gl"][i], a["m0"][i], 1e-12 * max(map(abs, a["m0"])), "gaugeless tree-level matrix", rqs[2 * k])
        ctx.seen("gaugeless points", k % 7)
    for (k, mf), f, g in zip(keep, drvlib.run(exe, third)[0::2], drvlib.run(exe, third[1::2])):
        if any("exception" in x or "crash" in x for x in (f, g)):
            continue
        m = [m2(f["m1"][4 * i:4 * i + 4]) for i in range(len(NODES))]
        h = .02 * mf
        d = sum((w * x for w, x in zip(WEIGHTS, m)), np.zeros((2, 2))) / mf
        for i in range(4):
            ctx.close("derivative of the one-loop matrix", "derivative", g["m1d"][i], d.flat[i],
                      1e-4 * np.abs(d).max() + 1e-8 * max(np.abs(x).max() for x in m) / h, "momentum derivative in the gaugeless limit", third[2 * keep.index((k, mf))])


def eft(ctx, exe):
    r = ctx.rng("eft")
    allflags = ONE + EFT2
    for _ in range(ctx.n(40)):
        p = points.mixed(r)
        reqs, keys = [], []

        def add(key, flags, q=p):
            keys.append(key)
            reqs.append(f"eft {fl(flags)} {points.ser(q)}")
        off = {k: 0 for k in ORD}
        add("none", off)
        add("default", {})
        for k in ORD:
            add(k, {**off, k: 1})
        subs = []
        for j in range(8):
            s = [k for k in ORD if r.random() < .5]
            subs.append(s)
            add(("sub", j), {**off, **{k: 1 for k in s}})
        add("all", {k: 1 for k in ORD})
        # couplings rescaled at fixed masses
        f = (r.uniform(.6, 1.6), r.uniform(.6, 1.6), r.uniform(.6, 1.6))
        base = drvlib.run(exe, [f"eft 0 {points.ser(p)}"])[0]
        if "exception" in base or "crash" in base:
            ctx.count("exceptions")
            continue
        q = points.Point({k: base[k] for k in points.ORDER})
        q["massLimit3LThreshold"] = int(q["massLimit3LThreshold"])
        q2 = q.with_(g1=q["g1"] * f[0], g2=q["g2"] * f[1], g3=q["g3"] * f[2])
        for k in allflags:
            add(("base", k), {**off, k: 1}, q)
            add(("scaled", k), {**off, k: 1}, q2)
        evs = dict(zip(keys, drvlib.run(exe, reqs)))
        bad = [k for k, e in evs.items() if "crash" in e or "exception" in e]
        if bad:
            ctx.count("exceptions")
            continue

        def vec(e):
            return np.array(e["eft1"] + e["eft2"] + e["eft3"] + [e["eft0"]])
        base = vec(evs["none"])
        single = {k: vec(evs[k]) - base for k in ORD}
        mag = np.abs(base) + sum(np.abs(v) for v in single.values()) + 1e-12
        for k in ORD:
            # one-loop switches act on the one-loop result only, two-loop switches on the two-loop result only
            zero = slice(4, None) if k in ONE else [0, 1, 2, 3] + list(range(8, 17))
            ctx.ev()
            ctx.seen("eft switch", k)
            if np.any(single[k][zero] != 0):
                ctx.violate("eft:scope of " + k, f"switch {k} changes results at other loop orders: {single[k]}", reqs[keys.index(k)])
            if k not in ONE + EFT2 and np.any(single[k] != 0):
                ctx.violate("eft:unused " + k, f"switch {k} must not have an effect: {single[k]}", reqs[keys.index(k)])
        todo = [(("sub", j), s) for j, s in enumerate(subs)] + [("all", ORD), ("default", ["YT4", "G32YT4", "YT6"])]
        for key, s in todo:
            want = base + sum((single[k] for k in s), np.zeros_like(base))
            got = vec(evs[key])
            for i in range(len(want)):
                ctx.close("eft:additivity", "eft additivity", got[i], want[i], 1e-11 * mag[i], f"entry {i} with switches {s}", reqs[keys.index(key)])
        b0, b0s = evs["base", "YT4"], evs["scaled", "YT4"]
        none1 = vec(evs["none"])
        for k in allflags:
            # contribution without any switch is zero at one and two loops
            a, b = vec(evs["base", k])[:8], vec(evs["scaled", k])[:8]
            n = POW[k]
            fac = f[0] ** n[0] * f[1] ** n[1] * f[2] ** n[2]
            for i in range(8):
                ctx.close("eft:coupling order of " + k, "coupling order", b[i], a[i] * fac, 1e-9 * max(np.abs(a).max(), 1e-9) * max(fac, 1),
                          f"contribution of {k} (entry {i}) after rescaling the gauge couplings by {f}", reqs[keys.index(("scaled", k))])
        ctx.seen("eft limits", tuple(int(math.log10(abs(x) + 1e-30)) for x in evs["all"]["eft1"][:1]))


def run(ctx):
    exe, _ = build.build_drv()
    ctx.log("built")
    ctx.pending = []
    fixed_order(ctx, exe)
    pole(ctx, exe)
    gaugeless(ctx, exe)
    ctx.log("fixed order done")
    eft(ctx, exe)
    return ctx.finish("exploration", "distinct combinations of switches, modes and solutions observed", 3000)
