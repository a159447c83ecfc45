"""P05: reconstruction of the sfermion mass matrices from recorded masses and angles, round trips."""
import math

import build
import drvlib
import points
from p04 import NAMES, eig2, sfermion_matrix

isnan = math.isnan
NUM = ["DMh0", "DMh1", "DMh2L", "DMh3", "expUnc", "DMh2", "DLambda", "DLambdaUnc", "DLambdaMSbarShift", "DMh2EFT",
       "DMh2FO", "DMh2FOAt", "mdrShift", "h3mShift", "mdrMasses"]


def generate(r):
    p = points.mixed(r)
    tag = ["mixed"]
    c = r.random()
    if c < .2:      # vanishing or tiny mixing
        p["Au"][8] = p["mu"] * p["vd"] / p["vu"] + r.choice([0.0, 1e-12, -1e-9, 1e-6, -1e-3, 1e-1]) * r.uniform(.5, 2)
        tag.append("small stop mixing")
    elif c < .3:
        tb = p["vu"] / p["vd"]
        p["Ad"][8] = p["mu"] * tb + r.choice([0.0, 1e-9, -1e-3, 1.0]) * r.uniform(.5, 2)
        p["Ae"][8] = p["mu"] * tb - r.choice([0.0, 1e-9, -1e-3, 1.0]) * r.uniform(.5, 2)
        tag.append("small sbottom/stau mixing")
    if r.random() < .25:     # (nearly) maximal mixing: equal diagonal entries
        for k, (L, R) in (("t", ("mq2", "mu2")), ("b", ("mq2", "md2")), ("l", ("ml2", "me2"))):
            if r.random() < .5:
                p[R][8] = p[L][8]
                p[R][8] += (lambda m: m[0] - m[2])(sfermion_matrix(masses(p), k)) + r.choice([0.0, 0.0, 1e-9, -1e-6, 1e-3, -1.])
                tag.append("maximal mixing " + k)
    if r.random() < .15:
        for k in ("Yd", "Ye"):
            p[k][8] = 0.0
        tag.append("no mixing b, tau")
    if r.random() < .2:
        p["mu"] = -p["mu"]
        p["Au"][8] = -p["Au"][8]
    for k, m in (("MW", 80.4), ("MZ", 91.2), ("Mt", 160.), ("Mb", 2.4), ("Mtau", 1.7)):
        if r.random() < .15:
            p[k] = m * r.uniform(.9, 1.1)
            tag.append(k + " given")
    if r.random() < .1:
        p["g1"] = 0.0
    if r.random() < .1:
        p["mu2"][8], p["mq2"][8] = p["mq2"][8] * r.logu(1, 400), p["mq2"][8]
        tag.append("hierarchical")
    return p, tag


def masses(p):
    """the masses that validation derives (independent of the library)"""
    q = p.copy()
    v = math.hypot(q["vu"], q["vd"])
    s2 = math.sqrt(2)
    for k, x in (("MW", .5 * q["g2"] * v), ("MZ", .5 * v * math.sqrt(.6 * q["g1"] ** 2 + q["g2"] ** 2)),
                 ("Mt", abs(q["Yu"][8]) * q["vu"] / s2), ("Mb", abs(q["Yd"][8]) * q["vd"] / s2),
                 ("Mtau", abs(q["Ye"][8]) * q["vd"] / s2)):
        if isnan(q[k]):
            q[k] = x
    return q


def run(ctx):
    val = build.build("val", ["val.cpp"], build.pick("Himalaya_interface.cpp"))
    r = ctx.rng()
    pts = [generate(r) for _ in range(ctx.n(12000, 300000))]
    ev = drvlib.run(val, [f"val 0 {points.ser(p)}" for p, _ in pts])
    ctx.log("recorded")
    good = []
    for (p, tag), e in zip(pts, ev):
        if "crash" in e:
            ctx.violate("crash", str(tag), points.ser(p))
            continue
        if "exception" in e:
            ctx.count("rejected")
            continue
        q = masses(p)
        rep = points.ser(p)
        for kind, (M, s, t) in NAMES.items():
            a, b, d = sfermion_matrix(q, kind)
            m0, m1, th, s2 = e[M][0] ** 2, e[M][1] ** 2, e[t], e[s]
            size = max(abs(a), abs(b), abs(d))
            ctx.ev(6)
            if not (0 <= m0 <= m1):
                ctx.violate("order " + M, f"{tag}: {e[M]}", rep)
            lab = f"{tag} {M}"
            c, sn = math.cos(th), math.sin(th)
            # the library extracts the angle from acos: its error is sqrt(eps) near 0 and pi/2
            # degenerate pairs are split by a relative 1e-8 on purpose
            ang = 1e-7 * abs(m1 - m0) + (3e-8 * size if m1 - m0 < 1e-7 * size else 0)
            ctx.close(f"{M} m11", "m11", c * c * m0 + sn * sn * m1, a, 1e-12 * size + ang, lab + " m11", rep)
            ctx.close(f"{M} m22", "m22", sn * sn * m0 + c * c * m1, d, 1e-12 * size + ang, lab + " m22", rep)
            ctx.close(f"{M} m12", "m12", (m0 - m1) * sn * c, b, 1e-12 * size + ang, lab + " m12", rep)
            ctx.close(f"{M} trace", "trace", m0 + m1, a + d, 3e-12 * size + (3e-8 * size if m1 - m0 < 1e-7 * size else 0), lab + " trace", rep)
            ctx.close(f"{s}/{t}", "s2", s2, math.sin(2 * th), 1e-13, lab + " sin(2theta)", rep)
            lo, hi = eig2(a, b, d)
            ctx.close(f"{M} split", "splitting", m1 - m0, hi - lo, 1e-11 * size + 3e-8 * (size if m1 - m0 < 1e-7 * size else 0), lab + " splitting", rep)
            octant = int(math.floor(th / (math.pi / 4)))
            ctx.seen("sfermion, octant of the angle, signs", (kind, octant, (b > 0) - (b < 0), (a > d) - (a < d)))
        good.append((p, tag, e))
    ctx.log("matrices reconstructed")

    # round trips: the computed values given explicitly, in different forms
    forms = []
    for p, tag, e in good[:ctx.n(3000, 60000)]:
        full = p.with_(**{k: e[k] for k in ("MSt", "MSb", "MStau", "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau")})
        for form in ("all", "all masses", "swapped", "angle only", "sine only"):
            x = full.copy()
            for kind, (M, s, t) in NAMES.items():
                if form == "swapped":
                    x[M] = [x[M][1], x[M][0]]
                    x[t] -= math.pi / 2
                    x[s] = -x[s]
                elif form == "angle only":
                    x[s] = points.NAN
                elif form == "sine only" and abs(x[t]) < math.pi / 4:
                    x[t] = points.NAN
                elif form == "all masses":
                    x["Mt"], x["Mb"], x["Mtau"], x["MW"], x["MZ"] = (e[k] for k in ("Mt", "Mb", "Mtau", "MW", "MZ"))
            forms.append((form, x, tag, e))
    ev2 = drvlib.run(val, [f"val 0 {points.ser(x)}" for _, x, _, _ in forms])
    for (form, x, tag, e), e2 in zip(forms, ev2):
        rep = points.ser(x)
        if "exception" in e2 or "crash" in e2:
            ctx.violate("round trip " + form, f"{tag}: {e2}", rep)
            continue
        ctx.seen("round trip form", form)
        for kind, (M, s, t) in NAMES.items():
            if form == 'swapped' and e[M][0] == e[M][1]:
                continue
            sm = abs(e[M][1] ** 2 - e[M][0] ** 2) / max(e[M][1] ** 2, 1e-300)
            for i in (0, 1):
                ctx.close(f"{form} {M}", "round trip mass", e2[M][i], e[M][i], 1e-13 * e[M][i] + (3e-8 * e[M][i] if sm < 1e-7 else 0), f"{form} {tag} {M}", rep)
            tol = 1e-12 if form != "sine only" else 1e-15 / max(1e-16, abs(math.cos(2 * e[t]))) + 1e-12
            ctx.close(f"{form} {s}", "round trip sine", e2[s], e[s], 1e-12, f"{form} {tag} {s}", rep)
            ctx.close(f"{form} {t}", "round trip angle", e2[t], e[t], tol, f"{form} {tag} {t}", rep)

    # results of the whole calculation for computed and explicitly given masses
    drv = build.build("drv", ["drv.cpp"])
    ctx.log("built")
    sel = [g for g in good if "small stop mixing" not in g[1]][:ctx.n(160, 3000)]
    reqs, info = [], []
    for p, tag, e in sel:
        full = p.with_(**{k: e[k] for k in ("MSt", "MSb", "MStau", "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau",
                                            "Mt", "Mb", "Mtau", "MW", "MZ")})
        sw = full.copy()
        for kind, (M, s, t) in NAMES.items():
            if sw[M][0] == sw[M][1]:
                continue
            sw[M] = [sw[M][1], sw[M][0]]
            sw[t] -= math.pi / 2
            sw[s] = -sw[s]
        for form, x in (("computed", p), ("given", full), ("given swapped", sw)):
            for ab in (0, 1):
                reqs.append(f"calc {ab} {points.ser(x)}")
                info.append((form, ab, tag, e))
    res = drvlib.run(drv, reqs)
    for k in range(0, len(res), 6):
        for ab in (0, 1):
            base = res[k + ab]
            for j in (2, 4):
                form, _, tag, e = info[k + j + ab]
                x, rep = res[k + j + ab], reqs[k + j + ab]
                ctx.ev()
                if ("exception" in base) != ("exception" in x):
                    ctx.violate("outcome " + form, f"{tag}: {base.get('exception')} / {x.get('exception')}", rep)
                    continue
                if "exception" in base:
                    ctx.count("calculation without suitable hierarchy")
                    continue
                if base["hierarchy"] != x["hierarchy"]:
                    ctx.count("different hierarchy at a boundary (not judged)")
                    continue
                ctx.seen("hierarchy compared", (base["hierarchy"], ab, form))
                for n in NUM:
                    u, v = base[n], x[n]
                    u, v = (u, v) if isinstance(u, list) else ([u], [v])
                    big = max([abs(z) for z in u if math.isfinite(z)] or [0.])
                    near = min(abs(e[M][1] - e[M][0]) / e[M][1] for M in ("MSt", "MSb"))
                    tol = (2e-8 + 1e-12 / max(near, 1e-9) ** 2 if near < 1e-2 else 2e-8) * big + 1e-12
                    for i, (a, b) in enumerate(zip(u, v)):
                        if not (math.isfinite(a) and math.isfinite(b)):
                            continue
                        ctx.close(f"{form} {n} ab={ab}", "result " + n, b, a, tol, f"{form} {n}[{i}] hierarchy {base['hierarchy']}", rep)
    for (p, tag), e in list(zip(pts, ev))[:8]:
        ctx.sample(f"{tag}: " + (e.get("exception") or f"MSt {e['MSt']} theta_t {e['theta_t']} MStau {e['MStau']} theta_tau {e['theta_tau']}"))
    return ctx.finish("exploration", "distinct (sfermion, angle octant, sign pattern), round-trip forms, hierarchies compared", 10000)
