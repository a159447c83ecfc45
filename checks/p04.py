"""P04: recorded validations against an independent model of the documented contract."""
import math
import re

import numpy as np

import build
import drvlib
import points

S2 = math.sqrt(2)
NAN = float("nan")
isnan = math.isnan


class Reject(Exception):
    pass


class Ambiguous(Exception):
    pass


def svals(m):
    return sorted(np.linalg.svd(np.array(m).reshape(3, 3), compute_uv=False))


def eig2(a, b, d):
    h, r = (a + d) / 2, math.hypot((a - d) / 2, b)
    return (h - r, h + r)


def sfermion_matrix(p, kind):
    """tree-level mass matrix (M11, M12, M22) of stops, sbottoms or staus"""
    tb = p["vu"] / p["vd"]
    v2 = p["vu"] ** 2 + p["vd"] ** 2
    c2b = (p["vd"] ** 2 - p["vu"] ** 2) / v2
    mz2 = p["MZ"] ** 2
    cw2 = (p["MW"] / p["MZ"]) ** 2 if p["MZ"] else 1.0
    sw2 = 1 - cw2
    if kind == "t":
        m, X, L, R, tl, ql, qr = p["Mt"], p["Au"][8] - p["mu"] / tb, p["mq2"][8], p["mu2"][8], .5, 2 / 3, 2 / 3
    elif kind == "b":
        m, X, L, R, tl, ql, qr = p["Mb"], p["Ad"][8] - p["mu"] * tb, p["mq2"][8], p["md2"][8], -.5, -1 / 3, -1 / 3
    else:
        m, X, L, R, tl, ql, qr = p["Mtau"], p["Ae"][8] - p["mu"] * tb, p["ml2"][8], p["me2"][8], -.5, -1., -1.
    return (L + m * m + (tl - ql * sw2) * mz2 * c2b, m * X, R + m * m + qr * sw2 * mz2 * c2b)


NAMES = {"t": ("MSt", "s2t", "theta_t"), "b": ("MSb", "s2b", "theta_b"), "l": ("MStau", "s2tau", "theta_tau")}


def model(p):
    """the documented normalisation; returns expected parameter set, or raises Reject"""
    p = p.copy()
    soft = [x for k in ("mq2", "md2", "mu2", "ml2", "me2") for x in p[k]]
    if any(isnan(x) for x in soft):
        raise Ambiguous
    if min(soft) < 0:
        raise Reject("soft")
    if p["MG"] < 0:
        raise Reject("gluino")
    for k in ("Yu", "Yd", "Ye"):
        if not all(math.isfinite(x) for x in p[k]):
            raise Reject("yukawa")
        s = svals(p[k])
        p[k] = points.diag(*s)
    for k in ("vu", "vd"):
        if isnan(p[k]) or p[k] <= 0:
            raise Reject(k)
    v = math.hypot(p["vu"], p["vd"])
    fill = dict(MW=.5 * p["g2"] * v, MZ=.5 * v * math.sqrt(.6 * p["g1"] ** 2 + p["g2"] ** 2), Mt=p["Yu"][8] * p["vu"] / S2,
                Mb=p["Yd"][8] * p["vd"] / S2, Mtau=p["Ye"][8] * p["vd"] / S2)
    for k, x in fill.items():
        if isnan(p[k]):
            p[k] = x
    exp = {"computed": {}}
    for kind, (M, s, t) in NAMES.items():
        if not isnan(p[t]) and isnan(p[s]):
            p[s] = math.sin(2 * p[t])
        elif isnan(p[t]) and not isnan(p[s]):
            p[t] = .5 * math.asin(p[s]) if abs(p[s]) <= 1 else NAN
        if any(isnan(x) for x in p[M] + [p[s], p[t]]):
            a, b, d = sfermion_matrix(p, kind)
            lo, hi = eig2(a, b, d)
            size = max(abs(a), abs(b), abs(d), 1e-300)
            if abs(lo) < 1e-9 * size or (kind != "t" and False):
                raise Ambiguous
            if lo < 0:
                raise Reject("tachyon")
            exp["computed"][kind] = (a, b, d)
            p[M] = [math.sqrt(lo), math.sqrt(hi)]
            p[s] = p[t] = None
        elif p[M][0] > p[M][1]:
            p[M] = [p[M][1], p[M][0]]
            p[t] += math.pi / 2
            p[s] = -p[s]
    for M in ("MSt", "MSb"):
        if abs(p[M][0] - p[M][1]) < 1e-8:
            p[M][0] = p[M][1] / (1 + 1e-8)
            exp["near"] = True
        elif abs(p[M][0] - p[M][1]) < 1e-7:
            exp["near"] = True
    if abs(p["mq2"][8] - p["mu2"][8]) < 1e-8:
        p["mq2"][8] = p["mu2"][8] / (1 + 1e-8)
    exp["p"] = p
    return exp


WORDS = {"soft": r"(?i)soft|squared", "gluino": r"(?i)gluino|MG|M3", "yukawa": r"(?i)yukawa", "vu": r"(?i)\bvu\b",
         "vd": r"(?i)\bvd\b", "tachyon": r"(?i)tachyon"}


def generate(r):
    p = points.mixed(r)
    c = r.random()
    tag = []

    def pick(x):
        tag.append(x)
    if c < .1:
        k = r.choice(["mq2", "mu2", "md2", "ml2", "me2"])
        i = r.randrange(9)
        p[k][i] = -r.logu(1e-300, 1e8)
        pick(f"negative {k}[{i}]")
    elif c < .14:
        p["MG"] = -r.logu(1e-300, 1e4)
        pick("negative MG")
    elif c < .22:
        k = r.choice(["vu", "vd"])
        p[k] = r.choice([NAN, 0.0, -0.0, -1.0, -246., -1e-300])
        pick(f"{k}={p[k]}")
    elif c < .34:      # tachyons
        k = r.choice("tbl")
        if k == "t":
            p["Au"][8] = r.sign() * r.logu(1, 1e3) * (p["mq2"][8] + p["mu2"][8]) / 170
        elif k == "b":
            p["Ad"][8] = r.sign() * r.logu(.1, 1e3) * (p["mq2"][8] + p["md2"][8]) / 2
        else:
            p["Ae"][8] = r.sign() * r.logu(.1, 1e3) * (p["ml2"][8] + p["me2"][8]) / 2
        pick("large trilinear " + k)
    if r.random() < .15:
        for k in r.sample(["mq2", "mu2", "md2", "ml2", "me2"], 2):
            p[k][8] = r.choice([0.0, r.logu(1e-6, 1e4)])
        pick("light third generation")
    if r.random() < .15:
        p["mu2"][8] = p["mq2"][8]
        pick("mq2 = mu2")
    if r.random() < .05:
        p["mu2"][8] = p["mq2"][8] + r.sign() * r.logu(1e-10, 1e-6)
        pick("mq2 ~ mu2")
    if r.random() < .1:
        for k in ("Au", "Ad", "Ae"):
            p[k] = points.zero33()
        p["mu"] = r.choice([0.0, -0.0])
        pick("no mixing")
        if r.random() < .5:
            p["g1"] = p["g2"] = 0.0
            p["mu2"][8] = p["md2"][8] = p["mq2"][8]
            p["me2"][8] = p["ml2"][8]
            pick("degenerate")
    for k in ("Yu", "Yd", "Ye"):
        c = r.random()
        if c < .15:
            p[k] = [r.uniform(-1, 1) for _ in range(9)]
            pick(k + " generic")
        elif c < .25:
            p[k] = points.diag(p[k][8], 0.0, -1e-3)
            pick(k + " unordered")
        elif c < .3:
            p[k] = points.zero33()
            pick(k + " zero")
        elif c < .33:
            p[k][8] *= -1
            pick(k + " negative")
        elif c < .34:
            p[k][r.randrange(9)] = r.choice([NAN, float("inf")])
            pick(k + " not finite")
    for k, m in (("MW", 80.), ("MZ", 91.), ("Mt", 170.), ("Mb", 2.5), ("Mtau", 1.8)):
        if r.random() < .2:
            p[k] = m * r.uniform(.9, 1.1)
            pick(k + " given")
    for M, s, t in NAMES.values():
        c = r.random()
        if c < .4:
            m = [r.logu(50, 5e3), r.logu(50, 5e3)]
            if r.random() < .2:
                m[1] = m[0]
            elif r.random() < .1:
                m[1] = m[0] + r.sign() * r.choice([5e-10, 9e-9, 1.1e-8, 1e-7])
            if r.random() < .15:
                m[r.randrange(2)] = NAN
            p[M] = m
            pick(M + ("=" if m[0] == m[1] else ">" if m[0] > m[1] else "<"))
        if c < .5:
            q = r.random()
            th = r.uniform(-math.pi / 2, math.pi)
            if q < .35:
                p[t] = th
                pick(t)
            elif q < .7:
                p[s] = r.choice([math.sin(2 * th), 1.0, -1.0, 0.0, 1.5])
                pick(s)
            elif q < .9:
                p[t], p[s] = th, math.sin(2 * th)
                pick(t + s)
    return p, tag or ["plain"]


def run(ctx):
    exe = build.build("val", ["val.cpp"], build.pick("Himalaya_interface.cpp"))
    r = ctx.rng()
    pts = [generate(r) for _ in range(ctx.n(20000, 400000))]
    reqs = [f"val 0 {points.ser(p)}" for p, _ in pts]
    ev = drvlib.run(exe, reqs)
    ctx.log("recorded")
    for (p, tag), q, e in zip(pts, reqs, ev):
        ctx.ev()
        for t in tag:
            ctx.seen("input feature", t)
        if "crash" in e:
            ctx.violate("crash", f"{tag}: rc {e['crash']}", q)
            continue
        try:
            x = model(p)
            want = "accept"
        except Reject as rej:
            want = str(rej)
        except Ambiguous:
            ctx.count("ambiguous (not judged)")
            continue
        ctx.count("expected: " + want)
        if want != "accept":
            if "exception" not in e:
                ctx.violate("accepted " + want, f"{tag}: accepted, expected rejection because of {want}", q)
            elif not re.search(WORDS[want], e["exception"]):
                ctx.violate("message " + want, f"{tag}: rejection does not name {want}: {e['exception']}", q)
            continue
        if "exception" in e:
            ctx.violate("rejected", f"{tag}: rejected although valid: {e['exception']}", q)
            continue
        w = x["p"]

        def near(k, got, want, rel, scale=None):
            if want is None:
                return
            if isnan(want) and isnan(got):
                ctx.ev()
                return
            ctx.close(k, k.split("[")[0], got, want, rel * (scale if scale else max(abs(want), 1e-300)) + 1e-300, f"{tag} {k}", q)

        for k in points.ORDER:
            g = e[k]
            if k in ("Yu", "Yd", "Ye"):
                big = max(map(abs, w[k])) or 1.0
                for i in range(9):
                    near(f"{k}[{i}]", g[i], w[k][i], 1e-13, big)
            elif k in ("MSt", "MSb", "MStau"):
                kind = {"MSt": "t", "MSb": "b", "MStau": "l"}[k]
                if kind in x["computed"]:
                    a, b, d = x["computed"][kind]
                    size = max(abs(a), abs(b), abs(d))
                    for i in (0, 1):
                        near(f"{k}^2[{i}]", g[i] ** 2, w[k][i] ** 2, 3e-13 if w[k][0] != w[k][1] / (1 + 1e-8) else 3e-8, size)
                    if abs(g[0] - g[1]) < 2e-8 and kind != "l" and g[0] >= g[1] and g[1] > 1.1:
                        ctx.violate("not split " + k, f"{tag} {k} {g}", q)
                else:
                    for i in (0, 1):
                        near(f"{k}[{i}]", g[i], w[k][i], 1e-15 if "near" not in x else 2e-8)
            elif isinstance(g, list):
                for i in range(9):
                    near(f"{k}[{i}]", g[i], w[k][i], 1e-15 if k == "mq2" and i == 8 else 0)
            elif k in ("MW", "MZ", "Mt", "Mb", "Mtau"):
                near(k, g, w[k], 1e-13 if isnan(p[k]) else 0)
            elif k.startswith(("s2", "theta")):
                near(k, g, w[k], 4e-15, 3.0)
            else:
                near(k, g, w[k], 0)
        ctx.ev()
        if not e["second"] < 3e-8:
            ctx.violate("second validation", f"{tag}: validating again changes a value by {e['second']}", q)
        # calculateMsq2
        mz2, c2b = w["MZ"] ** 2, (w["vd"] ** 2 - w["vu"] ** 2) / (w["vd"] ** 2 + w["vu"] ** 2)
        sw2 = 1 - (w["MW"] / w["MZ"]) ** 2 if w["MZ"] else 0.0
        fac = [w["mq2"][0], w["mu2"][0], w["mq2"][0], w["md2"][0], w["mq2"][4], w["mu2"][4], w["mq2"][4], w["md2"][4],
               w["mq2"][8] + w["Mb"] ** 2 - (.5 - sw2 / 3) * mz2 * c2b, w["md2"][8] + w["Mb"] ** 2 - sw2 / 3 * mz2 * c2b]
        pr = math.prod(fac)
        if min(fac) > 1:
            near("msq2", e["msq2"], pr ** .1, 1e-12)
    for (p, tag), e in list(zip(pts, ev))[:10]:
        ctx.sample(f"{tag} -> {e.get('exception', 'accepted, MSt=%s' % e.get('MSt'))}")
    return ctx.finish("exploration", "distinct input features (given/missing/degenerate/rejected fields)", 5000)
