"""P21: the mass-hierarchy expansions approach the exact results and each other."""
import json
import math
import os

import build
import drvlib
import points
from p06 import MOTHER, NAMES

HERE = os.path.dirname(os.path.abspath(__file__))
LAMBDA = (.2, .1, .05, .025)
FLAGS = ("threeLoop", "Mst", "Dmglst1", "Dmsqst1", "Dmst12", "At", "lmMsusy", "Msq", "Msusy", "Dmglst2", "Dmsqst2", "Mgl")
ELEMENTS = {3: "22", 1: "12", 0: "11"}


def masses(name, l, c):
    """mQ3, mU3, M3, msq along a path into the hierarchy (l -> 0)"""
    a, b, d, e = c
    return {
        "h3": (1 + a * l, 1 + b * l, 1 + d * l, 1 + e * l),
        "h4": (1 + a * l * .5, 1 + b * l * .5, 1 + d * l * .5, 1 / l),
        "h5": (1 / l, 1., 1 + d * l, (1.5 + e) / l ** 1.5),
        "h6": (1 / l, 1., (1 + .3 * d * l) / l, (1.5 + e) / l ** 1.5),
        "h6b": (1 / l, 1., (1 + .3 * d * l) / l, (1 + .3 * e * l) / l),
        "h9": (1 + a * l, 1 + b * l, .6 * l * (1.5 + d), 1 + e * l),
    }[name]


def path(r, name):
    c = [r.uniform(-1, 1) for _ in range(4)]
    base = points.susy(r, MS=3000., mu_rel=r.uniform(.15, .5) * r.sign(), tb=r.uniform(2, 20))
    yt = .05                        # heavy stops throughout: Mt is not an expansion variable to be tested here
    base["Yu"], base["Mt"] = points.diag(0, 0, yt), yt * base["vu"] / 2 ** .5
    X = r.uniform(.2, .6) * r.sign() * (.1 if name in ("h3", "h9") else .3 if name == "h4" else 1.)
    scale = 3000 * r.uniform(.7, 1.4)
    pts = []
    for l in LAMBDA:
        q, u, g, s = [3000. * x for x in masses(name, l, c)]
        if name in ("h5", "h6", "h6b") and X > 0:
            q, u = q, u
        p = points.Point(base)
        p["mq2"] = points.diag(s * s, s * s, q * q)
        p["mu2"] = points.diag(s * s, s * s, u * u)
        p["md2"] = points.diag(s * s, s * s, s ** 4 / (q * q) if name in ("h5", "h6") else s * s)
        p["MG"], p["scale"] = g, scale
        p["Au"] = points.diag(0, 0, X * math.sqrt(q * u) + p["mu"] * p["vd"] / p["vu"])
        pts.append(p)
    return pts


def measure(ctx, exe, depth, n):
    """relative deviations per kind and hierarchy: {key: [(values along LAMBDA), request]}"""
    r = ctx.rng("hierarchies")
    jobs, reqs = [], []
    for name in ("h3", "h4", "h5", "h6", "h6b", "h9"):
        for _ in range(n):
            jobs.append((name, len(reqs)))
            reqs += ["hier 0 0 " + points.ser(p) for p in path(r, name)]
    ev = drvlib.run(exe, reqs)
    out = {}
    for name, at in jobs:
        es = ev[at:at + len(LAMBDA)]
        if any("L1_0" not in e for e in es):
            ctx.count("no spectrum")
            continue
        put = lambda key, vals: out.setdefault(key, []).append((vals, reqs[at]))
        mother = NAMES.index(name)
        for i, h in enumerate(NAMES):
            if MOTHER[h] != name:
                continue
            for k, el in ELEMENTS.items():
                if name == "h4" and k != 3:
                    continue
                size = lambda e, key: abs(e[key][k]) + (0 if k == 3 else 1e-3 * abs(e[key][3]))
                put(("one loop", h, el), [abs(e[f"L1_{i}"][k] - e[f"Mt41L_{i}"][k]) / size(e, f"Mt41L_{i}") for e in es])
                put(("two loops", h, el), [abs(e[f"L2_{i}"][k] - e[f"Mt42L_{i}"][k]) / size(e, f"Mt42L_{i}") for e in es])
                if i != mother:
                    put(("siblings", h, el), [abs(e[f"L3_{i}"][k] - e[f"L3_{mother}"][k]) / size(e, f"L3_{mother}") for e in es])
                if depth:
                    for f, fn in enumerate(FLAGS):
                        for L in (2, 3):
                            d = [abs(e[f"L{L}f_{i}"][4 * f + k] - e[f"L{L}_{i}"][k]) / size(e, f"L{L}_{i}") for e in es]
                            if max(d):
                                put((f"truncation, {L} loops", h, el, fn), d)
    return out


# spectra at which two hierarchies are both valid: mQ3, mU3, M3, msq in units of one mass (with the spread of each), Xt
OVERLAP = {
    ("h3", "h4"): ((1., 1.03, 1.02, 1.1), .1),
    ("h4", "h3"): ((1., 1.03, 1.02, 1.4), .1),
    ("h3", "h5"): ((1.3, 1., 1., 1.35), .1),
    ("h3", "h6"): ((1.35, 1., 1.35, 1.4), .1),
    ("h6", "h3"): ((1.5, 1., 1.5, 1.5), .1),
    ("h3", "h9"): ((1., 1.02, .6, 1.), .1),
    ("h9", "h3"): ((1., 1.02, .7, 1.), .1),
    ("h6", "h6b"): ((6., .5, 6., 6.), 1.),
    ("h6b", "h6"): ((2., .5, 2., 2.), 1.),
}


def overlap_point(r, pair):
    (q, u, g, s), xt = OVERLAP[pair]
    q, u, g, s = [3000. * x * r.uniform(.98, 1.02) for x in (q, u, g, s)]
    if "h6b" in pair:
        s, g = q * r.uniform(.998, 1.002), q * r.uniform(.995, 1.005)
    base = points.susy(r, MS=3000., mu_rel=r.uniform(.15, .5) * r.sign(), tb=r.uniform(2, 20))
    p = points.Point(base)
    p["Yu"], p["Mt"] = points.diag(0, 0, .05), .05 * p["vu"] / 2 ** .5
    p["mq2"] = points.diag(s * s, s * s, q * q)
    p["mu2"] = points.diag(s * s, s * s, u * u)
    p["md2"] = points.diag(s * s, s * s, s ** 4 / (q * q))
    p["MG"], p["scale"] = g, q * r.uniform(.8, 1.25)
    p["Au"] = points.diag(0, 0, r.uniform(.3, 1.) * xt * r.sign() * math.sqrt(q * u) + p["mu"] * p["vd"] / p["vu"])
    return p


def crossing(ctx, exe, n):
    r = ctx.rng("overlap")
    jobs, reqs = [], []
    for pair in OVERLAP:
        for _ in range(n):
            p = overlap_point(r, pair)
            jobs.append((pair, len(reqs)))
            reqs.append("hier 0 0 " + points.ser(p))
    ev = drvlib.run(exe, reqs)
    out = {}
    for pair, k in jobs:
        e = ev[k]
        if "L3_0" not in e:
            ctx.count("no spectrum")
            continue
        a, b = (e[f"L3_{NAMES.index(x)}"] for x in pair)
        for el, j in (("22", 3), ("12", 1)):
            out.setdefault((*pair, el), []).append((abs(a[j] - b[j]) / (abs(b[j]) + (0 if j == 3 else .02 * abs(b[3]))), reqs[k]))
    return out


FLOOR = {"one loop": 1e-9, "two loops": 2e-6, "siblings": 1e-8, "truncation, 2 loops": 1e-9, "truncation, 3 loops": 1e-9}
SWITCH = {"h4", "h5", "h6"}                     # where Msq switches the terms growing like msq^2, not the highest power
CROSS = {  # largest and typical relative difference of the three-loop results at the points above: measured times 3 (the first h6-h6b
    # set crosses a zero)
    ("h3", "h4", "22"): (.014, .006), ("h4", "h3", "22"): (.014, .006), ("h3", "h5", "22"): (.05, .015),
    ("h3", "h6", "22"): (.07, .04), ("h3", "h6", "12"): (.4, .3), ("h6", "h3", "22"): (.04, .02), ("h6", "h3", "12"): (.3, .2),
    ("h3", "h9", "22"): (.06, .04), ("h3", "h9", "12"): (.4, .25), ("h9", "h3", "22"): (.1, .07), ("h9", "h3", "12"): (.7, .5),
    ("h6", "h6b", "22"): (9., .015), ("h6", "h6b", "12"): (.02, .006), ("h6b", "h6", "22"): (.008, .004), ("h6b", "h6", "12"): (.015, .008),
}


def squarks(ctx, exe):
    """h6b expands in the difference of the average squark and the heavy stop mass: same slope as in h6"""
    r = ctx.rng("squarks")
    slopes = {}
    reqs = []
    n = ctx.n(12, 100)
    for _ in range(n):
        p = overlap_point(r, ("h6", "h6b"))
        for f in (1.0, 1.04):
            q = p.copy()
            s = math.sqrt(p["mq2"][8]) * f
            q["mq2"] = points.diag(s * s, s * s, p["mq2"][8])
            q["mu2"] = points.diag(s * s, s * s, p["mu2"][8])
            q["md2"] = points.diag(s * s, s * s, s ** 4 / p["mq2"][8])
            reqs.append("hier 0 0 " + points.ser(q))
    ev = drvlib.run(exe, reqs)
    for k in range(n):
        a, b = ev[2 * k], ev[2 * k + 1]
        if "L3_0" not in a or "L3_0" not in b:
            ctx.count("no spectrum")
            continue
        d6 = b["L3_6"][3] - a["L3_6"][3]
        for i in (7, 8, 9, 10):
            slopes.setdefault(NAMES[i], []).append(((b[f"L3_{i}"][3] - a[f"L3_{i}"][3]) / d6, reqs[2 * k + 1]))
            ctx.seen("slope in the squark mass", (i, k))
    for h, v in slopes.items():
        v.sort()
        m, rq = v[len(v) // 2]
        ctx.close(f"squark-mass:{h}", "slope in the average squark mass", m, 1.0, .35,
                  f"three-loop change of {h} with the average squark mass relative to that of h6 (median of {len(v)})", rq)


def run(ctx):
    exe, depth = build.build_drv()
    with open(os.path.join(HERE, "..", "data", "p21.json")) as f:
        ref = {tuple(k.split("/")): v for k, v in json.load(f).items()}
    got = measure(ctx, exe, depth, ctx.n(80, 600))
    for key, (rmax, rmed) in ref.items():
        # an expansion flag without effect: the truncation does not happen
        if depth and len(key) > 3 and rmed[0] > 1e-12 and not (MOTHER[key[1]] == "h6b" and key[2] == "11"):
            c = sorted(x[0] for x, _ in got.get(key, []))
            m = c[len(c) // 2] if c else 0.
            ctx.ev()
            # (known finding: the squark mass difference enters in the wrong units and has hardly any effect)
            if not m > (0 if key[3] == "Dmsqst2" and MOTHER[key[1]] == "h6b" else rmed[0] / 30):
                what = f"{key[0]}, {key[1]} ({key[2]}), {key[3]}"
                ctx.violate(f"{what}: without effect", f"{what}: truncating this expansion changes the result by {m:.1e} (typically {rmed[0]:.1e}) at an expansion parameter of {LAMBDA[0]}",
                            got[next(iter(got))][0][1])
    for key, v in got.items():
        kind, h, el = key[:3]
        what = f"{kind}, {h} ({el})" + (f", {key[3]}" if len(key) > 3 else "")
        if len(key) > 3 and key[3] == "Msq" and MOTHER[h] in SWITCH:
            continue
        if key not in ref:
            ctx.violate(f"{what}: unexpected", f"{what}: this expansion flag has an effect here", v[0][1])
            continue
        rmax, rmed = ref[key]
        floor = FLOOR[kind] * (10 if kind == "two loops" and MOTHER[h] in ("h3", "h9") else 1)
        med = []
        for j, l in enumerate(LAMBDA):
            c = sorted((x[j], rq) for x, rq in v)
            x, rq = c[len(c) * 9 // 10]          # (a few paths cross a zero of the reference)
            m = c[len(c) // 2][0]
            med.append(m)
            ctx.close(f"{what}: large at {l}", kind, x, 0.0, 15 * rmax[j] + floor, f"{what}: deviation at an expansion parameter of {l}", rq)
            ctx.close(f"{what}: typical at {l}", kind, m, 0.0, 10 * rmed[j] + floor, f"{what}: typical deviation at an expansion parameter of {l}", rq)
        if MOTHER[h] != "h4":
            ctx.close(f"{what}: falls", "order of the residual", med[3], 0.0, max(med[0], med[1]) / 4 + floor,
                      f"{what}: deviations {', '.join(f'{x:.1e}' for x in med)} along {LAMBDA}", v[0][1])
        for k in range(len(v)):
            ctx.seen(kind, (*key, k))
    for key, v in crossing(ctx, exe, ctx.n(40, 400)).items():
        if key not in CROSS:
            continue
        v.sort()
        name = f"{key[0]} and {key[1]} ({key[2]})"
        for x, t, how in ((v[-1][0], CROSS[key][0], "largest"), (v[len(v) // 2][0], CROSS[key][1], "typical")):
            ctx.close(f"{name}: {how}", "different hierarchies at three loops", x, 0.0, t, f"{how} relative difference of {name} at three loops where both are valid", v[-1][1])
        for k in range(len(v)):
            ctx.seen("different hierarchies", (*key, k))
    squarks(ctx, exe)
    return ctx.finish("exploration", "distinct (quantity, hierarchy, matrix element, path) sequences along which the deviation was measured", 2000)


def calibrate(n):
    """deviations of the current tree: the table the bounds are multiples of"""
    exe, depth = build.build_drv()

    class Ctx:
        rng = staticmethod(lambda name: points.Rng(f"calibrate:{name}"))
        count = staticmethod(print)

    out = {}
    for key, v in measure(Ctx, exe, depth, n).items():
        cols = [sorted(x[j] for x, _ in v) for j in range(len(LAMBDA))]
        out["/".join(key)] = [[float(f"{c[len(c) * 9 // 10]:.2e}") for c in cols], [float(f"{c[len(c) // 2]:.2e}") for c in cols]]
    with open(os.path.join(HERE, "..", "data", "p21.json"), "w") as f:
        f.write("{\n" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(out.items())) + "\n}\n")


if __name__ == "__main__":
    calibrate(int(os.environ.get("N", 300)))
