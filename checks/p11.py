"""P11: continuity across degenerate and limiting configurations."""
import itertools
import math

import numpy as np

import build
import drvlib
import points
from p12 import tc_names

KEYS = ("mQ", "mU", "mD", "mL", "mE", "m3", "mu", "MA", "Q", "ms")
MULTI = [("mQ", "mU", "m3"), ("mQ", "mU", "m3", "ms"), ("mQ", "mU", "mD"), ("mQ", "mU", "mD", "mu"), ("mQ", "mD", "m3"),
         ("mQ", "mU", "MA"), ("mL", "mE", "mu"), KEYS]
OUTER = np.array([-.16, -.12, -.08, -.05, -.03, .03, .05, .08, .12, .16])
INNER = np.array([-.0101, -.0099, -.005, -1e-3, -1e-5, -1e-8, 0, 1e-8, 1e-5, 1e-3, .005, .0099, .0101])
FAR = np.array([-.2, -.16, -.13, -.1, -.07, .07, .1, .13, .16, .2])
# allowed multiple of the variation of the interpolated function within the inner region
TWO = ("LAMBDA_YB6", "LAMBDA_YT6", "LAMBDA_YT2_YB4", "LAMBDA_YT4_YB2", "LAMBDA_YTAU6", "LAMBDA_YTAU2_YB4", "LAMBDA_YTAU4_YB2",
       "LAMBDA_YB4_G32")
LIMITS = {1: ("mQ", "mU"), 2: ("mQ", "m3"), 3: ("mU", "m3"), 4: ("mQ", "mU", "m3"), 5: ("mQ", "mU", "m3", "ms")}
RULE = ("lines through mass coincidences (all pairs of mQ3, mU3, mD3, mL3, mE3, M3, mu, MA, Q, m_squark, triples, and all masses equal); "
        "each result at the inner points must agree with the smooth continuation interpolated from well-separated outer points "
        "(distances 3-16 %); dense scans of 120 random distances below 5.5 %; each forced mass-limit formula against the "
        "continuation of the general formula; evenly spaced lines without steps (third differences); oracle: polynomial interpolation with its own fit error as scale")
# the mass-limit formulae are exact at the coincidence only: their slope within 1 % (GeV^2)
FLOOR = {"eft1": 25., "eft2": 3.}
# third differences on a line of steps of 0.2 %: elsewhere, and within a distance of a coincidence where the limits are replaced
STEP = 3e-4
NEAR = {"LAMBDA_AT": ((.016, .2),), "LAMBDA_AT_AS": ((.016, .3),), "LAMBDA_AT_AS2": ((.016, .4),), "YT_AS": ((.016, .25),), "YT_AS2": ((.016, .3),),
        "VEV_YB2": ((.016, .03),), "VEV_YT2": ((.016, .06),), "VEV_YTAU2": ((.016, .03),),
        "LAMBDA_YB4_G32": ((.046, .4), (.056, .2), (.066, .06)), "LAMBDA_YB6": ((.016, 1.5), (.026, .02)), "LAMBDA_YT2_YB4": ((.016, 1.), (.026, .02)),
        "LAMBDA_YT4_YB2": ((.016, 2.), (.026, .02)), "LAMBDA_YT6": ((.016, .2), (.036, .08)), "LAMBDA_YTAU2_YB4": ((.056, .25),),
        "LAMBDA_YTAU4_YB2": ((.056, .35),), "LAMBDA_YTAU6": ((.016, 1.5), (.036, .5))}
LIMITED = ("YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS", "LAMBDA_AT_AS2", "VEV_YT2")


def place(base, m, sign):
    p = points.Point(base)
    s = m["ms"] ** 2
    for k, x in (("mq2", "mQ"), ("mu2", "mU"), ("md2", "mD")):
        p[k] = points.diag(s, s, m[x] ** 2)
    for k, x in (("ml2", "mL"), ("me2", "mE")):
        p[k] = points.diag(s, s, m[x] ** 2)
    p["MG"], p["mu"], p["MA"], p["scale"] = m["m3"], sign * m["mu"], m["MA"], m["Q"]
    return p


def scan(r, g, deltas):
    """points along a line through the coincidence of the masses g"""
    MS = 3000.
    base = points.susy(r, MS=MS, tb=r.uniform(2, 20))
    m = {k: MS * r.logu(.4, 2.5) for k in KEYS}
    m["Q"] = MS * r.logu(.5, 2)
    for k in ("Au", "Ad", "Ae"):
        base[k] = points.diag(0, 0, r.uniform(-2, 2) * MS)
    while True:
        d = {k: r.uniform(-1, 1) for k in g}
        d[g[0]], d[g[1]] = 0., 1.
        v = sorted(d.values())
        if len(g) > 4 or min(b - a for a, b in zip(v, v[1:])) > .25:
            break
    ref, sign = m[g[0]], r.sign()
    # the remaining masses stay away from the coincidence
    for k in KEYS:
        if k not in g:
            while abs(math.log(m[k] / ref)) < .3:
                m[k] = MS * r.logu(.4, 2.5)
    return [place(base, dict(m, **{k: ref * (1 + x * d[k]) for k in g}), sign) for x in deltas]


def interpolate(outer, inner, y, z, c, floor=0.):
    """largest deviation of z at the inner points from the smooth continuation of y, in units of the tolerance"""
    s = max(abs(outer))
    V = np.vander(outer / s, len(outer) - 2)
    co, *_ = np.linalg.lstsq(V, y, rcond=None)
    fit = np.abs(V @ co - y).max()
    w = np.vander(inner / s, len(outer) - 2) @ co
    tol = c * (2 * np.abs(w - np.polyval(co, 0)).max() + 2e-3 * np.abs(y).max()) + 10 * fit + floor
    d = np.where(np.isfinite(z), np.abs(z - w), np.inf) / tol
    j = int(np.argmax(d))
    return float(d[j]), float(inner[j]), float(z[j]), float(w[j]), fit / np.abs(y).max()


def judge(ctx, key, outer, inner, y, z, c, what, req, floor=0.):
    if not np.any(y) and not np.any(z):
        return 0
    ctx.ev(len(inner))
    if not np.isfinite(y).all():
        ctx.violate(key, f"{what}: not finite away from the coincidence: {y.tolist()}", req)
        return 1e99
    d, x, got, want, fit = interpolate(outer, inner, y, z, c, floor)
    if fit > .1:
        ctx.count("continuation not smooth enough: only finite values demanded", 1)
        if not np.isfinite(z).all():
            ctx.violate(key, f"{what}: not finite at the coincidence", req)
        return 0
    ctx.track(key, d, req[:100])
    if d > 1:
        ctx.violate(key, f"{what}: at relative distance {x:g} from the coincidence the value is {got:.8g}, while the smooth "
                         f"continuation gives {want:.8g} ({d:.2g} times the tolerance)", req)
    return d


def thresholds(ctx, exe):
    NM = tc_names
    NM = NM() if callable(NM) else NM
    r = ctx.rng("thresholds")
    pairs = list(itertools.combinations(KEYS, 2))
    reqs, jobs = [], []
    al = np.concatenate([OUTER, INNER])
    n = ctx.n(1, 12)
    for g in pairs + MULTI * 3:
        for _ in range(n * (4 if g in ((("mQ", "mU")), ("mQ", "m3"), ("mU", "m3")) else 1)):
            jobs.append((g, len(reqs)))
            reqs += ["tc -1 -1 " + points.ser(p) for p in scan(r, g, al)]
    ev = drvlib.run(exe, reqs)
    for g, k in jobs:
        es = ev[k:k + len(al)]
        name = "=".join(g) if len(g) < 5 else "all"
        if any("tc" not in e for e in es):
            ctx.violate(f"thresholds:failure", f"{name}: {[str(e)[:100] for e in es if 'tc' not in e][0]}", reqs[k])
            continue
        ctx.seen("coincidence", name)
        for e in es:
            ctx.seen("limit", e["limit"])
        T = np.array([e["tc"] for e in es], float)
        for c in range(45):
            if NM[c] in ("VEV_G12", "VEV_G22"):
                continue                      # not implemented
            for o in (0, 1):
                if not o and NM[c] in TWO + LIMITED:
                    continue                  # omitted logarithms: of the light stop mass, not smooth at mQ = mU
                y = T[:, (o * 45 + c) * 5 + 1]
                judge(ctx, f"thresholds:{NM[c]}", OUTER, INNER, y[:len(OUTER)], y[len(OUTER):], 200. if NM[c] in TWO + LIMITED and len(g) > 2 else 40. if NM[c] in TWO or len(g) > 2 else 10.,
                      f"{NM[c]} ({'with' if o else 'without'} logarithms) at {name}", reqs[k + len(OUTER) + 6])


def spikes(ctx, exe):
    """no isolated points with a meaningless result, wherever they are hidden"""
    NM = tc_names() if callable(tc_names) else tc_names
    r = ctx.rng("spikes")
    groups = list(itertools.combinations(("mQ", "mU", "mD", "mu", "MA", "m3"), 2)) * 2 + [("mL", "mE"), ("mL", "mu"), ("mE", "mu"),
        ("mQ", "mU", "mu"), ("mQ", "mD", "mu"), ("mQ", "mU", "m3"), ("mQ", "mU", "mD", "mu")] * 3
    reqs, jobs = [], []
    for g in groups:
        for _ in range(ctx.n(1, 15)):
            al = np.concatenate([OUTER, np.sort([r.uniform(-.055, .055) for _ in range(120)])])
            jobs.append((g, len(reqs), al))
            reqs += ["tc -1 -1 " + points.ser(p) for p in scan(r, g, al)]
    ev = drvlib.run(exe, reqs)
    for g, k, al in jobs:
        es = ev[k:k + len(al)]
        name = "=".join(g)
        if any("tc" not in e for e in es):
            ctx.violate("spikes:failure", f"{name}: {[str(e)[:100] for e in es if 'tc' not in e][0]}", reqs[k])
            continue
        ctx.seen("dense scan", name)
        T = np.array([e["tc"] for e in es], float)
        for c in range(45):
            if NM[c] in ("VEV_G12", "VEV_G22"):
                continue
            y = T[:, (45 + c) * 5 + 1]
            inn, z = al[len(OUTER):], y[len(OUTER):]
            if NM[c] == "LAMBDA_AT_AS2" and len(g) == 3 and "m3" in g:
                use = (abs(inn) < .005) | (abs(inn) >= .03)         # see triple
                inn, z = inn[use], z[use]
            judge(ctx, f"spikes:{NM[c]}", OUTER, inn, y[:len(OUTER)], z, 20. if NM[c] in TWO or NM[c] in LIMITED and len(g) > 2 else 3.,
                  f"{NM[c]} near {name}", reqs[k + len(OUTER) + 60])


def masses(p):
    return {"mQ": p["mq2"][8] ** .5, "mU": p["mu2"][8] ** .5, "mD": p["md2"][8] ** .5, "mL": p["ml2"][8] ** .5, "mE": p["me2"][8] ** .5,
            "m3": p["MG"], "mu": abs(p["mu"]), "MA": p["MA"], "Q": p["scale"], "ms": p["mq2"][0] ** .5}


def separated(r, g, al):
    """a line on which no other masses coincide"""
    while True:
        pts = scan(r, g, al)
        v = sorted(math.log(m) for k, m in masses(pts[0]).items() if k not in g)
        if min(b - a for a, b in zip(v, v[1:])) > .07:
            return pts


def jumps(ctx, exe):
    """no steps along an evenly spaced line: third differences, relative to the largest value on the line"""
    NM = tc_names() if callable(tc_names) else tc_names
    r = ctx.rng("jumps")
    al = np.linspace(-.2, .2, 201)
    x = np.abs((al[1:-2] + al[2:-1]) / 2)
    reqs, jobs = [], []
    for g in list(itertools.combinations(KEYS, 2)):
        for _ in range(ctx.n(1, 16)):
            jobs.append((g, len(reqs)))
            reqs += ["tc -1 -1 " + points.ser(p) for p in separated(r, g, al)]
    ev = drvlib.run(exe, reqs)
    for g, k in jobs:
        es = ev[k:k + len(al)]
        name = "=".join(g)
        if any("tc" not in e for e in es):
            ctx.violate("jumps:failure", f"{name}: {[str(e)[:100] for e in es if 'tc' not in e][0]}", reqs[k])
            continue
        ctx.seen("line for jumps", name)
        T = np.array([e["tc"] for e in es], float)
        for c in range(45):
            y = T[:, (45 + c) * 5 + 1]
            if not np.any(y) or NM[c] in ("VEV_G12", "VEV_G22"):
                continue
            ctx.ev(len(x))
            if not np.isfinite(y).all():
                ctx.violate(f"jumps:{NM[c]}", f"{NM[c]} is not finite near {name}", reqs[k + int(np.argmin(np.isfinite(y)))])
                continue
            tol = np.full(len(x), STEP)
            for width, near in reversed(NEAR.get(NM[c], ())):
                tol[x < width] = near
            d = np.abs(np.diff(y, 3)) / np.abs(y).max() / tol
            j = int(np.argmax(d))
            ctx.track(f"jumps:{NM[c]}", float(d[j]), f"{name} at {al[j + 1]:.3f}")
            if d[j] > 1:
                ctx.violate(f"jumps:{NM[c]}", f"{NM[c]} has a step or spike of {d[j] * tol[j] / 3 * 100:.3g} % (allowed: {tol[j] / 3 * 100:.3g} %) at a relative "
                            f"distance {(al[j + 1] + al[j + 2]) / 2:.3f} from {name}: {y[j:j + 4].tolist()}", reqs[k + j + 1])


def triple(ctx, exe):
    """known: no limit formula is used where mQ3, mU3 and M3 are 1-3 % apart, where the general one has lost its digits"""
    r = points.Rng("triple")
    NM = tc_names() if callable(tc_names) else tc_names
    al = np.concatenate([OUTER, np.linspace(.0101, .0299, 200)])
    c = NM.index("LAMBDA_AT_AS2")
    worst = None
    for i in range(6):
        reqs = ["tc -1 -1 " + points.ser(p) for p in scan(r, ("mQ", "mU", "m3"), al)]
        ev = drvlib.run(exe, reqs)
        y = np.array([e["tc"][(45 + c) * 5 + 1] for e in ev], float)
        ctx.ev(len(al))
        res = interpolate(OUTER, al[len(OUTER):], y[:len(OUTER)], y[len(OUTER):], 3.)
        if worst is None or res[0] > worst[0][0]:
            worst = res, reqs[len(OUTER) + 20]
    if worst[0][0] > 1:
        ctx.violate("triple:LAMBDA_AT_AS2", f"mQ3, mU3, M3 within 1-3 %: {worst[0]}", worst[1])


def limits(ctx, exe):
    """each mass-limit formula is the limit of the general formula"""
    NM = tc_names() if callable(tc_names) else tc_names
    r = ctx.rng("limits")
    reqs, jobs = [], []
    al = [(x, 0) for x in FAR] + [(x, 1) for x in (-1e-4, 0., 1e-4)]
    for l, g in LIMITS.items():
        for _ in range(ctx.n(12, 150)):
            jobs.append((l, len(reqs)))
            for (x, f), p in zip(al, scan(r, g, [x for x, _ in al])):
                if l == 5:
                    p["md2"] = points.diag(*[p["md2"][0]] * 3)      # part of the average squark mass
                reqs.append(f"tc {l if f else 0} -1 " + points.ser(p))
    ev = drvlib.run(exe, reqs)
    for l, k in jobs:
        es = ev[k:k + len(al)]
        if any("tc" not in e for e in es):
            ctx.violate("limits:failure", f"limit {l}: {[str(e)[:100] for e in es if 'tc' not in e][0]}", reqs[k])
            continue
        ctx.seen("mass-limit formula", l)
        T = np.array([e["tc"] for e in es], float)
        for c in [NM.index(x) for x in LIMITED]:
            y = T[:, (45 + c) * 5 + 1]
            judge(ctx, f"limits:{NM[c]}", FAR, np.array([x for x, f in al if f]), y[:len(FAR)], y[len(FAR):], 3.,
                  f"{NM[c]}, mass limit {l} ({'='.join(LIMITS[l])})", reqs[k + len(FAR) + 1])


def results(ctx, exe):
    """fixed-order and effective-theory results across coincidences of running masses and of mass eigenvalues"""
    r = ctx.rng("results")
    al = np.concatenate([OUTER, INNER])
    reqs, jobs, jobs_mass = [], [], {}
    groups = [("mQ", "mU"), ("mQ", "mD"), ("mL", "mE"), ("mQ", "m3"), ("mU", "m3"), ("mD", "m3"), ("mQ", "mu"), ("mU", "mu"),
              ("mD", "mu"), ("mE", "mu"), ("mQ", "MA"), ("mQ", "mU", "m3"), ("mQ", "mU", "mD", "mu"), ("mu", "ms"), KEYS]
    for g in groups:
        for _ in range(ctx.n(3, 40)):
            for xt0 in (0, 1):
                seed = r.randrange(1 << 60)
                pts = scan(points.Rng(f"{seed}"), g, al)
                if xt0:                               # no mixing at all along the line
                    for p in pts:
                        p["Au"] = points.diag(0, 0, p["mu"] * p["vd"] / p["vu"])
                for cmd in ("fo 0 0 0 0 0x0p+0 ", "eft 0 "):
                    jobs.append((g, xt0, cmd.split()[0], len(reqs)))
                    jobs_mass[len(reqs)] = max(pts[0]["mq2"][8], pts[0]["mu2"][8]) ** .5
                    reqs += [cmd + points.ser(p) for p in pts]
    ev = drvlib.run(exe, reqs)
    for g, xt0, cmd, k in jobs:
        es = ev[k:k + len(al)]
        name = ("=".join(g) if len(g) < 5 else "all") + (", X_t=0" if xt0 else "")
        bad = [e for e in es if "exception" in e or "crash" in e]
        if bad:
            ctx.violate(f"{cmd}:failure", f"{name}: {str(bad[0])[:150]}", reqs[k])
            continue
        ctx.seen(cmd, name)
        m = jobs_mass[k]
        for q in (("m0", "m1", "m1gl", "m2") if cmd == "fo" else ("eft0", "eft1", "eft2", "eft3")):
            Y = np.array([np.ravel(np.array(e[q], float)) for e in es])
            for j in range(Y.shape[1]):
                if q in ("eft1", "eft2") and not j % 2 or q == "eft3" and not j // 2 % 2:
                    continue                  # without logarithms, see above
                floor = FLOOR.get(q, 0.)
                if q == "m2" and xt0:         # rounding noise of the O(at^2) corrections for nearly degenerate stops
                    floor = .01 * np.abs(Y[:, j]).max() * max(1, (m / 3000) ** 4)
                judge(ctx, f"{cmd}:{q}", OUTER, INNER, Y[:len(OUTER), j], Y[len(OUTER):, j], 40. if len(g) > 2 else 10., f"{cmd} {q}[{j}] at {name}",
                      reqs[k + len(OUTER) + 6], floor)


def run(ctx):
    exe, _ = build.build_drv()
    thresholds(ctx, exe)
    spikes(ctx, exe)
    jumps(ctx, exe)
    triple(ctx, exe)
    limits(ctx, exe)
    results(ctx, exe)
    return ctx.finish("exploration", RULE, 1000)
