"""P16: the fixed-order corrections are the field derivatives of the effective potential."""
import math
import os

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from concurrent.futures import ProcessPoolExecutor

import numpy as np

import build
import drvlib
import match
import points
import veff

NAN = float("nan")
MASSES = ("MZ", "MW", "Mt", "Mb", "Mtau")
TWO = {          # family -> (flags of the library, potential)
    "at_as": (("G32YT4",), lambda p: veff.v2_qcd(p, "u")),
    "ab_as": (("G32YB4",), lambda p: veff.v2_qcd(p, "d")),
    "at2": (("YT6",), None),
    "atau2": (("YTAU6",), None),
    "yukawa": (("YT6", "YTAU6", "YTAU2YB4"), None),
    "only_at": (("YT6", "G32YT4"), None),
}


def normalised(p, e):
    return p.with_(**{k: e[k] for k in points.ORDER if k in e})


def potential(name, p):
    """the potential whose derivatives make up the contribution"""
    z = lambda: [0.0] * 9
    if name in ("at_as", "ab_as"):
        return TWO[name][1](p)
    q = p.copy()
    if name in ("atau2",):
        q["Yu"], q["Yd"] = z(), z()
    if name == "at2":
        q["Ye"] = z()
    if name == "only_at":
        q["Yd"], q["Ye"] = z(), z()
        a, b = veff.v2_yukawa(q), veff.v2_qcd(q, "u")
        return lambda x, y: a(x, y) + b(x, y)
    return veff.v2_yukawa(q)


def two_loop_job(a):
    name, p = a
    V = potential(name, points.Point(p))
    m = [veff.matrix(V, p, h) for h in (.03, .041)]
    return m


def one_loop_job(a):
    p, gl = a
    p = points.Point(p)
    if gl:
        p["g1"] = p["g2"] = 0.0
    return [veff.one_loop(p, h) for h in ((.02, .03) if not gl else (.02,))]


def fields(p, v, tb):
    c = 1 / math.sqrt(1 + tb * tb)
    p["vd"], p["vu"] = v * c, v * c * tb


def two_loop_point(r, i, name):
    """every other point with a large vacuum expectation value and light superpartners, where the numerical derivative is most accurate"""
    wide = i % 2
    if wide:
        v, MS, tb = 246.0, r.logu(300, 2500), r.logu(.8, 40)
    else:
        v, MS, tb = 700.0, r.logu(1000, 1500), r.logu(.7, 5)
    p = match.heavy(r, MS, tb, f"{name}{i}")
    p["scale"], p["g1"], p["g2"] = MS * r.logu(.4, 2.5), 1e-7, 1e-7
    p["MG"] *= r.choice((1, 1, .2))
    p["MA"] *= r.choice((1, 1, .3))
    p["mu"] *= r.choice((1, 1, .2))
    if i % 5 == 4:                 # degenerate patterns
        k = r.sample(("mq2", "mu2", "md2", "ml2", "me2"), 2)
        p[k[0]][8] = p[k[1]][8] * (1 + r.choice((0, 1e-9, 1e-5, 1e-3, -1e-3)))
        p["MG" if r.random() < .5 else "MA"] = p[r.choice(k)][8] ** .5 * (1 + r.choice((1e-6, 1e-3, -1e-3)))
    fields(p, v, tb)
    mb = 3 if wide else 60 if tb < 5 else 30
    mx = v / math.sqrt(1 + tb * tb) / 2 ** .5
    p["Yu"] = points.diag(0, 0, r.uniform(.6, 1))
    p["Yd"] = points.diag(0, 0, r.uniform(.3, 1) * min(1, mb / mx) if i % 3 else min(1.0, .2 * MS / mx) * r.uniform(.3, 1))
    p["Ye"] = points.diag(0, 0, r.uniform(.3, 1) * min(1, mb / mx) if i % 3 else min(1.0, .2 * MS / mx) * r.uniform(.3, 1))
    x = 1.5 if i % 7 else 1e-4
    match.mix(p, *[r.uniform(-x, x) for _ in range(3)])
    if i % 11 == 3:                # vanishing mixing
        match.mix(p, *[r.choice((0.0, 0.0, 1e-9, .5)) for _ in range(3)])
    for n in MASSES:
        p[n] = NAN
    if i % 2 and r.random() < .3:   # tanb-enhanced mixing can be large
        p["mu"] = math.copysign(min(abs(p["mu"]), .3 * MS), p["mu"])
    return p


def accuracy(name, s):
    """relative accuracy: the alpha_t^2 routine moves degenerate squark masses and vanishing mixing apart by 1e-5,
    the only-alpha_t calculation uses yb = ytau = 1e-6"""
    split = lambda f: abs(1 - (s[f][0] / s[f][1]) ** 2)
    loss = lambda f: min(3e-2, 1e-9 / max(split(f), 1e-12))      # cancellations for nearly degenerate masses
    if name in ("at_as", "ab_as"):
        return max(2e-7, loss("MSt" if name == "at_as" else "MSb"))
    if name == "atau2":
        x = 2e-7 if abs(s["s2tau"]) > 1e-5 else 3e-5
        return max(x, 1e-3) if split("MStau") < 2e-5 else max(x, min(1e-3, 1e-9 / split("MStau")))
    x = 5e-5 if name == "only_at" else 2e-5
    for f, s2, lo in (("MSt", "s2t", 1e-5), ("MSb", "s2b", 1e-8)):
        guard = max(lo, min(.1, 1e-7 / max(split(f), 1e-5)))      # smallest |sin(theta)| the routine works with
        if abs(s[s2]) < 6 * guard:
            x = max(x, 3e-2 if lo > 1e-6 or guard > 1e-6 else 1e-4)
        x = max(x, min(3e-2, 6e-7 / max(split(f), 1e-9)) if split(f) < 1e-2 else 0)
    m = sorted(s["MSt"] + s["MSb"])
    if min(split("MStau"), min(b / a for a, b in zip(m, m[1:])) - 1) < 2e-5:
        x = max(x, 1e-3)
    return x


def two_loop(ctx, exe, pool):
    n = ctx.n(60, 1500)
    for name, (flags, _) in TWO.items():
        r = ctx.rng(name)
        at = int(name == "only_at")
        ps = [two_loop_point(r, i, name) for i in range(n)]
        reqs = [match.fo_req(p, flags, only_at=at, mom=0) for p in ps]
        jobs = []
        for p, q, e in zip(ps, reqs, drvlib.run(exe, reqs)):
            if "m2" not in e:
                if "tachyon" in str(e) or "exception" in e:
                    ctx.count("rejected")
                else:
                    ctx.violate(f"{name}:failure", f"{name}: {str(e)[:200]}", q)
                continue
            s = normalised(p, e)
            if min(s["MSt"] + s["MSb"] + s["MStau"]) < .1 * p["scale"]:
                ctx.count("light sfermion: not judged")
                continue
            jobs.append((name, s, q, e["m2"]))
        for (_, s, q, got), ms in zip(jobs, pool.map(two_loop_job, [(j[0], dict(j[1])) for j in jobs], chunksize=8)):
            w, w2 = np.array(ms[0]), np.array(ms[1])
            top = np.abs(w).max()
            noise = np.abs(w - w2).max()
            if noise > 1e-4 * top:
                ctx.count("derivative not accurate: not judged")
                continue
            x0 = accuracy(name, s)
            tol = 100 * noise + x0 * top
            for k, (g, x) in enumerate(zip(got, w)):
                ctx.close(f"{name}:{k}", f"{name} {('11', '12', '21', '22')[k]}", g, float(x), tol, f"{name}: two-loop Higgs mass matrix element", q)
            # light Higgs direction: corrections to the heavy state cancel
            b = math.atan2(s["vu"], s["vd"])
            u = np.array([math.cos(b), math.sin(b)])
            pr = lambda m: float(u @ np.array(m).reshape(2, 2) @ u)
            pn = abs(pr(w) - pr(w2))
            if pn < 1e-3 * abs(pr(w)):
                ctx.close(f"{name}:light", f"{name} light Higgs", pr(got), pr(w), 100 * pn + 2e-4 * abs(pr(w)) + max(5e-7, x0) * top, f"{name}: two-loop light Higgs mass", q)
            ctx.seen("two-loop " + name, q)
            ctx.count("sign of mu*MG " + ("+" if s["mu"] > 0 else "-"))


def one_loop_point(r, i):
    p = points.mixed(r)
    k = i % 4
    if k == 1:
        fields(p, 246.0, r.logu(1.3, 5))
        p["Yd"] = points.diag(0, 0, r.uniform(.05, .8))
        p["Ye"] = points.diag(0, 0, r.uniform(.05, .8))
    if k == 2:
        p = match.heavy(r, r.logu(300, 1500), 3, f"o{i}")
        fields(p, r.uniform(200, 400), r.choice((r.logu(1.4, 4), r.logu(.2, .7))))
        p["g1"], p["g2"] = r.uniform(.2, .8), r.uniform(.3, .9)
        p["MA"] *= r.choice((1, .3))
        p["Yu"], p["Yd"], p["Ye"] = (points.diag(0, 0, r.uniform(.3, .9)) for _ in range(3))
        match.mix(p, *[r.uniform(-.8, .8) for _ in range(3)])
        for n in MASSES:
            p[n] = NAN
    if i % 3 == 0:
        p["M1"], p["M2"], p["mu"] = (r.logu(30, 300) * r.sign() for _ in range(3))
    return p


def one_loop(ctx, exe, pool):
    r = ctx.rng("one")
    for gl in (0, 1):
        ps = [one_loop_point(r, i) for i in range(ctx.n(300, 8000))]
        if gl:
            for p in ps:
                p["g1"] = p["g2"] = 1e-7
        at = lambda i: int(gl and i % 3 == 2)
        reqs = [match.fo_req(p, (), only_at=at(i), mom=0, p2=0.0) for i, p in enumerate(ps)]
        jobs = []
        for i, (p, q, e) in enumerate(zip(ps, reqs, drvlib.run(exe, reqs))):
            if "m1z" not in e:
                ctx.count("rejected")
                continue
            s = normalised(p, e)
            if abs(math.log(s["vu"] / s["vd"])) < .15 and not gl:
                ctx.count("massless tree-level Higgs: not judged")
                continue
            if at(i):
                s["Yd"], s["Ye"] = [0.0] * 9, [0.0] * 9
            jobs.append((s, q, e))
        for (s, q, e), ms in zip(jobs, pool.map(one_loop_job, [(dict(j[0]), gl) for j in jobs], chunksize=8)):
            w = np.array(ms[0])
            noise = np.abs(w - np.array(ms[-1])).max()
            top = np.abs(w).max()
            if noise > 1e-3 * top:
                ctx.count("derivative not accurate: not judged")
                continue
            tol = 100 * noise + (1e-8 if gl else 5e-6) * top
            kind = "gaugeless" if gl else "full"
            for k, (g, x) in enumerate(zip(e["m1z"], w)):
                ctx.close(f"one-loop {kind}:{k}", f"one-loop {kind} {('11', '12', '21', '22')[k]}", g, float(x), tol, f"{kind} one-loop Higgs mass matrix at zero momentum", q)
            if gl:
                for k, (g, x) in enumerate(zip(e["m1gl"], w)):
                    ctx.close(f"one-loop gl:{k}", f"one-loop gaugeless routine {k}", g, float(x), tol, "dedicated gaugeless one-loop Higgs mass matrix", q)
            ctx.seen("one-loop " + kind, q)


def run(ctx):
    exe, _ = build.build_drv()
    with ProcessPoolExecutor() as pool:
        one_loop(ctx, exe, pool)
        two_loop(ctx, exe, pool)
    return ctx.finish("exercised", "distinct parameter sets whose correction matrix was compared with the derivatives of the potential", 500)
