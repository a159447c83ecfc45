"""P23: momentum dependence of the one-loop self-energies."""
import math
import os

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from concurrent.futures import ProcessPoolExecutor

import numpy as np

import build
import drvlib
import match
import p16
import points
import selfen


def job(a):
    p, ss = a
    return selfen.momentum(points.Point(p), ss)


def run(ctx):
    exe, _ = build.build_drv()
    r = ctx.rng("p23")
    ps = [p16.one_loop_point(r, i) for i in range(ctx.n(400, 12000))]
    reqs, moms = [], []
    for i, p in enumerate(ps):
        k = p["scale"]
        ss = [0.0, r.uniform(60, 200) ** 2, r.logu(100, 5000) ** 2, r.logu(.2, 6) ** 2 * k * k]
        if i % 3 == 2:                 # at and close to the threshold of a pair of particles
            v = math.hypot(p["vd"], p["vu"])
            m = [p["Yu"][8] * p["vu"] / 2 ** .5, p["g2"] * v / 2, math.hypot(p["g2"], p["g1"] * .6 ** .5) * v / 2, abs(p["Yd"][8]) * p["vd"] / 2 ** .5]
            ss.append((2 * r.choice(m)) ** 2 * (1 + r.choice((0, 1e-13, -1e-13, 1e-9, -1e-9, 1e-5, -1e-5, 1e-3, -1e-3))))
        moms.append(ss)
        reqs.append(f"p2 0 {len(ss)} " + " ".join(x.hex() for x in ss) + " " + points.ser(p))
    jobs = []
    for p, ss, q, e in zip(ps, moms, reqs, drvlib.run(exe, reqs)):
        if "m1" not in e:
            ctx.count("rejected")
            continue
        s = p16.normalised(p, e)
        jobs.append((s, ss, q, e))
    with ProcessPoolExecutor() as pool:
        refs = list(pool.map(job, [(dict(j[0]), j[1][1:]) for j in jobs], chunksize=8))
    for (s, ss, q, e), ref in zip(jobs, refs):
        if ref is None:
            ctx.count("massless particle: not judged")
            continue
        m0 = np.array(e["m1"][:4]).reshape(2, 2)
        for k, (M, A, N) in enumerate(ref, 1):
            got = np.array(e["m1"][4 * k:4 * k + 4]).reshape(2, 2) - m0
            for i, j in ((0, 0), (0, 1), (1, 0), (1, 1)):
                tol = 1e-6 * A[i, j] + N[i, j] + 1e-13 * abs(m0[i, j]) + 1e-300
                ctx.close(f"p2:{k}:{i + 1}{j + 1}", f"momentum {k} element {i + 1}{j + 1}", got[i, j], M[i, j], tol,
                          f"one-loop self-energy at p = {ss[k] ** .5:.1f} minus that at p = 0", q)
            ctx.seen("momentum", q + str(k))
            ctx.count("p below " + ("100 GeV" if ss[k] < 1e4 else "1 TeV" if ss[k] < 1e6 else "10 TeV" if ss[k] < 1e8 else "infinity"))
    return ctx.finish("exercised", "distinct parameter sets and momenta at which the self-energy was compared with the independent calculation", 500)
