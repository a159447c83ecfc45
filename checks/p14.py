"""P14 loop functions: recorded values of the real code vs. 50-digit references."""
import math
import multiprocessing as mpp
import subprocess

import mpmath as mp

import build
import drvlib
import loopgen
import loopref

REF = {"dilog": loopref.li2, "li2f": loopref.li2, "cdilog": loopref.cli2, "cli2f": loopref.cli2}
ABS = dict(F1=2e-10, F2=3e-9, F3=1e-11, F4=3e-10, F5=5e-10, F6=1e-8, F7=3e-10, F8=1e-8, F9=1e-8,
           f=5e-10, g=3e-10, f1=2e-9, f2=2e-9, f3=3e-9, f4=3e-9, f5=5e-9, f6=3e-9, f7=5e-9, f8=1e-8)


def excluded(f, a):
    """outside the stated domain: divergent points and both ratios tiny"""
    if f in ("F8", "F9"):
        return max(abs(x) for x in a) < 1e-2
    if f == "b0xx":
        return a[0] < 1e-14 * a[2] and a[1] < 1e-14 * a[2]
    return False


def known_corner(f, a):
    """f5..f8 at (1,-1) and (-1,1): see known_findings.txt"""
    return (f in ("f5", "f6", "f7", "f8") and a[0] * a[1] < 0 and
            abs(abs(a[0]) - 1) < 0.05 and abs(abs(a[1]) - 1) < 0.05)


def tolerance(f, a, ref):
    r = abs(ref)
    if f in ("dilog", "li2f", "cdilog", "cli2f"):
        return 2e-14 * max(r, 1 if f != "dilog" and f != "li2f" else 0) + 2e-15
    if f == "cl2":
        return 1e-13
    if f == "a0":
        return 1e-13 * (abs(a[0]) + r)
    if f == "d1_b0":
        return 2e-8 * r
    if f == "delta":
        return 2e-14 * max(map(abs, a)) ** 2
    if f == "phi":
        return 3e-13 * max(a) + 5e-12 * r
    if f == "b0xx":
        return 3e-7 if abs(a[0] / (4 * a[1] or 1e-300) - 1) < 1e-2 else 3e-9
    if f == "b0":
        p2, x, y = a[0], min(a[1:3]), max(a[1:3])
        th, ps = (x ** .5 + y ** .5) ** 2, (x ** .5 - y ** .5) ** 2
        if p2 <= 1e-11 * x or y == 0:
            return 2e-11 * (1 + float(r))
        if abs(p2 - th) < 1e-2 * th:
            return 1e-6
        t = 2e-8
        if abs(p2 - ps) < 1e-2 * ps:
            t = 3e-7
        if p2 < 1e-2 * y:
            t += 2e-14 * y / p2
        return t
    t = ABS[f]
    if len(a) == 2:
        lo, hi = sorted(map(abs, a))
        if f == "F8" and lo < 0.02 and abs(hi - 1) < 0.03:
            t = 2e-5
        if f == "F9" and lo < 0.02:
            t = 2e-6
            if lo < 1.001e-4:        # treated as zero: error O(lo^2/hi^2)
                t += 30 * (lo / hi) ** 2
        if f == "f5" and lo < 1.1e-4:
            t = 1e-7
        if f == "f5" and lo < 0.0102 and abs(hi - 1) < 0.011:
            t = 3e-5
        if f in ("f5", "f7") and hi < 1e-3:
            t = 1e-6
    return t * max(1, float(r))


def one(job):
    f, a, re, im = job
    ref = REF.get(f, getattr(loopref, f, None))(*a)
    if ref is None:
        return None
    v = mp.mpc(re, im)
    d = abs(v - ref) if math.isfinite(re) and math.isfinite(im) else mp.inf
    tol = tolerance(f, a, ref)
    return float(d), float(tol), mp.nstr(ref, 17)


def klass(f, a):
    return f, tuple(("0" if x == 0 else "-" if x < 0 else "+") + str(int(math.floor(math.log10(abs(x)))) if x else "")
                    + ("=" if abs(abs(x) - 1) < 1e-3 else "") for x in a)


def run(ctx):
    srcs = build.pick("misc/Li2.cpp", "mh2_fo/PV.cpp", "ThresholdLoopFunctions.cpp", "Li2f.cpp", "Li2.f90")
    exe = build.build("loopfn", ["loopfn.cpp"], srcs)
    exe2 = build.build("loopfn", ["loopfn.cpp"], srcs, variant="fast")
    r = ctx.rng()
    n = ctx.n(1500, 40000)
    jobs = []
    for f in loopgen.FNS:
        for _ in range(n):
            a = loopgen.args(r, f)
            if not excluded(f, a):
                jobs.append((f, a))
    # exact special arguments and the edges of the expansion regions
    edge = [1 + s * d for s in (-1, 1) for d in (0.0009999, 0.0010001, 0.004999, 0.005001, 0.00999, 0.010001,
                                               0.0199, 0.0201, 0.0299, 0.0301, 1e-5, 1e-8)]
    small = [1e-2 * (1 + s * 1e-6) for s in (-1, 1)] + [1e-4 * (1 + s * 1e-6) for s in (-1, 1)] + [1e-3, 3e-3, 5e-3, 0.09, 0.3]
    for f in loopgen.FNS:
        if f[0] in "Ffg":
            if f in loopgen.TWO:
                sg = (1, -1) if f in loopgen.SIGNED else (1,)
                vals = edge + small + [1.0, 0.5, 2.0, 7.0]
                for s1 in sg:
                    for x in vals:
                        for y in vals:
                            a = [s1 * x, y]
                            if not excluded(f, a):
                                jobs.append((f, a))
                            if s1 < 0:
                                jobs.append((f, [-x, -y]))
            else:
                for x in edge + small + [0.0, 1.0, 50.0, 99.0]:
                    jobs.append((f, [x]))
                    if f in loopgen.SIGNED:
                        jobs.append((f, [-x]))
    inp = "".join(f + " " + " ".join(x.hex() for x in a) + "\n" for f, a in jobs)
    outs = []
    for e in (exe, exe2):
        p = subprocess.run([e], input=inp, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines = p.stdout.splitlines()
        if p.returncode != 0 or len(lines) != len(jobs):
            raise drvlib.HarnessError(f"loopfn: rc {p.returncode}, {len(lines)}/{len(jobs)} events {p.stderr[-300:]}")
        outs.append(lines)
    ctx.log(f"{len(jobs)} calls recorded in two builds")
    full = []
    for (f, a), o in zip(jobs, outs[0]):
        re, im = (float.fromhex(x) for x in o.split())
        full.append((f, a, re, im))
    with mpp.Pool(drvlib.JOBS) as pool:
        refs = pool.map(one, full, chunksize=256)
    for (f, a, re, im), res, o2 in zip(full, refs, outs[1]):
        if res is None:
            continue
        d, tol, ref = res
        ctx.ev()
        ctx.seen("argument class", klass(f, a))
        ctx.count(f)
        re2, im2 = (float.fromhex(x) for x in o2.split())
        d2 = max(abs(re2 - re), abs(im2 - im))
        bad = not d <= tol or not d2 <= 2 * tol
        if bad:
            key = "f5-f8_at_(1,-1)" if known_corner(f, a) else f
            ctx.violate(key, f"{f}{tuple(a)} = {re!r} + {im!r} i (optimised build {re2!r}), reference {ref}, "
                             f"|difference| {d:.3e} > {tol:.3e}", {"call": f, "args": [x.hex() for x in a]})
        if not known_corner(f, a):
            ctx.track(f, d / tol if tol else 0, a)
    for f, a, re, im in full[::max(1, len(full) // 6)]:
        ctx.sample(f"{f}{tuple(a)} -> {re!r}")
    ctx.notes["domain"] = "mass ratios >= 1e-3 for F9, >= 1e-2 for the larger ratio of F8; off the divergent points of B0"
    return ctx.finish("exploration", "distinct (function, decade and sign of every argument, closeness to +-1)", 1000)
