#!/usr/bin/env python3
"""Records data/reference.npz from the current tree: python3-vt tools/rec22.py (only after a repair that changes numbers).

The tolerance of every number is its spread over compilers' evaluation orders and over changes of the input by a few ulp."""
import math
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib", V + "/checks"]
import build      # noqa: E402
import drvlib     # noqa: E402
import match      # noqa: E402
import points     # noqa: E402
import table      # noqa: E402
from p20 import ORD, fl   # noqa: E402

FLAGS = list(ORD)
VAR = {"O0": ["-O0", "-g0"],
       "re": ["-O2", "-g0", "-march=native", "-ffp-contract=fast", "-fassociative-math", "-fno-signed-zeros", "-fno-trapping-math"]}


def pts(name, n, off=0):
    r = points.Rng("ref22/" + name)
    out = []
    for i in range(n):
        c = (i + off) % 7
        p = points.hierarchy_like(r) if c in (0, 1) else points.susy(r) if c == 2 else points.degenerate_like(r) if c == 3 else \
            match.heavy(r, r.logu(300, 2e4), r.logu(1, 60), f"{name}{i}") if c == 4 else match.coincident(r) if c == 5 else match.given(r, points.mixed(r))
        if i % 8 == 3:        # light sparticles, small or large tan(beta)
            for k in ("M1", "M2", "mu", "MA"):
                p[k] = math.copysign(r.logu(60, 500), p[k])
        if i % 9 == 4:
            for k in ("Yu", "Yd", "Ye"):
                p[k] = [x + r.uniform(-.02, .02) for x in p[k]]
        if i % 11 == 6:
            v, tb = 246.0, r.choice((.5, 1.5, 70.0))
            p["vd"] = v / math.sqrt(1 + tb * tb)
            p["vu"] = p["vd"] * tb
        out.append((p, r))
    return out


def requests():
    R = []
    one = lambda p: points.ser(p)
    for i, (p, r) in enumerate(pts("hier", 300)):
        R.append(("hier", f"{int(i % 5 == 3)} {i % 2}", p))
    for i, (p, r) in enumerate(pts("full", 450)):
        R.append(("full", f"{int(i % 5 == 2)}", p))
    for i, (p, r) in enumerate(pts("fo", 250)):
        R.append(("fo", f"{int(i % 4 == 3)} {i % 2} {i % 3} 0 {r.choice((0.0, 1e4, 15625.0, 1e6)).hex()}", p))
    P = pts("foflag", 4 * len(FLAGS), 2)
    for i, (p, r) in enumerate(P):
        f = FLAGS[i // 4]
        on = match.flags([f]) if i % 2 else fl({f: 0})
        R.append(("fo", f"0 0 1 {on} {0.0.hex()}", p))
    for i, (p, r) in enumerate(pts("eft", 150)):
        R.append(("eft", fl({k: 1 for k in FLAGS}) if i % 2 else "0", p))
    for i, (p, r) in enumerate(pts("eftflag", 4 * len(FLAGS), 4)):
        f = FLAGS[i // 4]
        R.append(("eft", match.flags([f]) if i % 2 else fl({**{k: 1 for k in FLAGS}, f: 0}), p))
    for i, (p, r) in enumerate(pts("tc", 240, 1)):
        R.append(("tc", f"{i % 7 - 1} {(-1, -1, 0, 1, 2, 3, 4, 5)[i % 8]}", p))
    for i, (p, r) in enumerate(pts("spec", 80)):
        R.append(("spec", "1", p))
    for i, (p, r) in enumerate(pts("p2", 60, 3)):
        xs = [0.0, 1e-3, 1e4, 1.6e4, 1e6, 2.5e7]
        R.append(("p2", f"{i % 3 // 2} {len(xs)} " + " ".join(x.hex() for x in xs), p))
    for i, (p, r) in enumerate(pts("deg", 30)):
        R.append(("deg", f"{r.logu(500, 5e3).hex()} {r.logu(500, 5e3).hex()} {r.uniform(-3e3, 3e3).hex()} {i % 2}", p))
    return R


def jitter(p, k):
    """changes every magnitude by a few ulp; equal magnitudes (masses and their squares) stay equal"""
    def f(key, x):
        if x == 0 or not math.isfinite(x):
            return x
        sq = key in ("mq2", "mu2", "md2", "ml2", "me2")
        m = abs(x) ** .5 if sq else abs(x)
        e = points.Rng(f"{k}/{m:.11e}").choice((-1, 0, 1)) * 4e-16
        return x * (1 + e) ** (2 if sq else 1)
    q = p.copy()
    for key in points.ORDER:
        if key == "massLimit3LThreshold":
            continue
        q[key] = [f(key, x) for x in p[key]] if isinstance(p[key], list) else f(key, p[key])
    return q


def req(a):
    return f"{a[0]} {a[1]} {points.ser(a[2])}".replace("  ", " ")


def main():
    R = requests()
    exe, has = build.build_drv()
    assert has
    base = [table.flatten(e) for e in drvlib.run(exe, [req(a) for a in R])]
    others = []
    for k in range(6):
        others.append(drvlib.run(exe, [req((a[0], a[1], jitter(a[2], k))) for a in R]))
    for n, f in VAR.items():
        build.VARIANTS["rec" + n] = f
        x, _ = build.build_drv(variant="rec" + n)
        others.append(drvlib.run(x, [req(a) for a in R]))
        others.append(drvlib.run(x, [req((a[0], a[1], jitter(a[2], n))) for a in R]))
    keep, kept = [], []
    spreads = []
    bad = 0
    for i, e in enumerate(base):
        s = {k: [0.0] * len(v) for k, v in e.items()}
        for o in others:
            g = table.flatten(o[i])
            for k, v in e.items():
                w = g.get(k)
                if w is None or len(w) != len(v):
                    s[k] = [math.inf] * len(v)
                    continue
                for j, (x, y) in enumerate(zip(v, w)):
                    d = abs(x - y)
                    s[k][j] = max(s[k][j], d) if d == d else math.inf
        if all(math.isinf(x) for v in s.values() for x in v):
            bad += 1
            continue
        keep.append(req(R[i]))
        kept.append(e)
        spreads.append(s)
    table.save(table.PATH, keep, kept, spreads)
    T = table.load()
    n = good = 0
    for r, d in T:
        for v, t in d.values():
            n += len(v)
            good += int(((t < 1e-6 * abs(v)) | ((v == 0) & (t < 1e-6))).sum())
    print(len(keep), "requests", bad, "without reproducible numbers;", n, "numbers,", good, "known to better than 1e-6;",
          os.path.getsize(table.PATH) // 1024, "kB")


if __name__ == "__main__":
    main()
