"""P02: random call histories compared bitwise with first calls in fresh processes."""
import concurrent.futures as cf
import subprocess

import build
import drvlib
import points


def run(ctx):
    exe = build.build("hist", ["hist.cpp"])
    ctx.log("built")
    r = ctx.rng()
    jobs = []
    n, length = ctx.n(600, 12000), 60
    for k in range(n):
        pts = [points.mixed(r) for _ in range(4)]
        pts += [points.vary(r, pts[0]), points.vary(r, pts[0]), points.vary(r, pts[1])]
        bad = points.susy(r)
        bad["mu2"][8] *= -1 if r.random() < .5 else 1
        bad["MG"] = bad["MG"] if r.random() < .5 else float("nan")
        pts.append(bad)
        heavy = points.susy(r, msq_rel=0.2)      # no suitable hierarchy: the calculation throws
        pts.append(heavy)
        jobs.append((pts, r.randrange(1 << 31)))

    def work(chunk):
        out = []
        for pts, seed in chunk:
            txt = "".join("P " + points.ser(p) + "\n" for p in pts) + f"H {seed} {length}\n"
            q = subprocess.run([exe], input=txt, text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
            if q.returncode != 0:
                raise drvlib.HarnessError(f"hist ended with {q.returncode}")
            out.append((pts, seed, txt, q.stdout))
        return out

    with cf.ThreadPoolExecutor(drvlib.JOBS) as ex:
        res = [x for c in ex.map(work, [jobs[i::drvlib.JOBS] for i in range(drvlib.JOBS)]) for x in c]
    for pts, seed, txt, out in res:
        lines = out.splitlines()
        e = [x.split() for x in lines if x.startswith("E ")]
        for x in lines:
            if x.startswith("X "):
                ctx.violate("crash", f"history {seed} ended the process: {x}", txt)
            if x.startswith("D "):
                k = " ".join(x.split()[2:6])
                ctx.violate("history " + k, x, txt)
        if not e:
            if not any(x.startswith("X ") for x in lines):
                raise drvlib.HarnessError("no end of history")
            continue
        ctx.ev(int(e[0][2]))
        ctx.count("calls that threw", int(e[0][3]))
        ctx.count("fresh-process references", int(e[0][5]))
        ctx.count("histories")
        ctx.seen("call sequence", e[0][6])
        ctx.sample(f"history {seed}: {e[0][2]} calls, {e[0][3]} threw, {e[0][4]} differ, signature {e[0][6]}")
    return ctx.finish("exploration", "distinct sequences of (object kind, operation) in a history", 1000)
