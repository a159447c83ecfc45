"""P22: every number equals the recorded reference value within its measured conditioning."""
import numpy as np

import build
import drvlib
import table


def compare(ctx, T, events, label):
    for (req, want), e in zip(T, events):
        got = table.flatten(e)
        kind = req.split(" ", 1)[0]
        if "!" in got and "!" not in want:
            ctx.violate(f"{kind}:failure", f"{label}{kind}: {str(e)[:200]}", req)
            continue
        for k, (v, t) in want.items():
            if k not in got:
                ctx.count("not recorded by this build: " + k.split("_")[0])
                continue
            g = np.array(got[k], float)
            if len(g) != len(v):
                ctx.violate(f"{kind}:{k}", f"{label}{kind} {k}: {len(g)} numbers instead of {len(v)}", req)
                continue
            ok = np.isfinite(v) & (t < np.maximum(1e-2 * np.abs(v), 1e-300 + 1e-6 * (v == 0)))
            with np.errstate(all="ignore"):
                d = np.abs(g - v)
                bad = ok & ~(d <= t)
            ctx.ev(int(ok.sum()))
            ctx.count("ill-conditioned or undefined: not judged", int((~ok).sum()))
            if ok.any():
                with np.errstate(all="ignore"):
                    ctx.track(f"{kind} {k.split('_')[0]}", float(np.nan_to_num(d[ok] / t[ok], nan=1e9).max()), req[:60])
            if bad.any():
                j = int(np.argmax(bad))
                ctx.violate(f"{kind}:{k}", f"{label}{kind} {k}[{j}]: {g[j]!r} instead of {v[j]!r} (tolerance {t[j]:.1e}; "
                            f"{int(bad.sum())} of {len(g)} differ)", req)
        ctx.seen(label + kind, req)


def run(ctx):
    T = table.load()
    reqs = [r for r, _ in T]
    exe, _ = build.build_drv()
    compare(ctx, T, drvlib.run(exe, reqs), "")
    ctx.sample(f"{len(T)} recorded events, first request: {reqs[0][:120]}")
    if ctx.thorough:
        # other evaluation orders of the same expressions
        for n, f in (("O0", ["-O0", "-g0"]), ("O2", ["-O2", "-g0"]), ("fma", ["-O2", "-g0", "-march=native", "-ffp-contract=fast"])):
            build.VARIANTS["v" + n] = f
            x, _ = build.build_drv(variant="v" + n)
            compare(ctx, T, drvlib.run(x, reqs), n + " ")
    return ctx.finish("exercised", "distinct recorded requests whose numbers were compared with the reference", 50000)
