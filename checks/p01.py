"""P01: race freedom (TSan) and bitwise agreement of concurrent and serial runs."""
import re
import subprocess

import build
import drvlib
import points

KINDS = ("calc t", "calc b", "calc verbose", "calc t", "fixed order + 2-loop", "EFT", "thresholds", "all entry points")


def serialise(tasks):
    return "".join(f"{k} {points.ser(p)}\n" for k, p in tasks)


def execute(exe, threads, seed, rounds, text, timeout, env=None):
    import os
    r = subprocess.run([exe, str(threads), str(seed), str(rounds)], input=text, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace",
                       env={**os.environ, **(env or {})})
    return r


def parse(out):
    pts, sig = {}, None
    for ln in out.splitlines():
        if ln.startswith("P "):
            f = ln.split()
            pts[int(f[1])] = (f[2] == "1", int(f[3]), tuple(f[4:]))
        elif ln.startswith("S "):
            sig = ln.split()[1:]
    return pts, sig


def run(ctx):
    plain = build.build("conc", ["conc.cpp"])
    tsan = build.build("conc", ["conc.cpp"], variant="tsan")
    ctx.log("built")
    r = ctx.rng()

    def workload(n):
        tasks = []
        for i in range(n):
            p = points.vary(r, tasks[-1][1]) if tasks and r.random() < .25 else points.mixed(r)
            if r.random() < .08:                  # failing calculations take part too
                p["mq2"][8] = -p["mq2"][8]
            if r.random() < .1:                   # degenerate branch of the two-loop formulas
                p["mu2"][8] = p["mq2"][8]
                p["Au"][8] = p["mu"] * p["vd"] / p["vu"]
            if i % 7 == 5 or r.random() < .05:    # hostile values: other branches, warnings, exceptions
                for _ in range(r.randrange(0, 4)):
                    f = r.choice(("mu", "g1", "g3", "mq2", "mu2", "md2", "ml2", "Au", "Ad", "Yu", "Yd", "Ye", "MG", "MA", "M1", "M2", "Mb", "Mtau", "scale", "vu"))
                    x = r.choice((0., float("nan"), float("inf"), -1., 1e-300, 1e150, 1., 1e8))
                    if isinstance(p[f], list):
                        p[f] = list(p[f])
                        p[f][8] = x
                    else:
                        p[f] = x
            tasks.append((7 if r.random() < .2 else i % 7, p))
        r.shuffle(tasks)
        return tasks

    def one(exe, name, tasks, threads, seed, rounds, env=None):
        text = serialise(tasks)
        ser = execute(plain if exe is plain else exe, 1, 0, 1, text, 800, env)
        if ser.returncode != 0:
            ctx.violate(name + " serial", f"serial run ended with {ser.returncode}: {ser.stderr[-600:]}", text)
            return
        ref, _ = parse(ser.stdout)
        # a different serial process in reversed order of the points: the results of the serial reference are history free
        try:
            par = execute(exe, threads, seed, rounds, text, 800, env)
        except subprocess.TimeoutExpired:
            ctx.violate(name + " hang", "concurrent run did not end (deadlock)", text)
            return
        race = re.findall(r"WARNING: ThreadSanitizer: ([^\n]*)", par.stderr)
        if race:
            where = re.findall(r"#0 ([^\n]*)", par.stderr)[:2]
            ctx.violate("race", f"{race[0]} {where} ({len(race)} reports)\n{par.stderr[:3000]}",
                        {"threads": threads, "seed": seed, "rounds": rounds, "points": text})
            return
        if par.returncode != 0:
            ctx.violate(name + " crash", f"concurrent run ended with {par.returncode}: {par.stderr[-800:]}",
                        {"threads": threads, "seed": seed, "rounds": rounds, "points": text})
            return
        got, sig = parse(par.stdout)
        if len(got) != len(tasks) or len(ref) != len(tasks):
            raise drvlib.HarnessError("missing events")
        ctx.seen("interleaving", sig[0])
        ctx.count(name + " thread switches", int(sig[1]))
        ctx.count(name + " concurrent calculations", int(sig[2]))
        for i, (kind, p) in enumerate(tasks):
            ok, bad, vals = got[i]
            ctx.ev(threads * rounds)
            ctx.seen("task kind", kind)
            if not ok:
                ctx.violate("threads disagree", f"{KINDS[kind]}: thread {bad} obtained other bits than thread 0",
                            {"threads": threads, "seed": seed, "rounds": rounds, "points": text, "index": i})
            elif vals != ref[i][2]:
                d = [(j, a, b) for j, (a, b) in enumerate(zip(vals, ref[i][2])) if a != b][:3]
                ctx.violate("differs from serial", f"{KINDS[kind]}: entries {d}",
                            {"threads": threads, "seed": seed, "rounds": rounds, "points": text, "index": i})
        ctx.sample(f"{name}: {threads} threads, {len(tasks)} points x {rounds} rounds, "
                   f"{sig[1]} switches in {sig[2]} starts, signature {sig[0]}")

    env = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 report_signal_unsafe=0 history_size=4"}
    for k in range(ctx.n(16, 160)):
        one(tsan, "tsan", workload(ctx.n(28, 56)), (2, 8, 4, 16)[k % 4], ctx.seed * 100 + k, 2, env)
        if ctx.violations:
            break
    ctx.log("tsan runs done")
    for k in range(ctx.n(6, 60)):
        one(plain, "plain", workload(ctx.n(210, 420)), (8, 16, 2, 32, 3, 64)[k % 6], ctx.seed * 100 + 50 + k, 3 if k % 6 < 3 else 1)
    ctx.log("plain runs done")
    return ctx.finish("exploration", "distinct global start orders of tasks over threads (hash), plus task kinds", 500)
