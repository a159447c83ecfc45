"""P03: hostile inputs under ASan+UBSan (+ libstdc++/Eigen assertions) and memcheck."""
import concurrent.futures as cf
import os
import re
import subprocess
import tempfile

import build
import drvlib
import points

HOSTILE = [0.0, -0.0, float("nan"), float("inf"), float("-inf"), 1e308, -1e308, 1e-308, 5e-324, -5e-324, 1e154, 1e-154,
           1.0, -1.0, 1e10, 1e-10, 1e16, 1e5, -1e5, 2147483648.0, 4294967296.0, 1e19, 1e38]
SCALARS = ["scale", "mu", "g1", "g2", "g3", "vd", "vu", "M1", "M2", "MG", "MW", "MZ", "Mt", "Mb", "Mtau", "MA",
           "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau"]


def hostile(r):
    """returns (label, point)"""
    p = points.mixed(r)
    c = r.random()
    tags = []
    if c < .12:
        tags.append("regular")
    if c > .95:
        tags.append("all")
        for k in SCALARS:
            p[k] = r.choice(HOSTILE)
        for k in points.M33 + ["MSt", "MSb", "MStau"]:
            p[k] = [r.choice(HOSTILE) for _ in p[k]]
        return "all fields", p
    n = 0 if c < .12 else r.choice((1, 1, 1, 2, 3, 6))
    for _ in range(n):
        k = r.choice(SCALARS + points.M33 * 2 + ["MSt", "MSb", "MStau"] * 2)
        v = r.choice(HOSTILE) if r.random() < .7 else r.choice([p["MG"], p["mu"], p["scale"], -p["scale"], r.logu(1e-12, 1e12)])
        if isinstance(p[k], list):
            i = r.choice([8, 8, 0, 4, r.randrange(9)]) if len(p[k]) == 9 else r.randrange(2)
            p[k][i] = v
            tags.append(f"{k}[{i}]={v if v in HOSTILE else '*'}")
        else:
            p[k] = v
            tags.append(f"{k}={v if v in HOSTILE else '*'}")
    c = r.random()
    if c < .1:       # explicitly given masses and angles
        for k in ("MSt", "MSb", "MStau"):
            m = r.logu(1, 1e5)
            p[k] = r.choice([[m, m], [m, 2 * m], [2 * m, m], [0.0, m], [0.0, 0.0], [m, m * (1 + 1e-9)]])
        for k in ("s2t", "s2b", "s2tau"):
            p[k] = r.choice([0.0, 1.0, -1.0, .3, 1.0000001, 2.0, float("nan")])
        tags.append("explicit masses")
    elif c < .2:     # everything degenerate
        m = r.choice([p["MG"], 1000.0, 91.0, 173.0])
        for k in ("mq2", "mu2", "md2", "ml2", "me2"):
            p[k] = points.diag(m * m, m * m, m * m)
        p["MG"] = m
        if r.random() < .5:
            p["mu"] = p["M1"] = p["M2"] = p["MA"] = p["scale"] = m
        if r.random() < .5:
            p["Au"], p["Ad"], p["Ae"] = points.zero33(), points.zero33(), points.zero33()
            p["mu"] = 0.0
        tags.append("degenerate")
    elif c < .3:     # vanishing sectors
        for k in r.sample(["Yu", "Yd", "Ye", "Au", "Ad", "Ae", "mq2", "mu2", "md2", "ml2", "me2"], 3):
            p[k] = points.zero33()
        for k in r.sample(["g1", "g2", "g3", "MG", "M1", "M2", "mu", "MA"], 2):
            p[k] = 0.0
        tags.append("vanishing")
    elif c < .4:     # generation mixing
        for k in ("Yu", "Yd", "Ye", "mq2", "mu2"):
            for i in range(9):
                if i % 4:
                    p[k][i] = r.uniform(-1, 1) * p[k][8]
        tags.append("off-diagonal")
    p["massLimit3LThreshold"] = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, -1, 2147483647, -2147483648])
    return " ".join(sorted(tags)) or "regular", p


def summary(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*)", err)
    where = re.search(r"^[^\n]*?(?:source|include)/himalaya/[^\n]*", err, re.M)
    fr = re.findall(r"#\d+ [^\n]*?in ([\w:~<>]+)[^\n]*?/himalaya/([\w./]+)", err)
    return (m.group(1) if m else err[-300:]) + (" @ " + where.group(0)[:160] if where else "") + (f" in {fr[0]}" if fr else ""), fr[0] if fr else ""


FIELDS = ("scale mu g1 g2 g3 vd vu mq2 md2 mu2 ml2 me2 Au Ad Ae Yu Yd Ye M1 M2 MG MW MZ Mt Mb Mtau MA MSt MSb MStau s2t s2b s2tau "
          "theta_t theta_b theta_tau massLimit3LThreshold").split()
UNSET = [f for f in FIELDS if f not in ("scale", "g3", "vd", "vu", "mq2", "mu2", "md2", "ml2", "me2", "MG")]     # documented defaults


def poison(ctx, exe):
    """results do not depend on the contents of fresh memory, also if fields keep their documented defaults"""
    r = ctx.rng("poison")
    reqs, masks = [], []
    for i in range(ctx.n(60, 1500)):
        p = points.mixed(r) if i % 2 else points.susy(r)
        if i < len(UNSET):
            unset = {UNSET[i]}
        elif i % 7 == 0:
            unset = set(r.sample(FIELDS, r.randrange(1, 37)))
        else:
            unset = set(r.sample(UNSET, r.randrange(0, 12)))
        q = p.with_(**{f: default(p, f) for f in unset})
        m = "".join("01"[f not in unset] for f in FIELDS)
        reqs += [f"poison {c} {m} {points.ser(p)}" for c in (0, 0x42, 0xff)] + [f"poison 0 {'1' * len(FIELDS)} {points.ser(q)}"]
        masks.append(unset)
    runs = [[], []]
    for k, env in enumerate(({"MALLOC_PERTURB_": "0"}, {"MALLOC_PERTURB_": "189"})):
        runs[k] = drvlib.run(exe, reqs, env=env)
    for i, unset in enumerate(masks):
        ev = [e for run in runs for e in run[4 * i:4 * i + 4]]
        if any("crash" in e for e in ev):
            ctx.violate("poison:crash", f"fields {sorted(unset)} unset: {[e for e in ev if 'crash' in e][0]}"[:300], reqs[4 * i])
            continue
        ctx.ev(len(ev))
        ctx.seen("fields left at their defaults", " ".join(sorted(unset)))
        ctx.count("results compared across memory contents", int(ev[0]["lines"]))
        for e in ev[1:]:
            if e["hash"] != ev[0]["hash"]:
                d = [k for k, (a, b) in enumerate(zip(e["parts"], ev[0]["parts"])) if a != b]
                ctx.violate("uninitialised:" + (" ".join(sorted(unset)) if len(unset) == 1 else "several"),
                            f"fields {sorted(unset)} unset: results depend on the contents of uninitialised memory (parts {d[:5]} of {len(e['parts'])} differ)", reqs[4 * i])
                break


def default(p, f):
    if f in ("MW", "MZ", "Mt", "Mb", "Mtau", "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau"):
        return float("nan")
    if f in ("MSt", "MSb", "MStau"):
        return [float("nan")] * 2
    if f == "massLimit3LThreshold":
        return 0
    return [0.0] * 9 if isinstance(p[f], list) else 0.0


def run(ctx):
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build.build, "hostile", ["hostile.cpp"], None, "asan")
        exe = a.result()
    plain = build.build("hostile", ["hostile.cpp"], variant="o0")
    pattern = build.build("hostile", ["hostile.cpp"], variant="pattern")
    ctx.log("built")
    r = ctx.rng()
    pts = [hostile(r) for _ in range(ctx.n(3000, 60000))]
    reqs = [f"all {r.randrange(1 << 30)} {points.ser(p)}" for _, p in pts]
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=1"}
    ev = drvlib.run(exe, reqs, env=env, timeout=240 if not ctx.thorough else 3000)
    for (tag, p), q, e in zip(pts, reqs, ev):
        ctx.ev()
        for t in tag.split(" "):
            ctx.seen("hostile feature", t)
        if "crash" in e:
            what, key = summary(e.get("stderr", ""))
            ctx.violate(f"{'hang' if e['crash'] == 'hang' else 'sanitizer'} {key}", f"[{tag}] rc={e['crash']} {what}", q)
        elif "exception" in e:
            raise drvlib.HarnessError("unexpected event " + str(e))
        else:
            ctx.count("calls that returned", int(e["returned"]))
            ctx.count("calls that threw", int(e["threw"]))
            ctx.seen("outcome (returned, threw)", (e["returned"], e["threw"]))
    ctx.log("sanitizer workload done")
    # uninitialised values: the same code with every local variable initialised with a pattern gives the same results
    runs = [drvlib.run(x, reqs, timeout=240 if not ctx.thorough else 3000) for x in (plain, pattern)]
    for q, a, b in zip(reqs, *runs):
        if "crash" in a or "crash" in b:
            ctx.violate("crash without sanitizer", str(a if "crash" in a else b)[:300], q)
            continue
        ctx.ev()
        ctx.count("results compared with those of initialised local variables", int(a["values"]))
        if a["hash"] != b["hash"] or a["values"] != b["values"]:
            ctx.violate("uninitialised local", "results depend on the contents of uninitialised local variables", q)
    ctx.log("initialisation workload done")
    # uninitialised values: memcheck on a sample
    n = ctx.n(64, 600)
    sel = list(range(0, len(reqs), max(1, len(reqs) // n)))[:n]

    def mem(idx):
        fd, logf = tempfile.mkstemp(prefix="hvg")
        os.close(fd)
        try:
            q = subprocess.run(["valgrind", "-q", "--error-exitcode=43", "--exit-on-first-error=no", "--leak-check=no",
                                "--log-file=" + logf, plain], input="\n".join(reqs[i] for i in idx) + "\n", text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700 if not ctx.thorough else 6000, errors="replace")
            return idx, q.returncode, len(q.stdout.splitlines()), open(logf, errors="replace").read()
        finally:
            os.unlink(logf)

    with cf.ThreadPoolExecutor(drvlib.JOBS) as ex:
        for idx, rc, n_ev, log in ex.map(mem, [sel[i::drvlib.JOBS] for i in range(min(drvlib.JOBS, len(sel)))]):
            ctx.count("requests under memcheck", len(idx))
            ctx.ev(len(idx))
            if rc != 0:
                errs = re.findall(r"==\d+== ((?:Conditional|Use of|Invalid|Syscall|Process)[^\n]*)\n(?:==\d+==\s+(?:at|by)[^\n]*: ([^\n]*))?", log)
                ctx.violate(f"memcheck {errs[0][0] if errs else rc}", f"rc={rc} {errs[:3]} {log[:1500]}", [reqs[i] for i in idx])
            elif n_ev != len(idx):
                raise drvlib.HarnessError("memcheck run incomplete")
    poison(ctx, plain)
    for t, _ in pts[:8]:
        ctx.sample(t)
    return ctx.finish("exploration", "distinct hostile field values/patterns and distinct outcome profiles", 500)
