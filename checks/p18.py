"""P18: what is written where, recorded per call in random histories."""
import concurrent.futures as cf
import re

import build
import drvlib
import match
import points

NAN = float("nan")
FAM = (("Stop", "MSt", "s2t", "theta_t"), ("Sbottom", "MSb", "s2b", "theta_b"), ("Stau", "MStau", "s2tau", "theta_tau"))
PRE = re.compile(r"^(\?\[[0-9;]*m)?Himalaya (warning|error|fatal error): ")
INFO = re.compile(r"^(?:\?\[[0-9;]*m)?Himalaya info: (?:\?\[[0-9;]*m)?(Stop|Sbottom|Stau) masses or mixing angle not provided")
NUM = r"(-?(?:[0-9.]+(?:e[-+]?\d+)?|inf|nan))"


def point(r):
    c = r.randrange(8)
    p = points.hierarchy_like(r) if c < 3 else points.mixed(r) if c == 3 else match.given(r, points.mixed(r)) if c == 4 else \
        match.coincident(r) if c == 5 else points.susy(r)
    if c == 6:
        p[r.choice(("mq2", "mu2", "md2"))][8] *= -1
    if c == 7:
        p["MG"] = r.choice((NAN, -1.0, p["MG"]))
        p["vu"] = r.choice((0.0, NAN, p["vu"]))
        p["MA"] = r.choice((p["MA"], 0.0, 1e8))
    if c == 4:      # part of the optional values missing
        for _, m, s, t in FAM:
            k = r.randrange(4)
            if k == 1:
                p[m] = [p[m][0], NAN]
            if k == 2:
                p[s] = NAN
            if k == 3:
                p[t], p[s] = r.uniform(-.7, .7), NAN
    return p


def missing(p):
    nan = lambda x: x != x
    return [n for n, m, s, t in FAM if nan(p[m][0]) or nan(p[m][1]) or (nan(p[s]) and nan(p[t]))]


def split_banner(lines):
    """removes complete banners (a block between two dotted lines); returns their number and the other lines"""
    n, rest, i = 0, [], 0
    while i < len(lines):
        if re.fullmatch(r"\.{20,}", lines[i]):
            j = next((k for k in range(i + 1, len(lines)) if re.fullmatch(r"\.{20,}", lines[k])), None)
            if j is not None and any(re.match(r"Himalaya \d+\.\d+\.\d+", x) for x in lines[i:j]):
                n += 1
                i = j + 1
                continue
        rest.append(lines[i])
        i += 1
    return n, rest


def quiet(lines):
    return [x for x in lines if x and not PRE.match(x)]


HO = [    # label in the printed result, recorded value
    ("Ren. scheme", None), ("Hierarchy", "hierarchy"), ("Ms_1", ("mdrMasses", 0)), ("Ms_2", ("mdrMasses", 1)),
    ("Abs. diff 2L", "AbsDiff2L"), ("Rel. diff 2L", "RelDiff2L"),
    ("Mh^2_0L", "DMh0"), ("ΔMh^2_1L", "DMh1"), ("ΔMh^2_2L", "DMh2L"), ("ΔMh^2_3L", "DMh3"),
    ("Exp. uncert. 1L", ("expUnc", 0)), ("Exp. uncert. 2L", ("expUnc", 1)), ("Exp. uncert. 3L", ("expUnc", 2)),
    ("DR' -> MDR' shift", "mdrShift"), ("DR' -> H3m shift", "h3mShift"),
    ("Δλ_0L", ("DLambda", 0)), ("Δλ_1L", ("DLambda", 1)), ("Δλ_2L", ("DLambda", 2)), ("Δλ_3L", ("DLambda", 3)),
    ("Δλ_0L DR' -> MS shift", ("DLambdaMSbarShift", 0)), ("Δλ_1L DR' -> MS shift", ("DLambdaMSbarShift", 1)),
    ("Δλ_2L DR' -> MS shift", ("DLambdaMSbarShift", 2)), ("Δλ_3L DR' -> MS shift", ("DLambdaMSbarShift", 3)),
    ("Mh^2_EFT_0L", ("DMh2EFT", 0)), ("ΔMh^2_EFT_1L", ("DMh2EFT", 1)), ("ΔMh^2_EFT_2L", ("DMh2EFT", 2)), ("ΔMh^2_EFT_3L", ("DMh2EFT", 3)),
    ("Mh^2_FO_0L", ("DMh2FO", 0)), ("ΔMh^2_FO_1L", (("DMh2FOAt", 1), ("DMh2FO", 1))), ("ΔMh^2_FO_2L", (("DMh2FOAt", 2), ("DMh2FO", 2))),
    ("ΔMh^2_FO_3L", (("DMh2FOAt", 3), ("DMh2FO", 3)))]


def value(e, k):
    if isinstance(k, str):
        return e[k] if isinstance(e[k], list) else [e[k]]
    return [e[k[0]][k[1]]]


def same6(a, b):
    """a was printed with six digits"""
    return a == b or (a != a and b != b) or abs(a - b) <= 6e-6 * abs(b)


def printed(ctx, e, req):
    got = {}
    for line in e["text"].split("\n"):
        if "=" in line:
            k, _, v = line.partition("=")
            k = re.sub(r"^Ms(top|bottom)_", "Ms_", k.strip())
            got.setdefault(k, []).append([float(x) for x in re.findall(NUM + r"(?=[,}\s]|$)", v.split("O(")[0].split("(")[0])])
    for label, keys in HO:
        if keys is None:
            continue
        ctx.ev()
        if label not in got:
            ctx.count("label not printed: " + label)
            continue
        ks = keys if isinstance(keys[0], tuple) else (keys,)
        for k, g in zip(ks, got[label]):
            w = value(e, k)
            f = 100 if label.startswith("Rel.") else 1
            if len(g) < len(w) or not all(same6(a, f * b) for a, b in zip(g, w)):
                ctx.violate(f"printed:{label}", f"printed result says {label} = {g}, the object returns {w}", req)
    for w, line in (("H3m", "H3m scheme"), ("DR'", "DR'")):
        scheme = [x for x in e["text"].split("\n") if x.startswith("Ren. scheme")]
        want = "H3m scheme" if e["renScheme"] in (0, 2) else "DR'"
        if scheme and not scheme[0].endswith(want):
            ctx.violate("printed:scheme", f"printed result says {scheme[0]!r}, scheme is {e['renScheme']}", req)


def history(job):
    exe, reqs = job
    return drvlib.run_shard(exe, reqs)


def run(ctx):
    exe = build.build("streams", ["streams.cpp"])
    r = ctx.rng()
    jobs = []
    for h in range(ctx.n(250, 2500)):
        steps = []
        for _ in range(12):
            p = point(r)
            cmd = r.choice(("validate", "hc", "hc", "hc", "eft", "tc", "fo"))
            ab = r.randrange(2)
            steps += [(cmd, 0, ab, p), (cmd, 1, ab, p)]
        if h % 3 == 0:
            steps.append(("threads", r.choice((2, 4, 8)), 0, match.given(r, points.susy(r))))     # nothing else to print
        r.shuffle(steps)
        if h % 6 == 3:
            steps.insert(0, steps.pop(next(i for i, s in enumerate(steps) if s[0] == "threads")))
        jobs.append((exe, steps, [f"{c} {v} {ab} {points.ser(p)}" for c, v, ab, p in steps]))
    with cf.ThreadPoolExecutor(drvlib.JOBS) as ex:
        res = list(ex.map(history, [(j[0], j[2]) for j in jobs]))
    for h, ((_, steps, reqs), events) in enumerate(zip(jobs, res)):
        banners, due = 0, False
        pair = {}
        for k, ((cmd, verbose, ab, p), q, e) in enumerate(zip(steps, reqs, events)):
            where = f"history {h} step {k} {cmd} verbose={verbose}"
            replay = reqs[:k + 1] if k < 6 else q
            if "crash" in e:
                ctx.violate("crash", f"{where}: {e}", replay)
                continue
            stages = [x[:-4] for x in e if x.endswith(".out")]
            for s in stages:
                ctx.ev()
                ctx.count("bytes captured", len(e[s + ".out"]) + len(e[s + ".err"]))
                if e[s + ".out"]:
                    ctx.violate(f"stdout:{cmd}.{s}", f"{where} {s} wrote to the standard output: {e[s + '.out'][:200]!r}", replay)
                if not e[s + ".state"]:
                    ctx.violate(f"state:{cmd}.{s}", f"{where} {s} changed the state of a standard stream or the rounding mode", replay)
                lines = [x for x in e[s + ".err"].split("\n")]
                info = cmd == "threads" or (verbose and s in ("validate", "construct"))
                if not info:
                    bad = quiet(lines)
                    if bad:
                        ctx.violate(f"noise:{cmd}.{s}", f"{where} {s} wrote to the error stream: {bad[0][:200]!r}", replay)
                    if any(lines):
                        ctx.count("warnings", sum(1 for x in lines if x))
                    continue
                n, rest = split_banner(lines)
                if cmd == "threads" and any(rest):
                    ctx.violate("noise:threads", f"{where}: wrote {rest[:3]}", replay)
                banners += n
                ctx.count("banners", n)
                if n and cmd not in ("hc", "threads"):
                    ctx.violate("banner:where", f"{where} {s} printed the banner", replay)
                if banners > 1:
                    ctx.violate("banner:repeated", f"{where} {s}: {banners} banners in one process", replay)
                if cmd == "threads":
                    due = True
                else:
                    due = due or (cmd == "hc" and not e[s + ".thrown"])
                    blocks = [m.group(1) for m in map(INFO.match, rest) if m]
                    want = missing(p) if not (cmd == "fo" and s == "construct") else []
                    if (blocks != want) if not e[s + ".thrown"] else (blocks != want[:len(blocks)]):
                        ctx.violate(f"info:{cmd}", f"{where}: reports {blocks} as not provided instead of {want}", replay)
                    other = [x for x in quiet(rest) if not INFO.match(x) and not x.startswith("?")]
                    if other:
                        ctx.violate(f"other:{cmd}", f"{where} {s} wrote {other[0][:200]!r}", replay)
                    if cmd == "validate" and not e[s + ".thrown"]:
                        txt = "\n".join(rest)
                        for name, m, s2, th in FAM:
                            g = re.search(name.lower() + r" masses: " + NUM + " GeV, " + NUM + r" GeV,\n\?mixing angle sin\(2\*theta_\w+\) = " + NUM + r", theta_\w+ = " + NUM, txt)
                            if name in blocks:
                                ctx.ev()
                                w = [*e[m], abs(e[s2]), abs(e[th])]
                                if not g:
                                    ctx.count("information in an unknown form")
                                elif not all(abs(abs(float(a)) - b) <= 1e-5 * b + 1e-12 for a, b in zip(g.groups(), w)):
                                    ctx.violate(f"info:value:{m}", f"{where}: printed {g.groups()}, calculated {w}", replay)
                if due and banners != 1:
                    ctx.violate("banner:missing", f"{where}: no banner although a verbose calculator was created", replay)
                    due = False
            if "text" in e:
                printed(ctx, e, q)
                if not e.get("kept", 1):
                    ctx.violate("format", f"{where}: printing a result or parameter set changes the format of the stream", replay)
            for s in ("bad1", "bad2"):
                if s in stages and not e[s + ".thrown"]:
                    ctx.violate("no-exception", f"{where}: a result for a non-existing loop order was returned", replay)
            ctx.seen(f"{cmd} verbose={verbose}", q)
            if any(e[s + ".thrown"] for s in stages if not s.startswith("bad")):
                ctx.count("calls that threw")
            # verbosity never changes a number
            key = (cmd, ab, id(p))
            num = {k: v for k, v in e.items() if not k.endswith((".out", ".err", ".state"))}
            if cmd != "threads":
                if key in pair:
                    ctx.ev()
                    if repr(pair[key]) != repr(num):
                        d = next((x for x in num if repr(num[x]) != repr(pair[key].get(x))), "?")
                        ctx.violate(f"verbosity:{cmd}", f"{where}: {d} depends on verbosity: {pair[key].get(d)} and {num.get(d)}", replay)
                pair[key] = num
        if h % 7 == 0:
            ctx.sample(f"history {h}: {len(reqs)} calls, {banners} banner")
    return ctx.finish("exercised", "distinct (call, verbosity, parameter set) whose output was captured", 1000)
