"""P12: dimensional scaling and exact symmetries, on recorded pairs of evaluations."""
import math

import build
import drvlib
import points
from p06 import NAMES, msq
from p20 import IDX, ORD, fl, jitter

D = dict(scale=1, mu=1, vd=1, vu=1, mq2=2, md2=2, mu2=2, ml2=2, me2=2, Au=1, Ad=1, Ae=1, M1=1, M2=1, MG=1,
         MW=1, MZ=1, Mt=1, Mb=1, Mtau=1, MA=1, MSt=1, MSb=1, MStau=1)
# mass dimension of the recorded quantities
DIM = {}
for _k in ("DMh0 DMh1 DMh2L DMh3 DMh2 DMh2EFT DMh2FO DMh2FOAt mdrShift h3mShift L3_0 L3_1 t1_0 t1_1 t2_0 t2_1 toMDR tree fo foat "
           "all_eft0 all_eft1 all_eft2 all_eft3 as_eft0 as_eft1 as_eft2 as_eft3 eft0 eft1 eft2 eft3 mh2 m0 m0gl m1 m1z m1gl m2 mit mitn L1 L2 L2t L2f L3f L3 "
           "Mt41L Mt42L").split():
    DIM[_k] = 2
for _k in "AbsDiff2L expUnc mdrMasses mst_0 mst_1 unc3 againAbs againUnc expUnc2 expUnc3 unc2 mst".split():
    DIM[_k] = 1
for _k in ("RelDiff2L DLambda DLambdaUnc DLambdaMSbarShift DLambdaH3m DLambdaEFT DLambdaNonLog rawH3m_0 rawH3m_1 rawNonLog_0 rawNonLog_1 againRel "
           "es_tc es_ms es_xt tc ms xt m1d dl lamH3m lamNonLog s2t s2b s2tau theta_t theta_b theta_tau hierarchy again chosen limit es_limit es_tc_thrown tc_thrown").split():
    DIM[_k] = 0
SPEC = {}
for _k in ("VWm", "VZ", "SveL", "SvmL", "SvtL"):
    SPEC[_k] = 2
for _k in ("Ft", "Fb", "Ftau", "M_Chi", "M_Cha", "mm_Chi", "mm_Cha"):
    SPEC[_k] = 1
for _k in ("Su", "Sd", "Sc", "Ss", "St", "Sb", "Se", "Sm", "Stau", "hh", "Ah", "Hpm"):
    SPEC["M_" + _k] = SPEC["mm_" + _k] = 2
for _k in ("MSt", "MSb", "MStau", "Mt", "Mb", "Mtau", "MW", "MZ"):
    SPEC[_k] = 1
DISCRETE = {"hierarchy", "again", "chosen", "limit", "es_limit", "es_tc_thrown", "tc_thrown", "ab", "mdrFlag", "renScheme", "massLimit3LThreshold"}
LAMBDA_UNIT = ("LAMBDA_YB4_G32", "LAMBDA_YTAU6")   # see known_findings.txt
ONEL = ORD[:12]
# quantities with a three-loop part of the fixed-order expansion
THREE_LOOP = set("L3 L3f lamH3m lamNonLog unc3 expUnc3 DMh3 DMh2 expUnc DLambda DLambdaUnc DLambdaH3m DLambdaNonLog rawH3m rawNonLog againUnc DLambdaEFT mdrShift DMh2EFT DMh2FO DMh2FOAt".split())
LAST = {"DMh2EFT": 3, "DMh2FO": 3, "DMh2FOAt": 3, "DLambda": 3, "DLambdaUnc": 3, "DMh2": 3, "againUnc": 1}


def scaled(p, f):
    q = p.copy()
    for n, d in D.items():
        s = f ** d
        q[n] = [x * s for x in q[n]] if isinstance(q[n], list) else q[n] * s
    return q


def snapped(p):
    """validate() splits masses closer than an absolute 1e-8: make near-coincidences exact"""
    if abs(p["mq2"][8] - p["mu2"][8]) < 1e-6 * p["mu2"][8]:
        p["mq2"][8] = p["mu2"][8]
    return p


def jittered(r, p):
    """the same point up to rounding: a common tiny change of units keeps all coincidences"""
    q = scaled(p, 1 + 1e-12 * r.uniform(-1, 1))
    for k in ("g1", "g2", "g3"):
        q[k] *= 1 + 1e-15 * r.uniform(-1, 1)
    for k in ("Yu", "Yd", "Ye"):
        q[k][8] *= 1 + 1e-15 * r.uniform(-1, 1)
    return q


def lst(x):
    return x if isinstance(x, list) else [x]


def dim_of(key, spec=False):
    if spec and key in SPEC:
        return SPEC[key]
    if key in DIM:
        return DIM[key]
    head, _, tail = key.rpartition("_")
    if tail.isdigit() and head in DIM:
        return DIM[head]
    return None


class Group:
    """requests for one comparison: base, image, and rounding-noise copies of both"""

    def __init__(self, name, cmd, a, b, r, mapping=None, njit=3, spec=False, cmd2=None):
        self.name, self.mapping, self.spec = name, mapping, spec
        ser = points.ser
        cmd2 = cmd if cmd2 is None else cmd2
        self.reqs = [cmd + ser(a), cmd2 + ser(b)] + [cmd + ser(jittered(r, a)) for _ in range(njit)] + [cmd2 + ser(jittered(r, b)) for _ in range(njit)]
        self.njit = njit


def evaluate(ctx, exe, groups, judge):
    """judge(group, key, a, b, noise_a, noise_b) compares one recorded quantity"""
    reqs = [q for g in groups for q in g.reqs]
    evs = drvlib.run(exe, reqs)
    i = 0
    for g in groups:
        e = evs[i:i + len(g.reqs)]
        i += len(g.reqs)
        if any("crash" in x for x in e):
            ctx.violate("crash", "crash", g.reqs[0])
            continue
        exc = [("exception" in x) for x in e]
        if any(exc):
            if exc[0] != exc[1] and not any(exc[2:2 + g.njit]) and not any(exc[2 + g.njit:]):
                ctx.violate(g.name + ":exception", f"only one of the two evaluations fails: {e[0].get('exception')} / {e[1].get('exception')}", g.reqs[0] + "\n" + g.reqs[1])
            elif exc[0] != exc[1] and all(x == exc[0] for x in exc[2:2 + g.njit]) and all(x == exc[1] for x in exc[2 + g.njit:]):
                ctx.violate(g.name + ":exception", f"only one of the two evaluations fails: {e[0].get('exception')} / {e[1].get('exception')}", g.reqs[0] + "\n" + g.reqs[1])
            ctx.count("exceptions")
            continue
        flip = False
        for k in DISCRETE & set(e[0]):
            if len({str(x.get(k)) for x in e[:1] + e[2:2 + g.njit]}) > 1 or len({str(x.get(k)) for x in e[1:2] + e[2 + g.njit:]}) > 1:
                flip = True
        if flip:
            ctx.count("not judged: on a switching point")
            continue
        judge(g, e[0], e[1], e[2:2 + g.njit], e[2 + g.njit:])


def same(ctx, g, key, a, b, ja, jb, f=1.0, kkey=None, rel=1e-10, select=None):
    """b = f * a up to rounding"""
    A, B = lst(a[key]), lst(b[key])
    if not A or isinstance(A[0], str):
        return
    rows = [lst(x[key]) for x in ja]
    rowb = [lst(x[key]) for x in jb]
    big = max([abs(x) for x in A if x == x and abs(x) != math.inf] + [0])
    for i, (x, y) in enumerate(zip(A, B)):
        if select and not select(i):
            continue
        if x != x or y != y or abs(x) == math.inf:
            if (x != x) != (y != y) and all(r[i] == r[i] for r in rows) and all(r[i] == r[i] for r in rowb):
                ctx.violate(f"{g.name}:{kkey or key}", f"{key}[{i}] is nan only once: {x} / {y}", g.reqs[0] + "\n" + g.reqs[1])
            continue
        noise = max([abs(r[i] - x) for r in rows] + [abs(r[i] - y) / abs(f) for r in rowb])
        if noise != noise:
            continue
        mag = abs(x)
        tol = rel * mag + 300 * noise + 1e-14 * min(big, 1e6 * mag)
        if "unc" in key.lower() or "diff" in key.lower():
            tol += 1e-10 * (1 if "rel" in key.lower() else max(abs(z) for z in a.get("MSt", [1000.0])))
        if tol > 1e-2 * mag and tol > 1e-8 * big:
            ctx.count("not judged: cancellation")
            continue
        kk = kkey(i) if callable(kkey) else (kkey or key)
        ctx.close(f"{g.name}:{kk}", f"{g.name}", y / f, x, tol + 1e-290, f"{g.name}: {key}[{i}]", g.reqs[0] + "\n" + g.reqs[1])
        ctx.seen(g.name, (key, i if len(A) <= 8 else i % 16))


def tc_names():
    import re
    import os
    src = open(os.path.join(build.REPO, "source/himalaya/mh2_eft/EFTFlags.hpp")).read()
    body = re.search(r"enum class ThresholdCouplingOrders.*?\{(.*?)\}", src, re.S).group(1)
    body = re.sub(r"/\*.*?\*/|//[^\n]*", "", body, flags=re.S)
    return [x.split("=")[0].strip().split()[0] for x in body.split(",") if x.strip()]


def scaling(ctx, exe):
    r = ctx.rng("scaling")
    groups = []
    for _ in range(ctx.n(300)):
        p = snapped(points.mixed(r))
        kind = r.choice(("full", "full", "hier", "hier0", "eft", "fo", "tc", "deg", "spec"))
        k = r.choice((-6, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8))
        f = 2.0 ** k
        deg = kind.endswith("0")
        if kind in ("full", "hier", "hier0"):
            cmd = f"full {r.randrange(2)} " if kind[:4] == "full" else f"hier {r.randrange(2)} {r.randrange(2)} "
            if deg:   # average squark mass equal to the heavier stop mass (unaffected by the known finding)
                cmd = f"hier {r.randrange(2)} 0 "
                e = drvlib.run(exe, ["spec 1 " + points.ser(p)])[0]
                if "MSt" not in e:
                    continue
                m2 = (e["MSb"] if cmd[5] == "1" else e["MSt"])[1] ** 2
                x = (m2 / msq(e) ** 2) ** 1.25
                for s in ("mq2", "mu2", "md2"):
                    for j in (0, 4):
                        p[s][j] *= x
        elif kind == "eft":
            fl_ = {o: r.randrange(2) for o in ORD if o not in ("YTAU2YT4",)}
            cmd = f"eft {fl(fl_)} "
        elif kind == "fo":
            cmd = f"fo {int(r.random() < .3)} {r.randrange(2)} {r.choice((0, 0, 1))} {fl({})} @@ "
        elif kind == "tc":
            cmd = f"tc {r.choice((-1, -1, 0, 1, 2, 3, 4, 5))} {r.choice((-1, -1, 3, 4))} "
        elif kind == "deg":
            cmd = "deg @@ "
        else:
            cmd = "spec 1 "
        if kind == "fo":
            q2 = r.choice((0.0, 125.0 ** 2, 2000.0 ** 2))
            c1, c2 = cmd.replace("@@", float(q2).hex()), cmd.replace("@@", float(q2 * f * f).hex())
        elif kind == "deg":
            s, m, x = p["scale"], p["MG"], p["Au"][8]
            ol = r.randrange(2)
            c1, c2 = [cmd.replace("@@", " ".join(float(v * w).hex() for v in (s, m, x)) + f" {ol}") for w in (1.0, f)]
        else:
            c1 = c2 = cmd
        g = Group("scaling" + (":deg" if deg else ""), c1, p, scaled(p, f), r, spec=kind == "spec", cmd2=c2)
        g.f, g.kind, g.deg, g.p, g.cmd = f, kind, deg, p, c1
        groups.append(g)
    names = tc_names()

    def judge(g, a, b, ja, jb):
        ctx.count("scaled pairs: " + g.kind)
        for k in DISCRETE & set(a):
            if a[k] != b[k] and not g.deg:     # ties are exact in g.deg
                ctx.violate(f"{g.name}:{k}", f"{k} changes under a change of units: {a[k]} / {b[k]}", g.reqs[0] + "\n" + g.reqs[1])
        hname = a.get("hierarchy", a.get("chosen", -1))
        hname = NAMES[hname] if hname >= 0 else None
        for key in a:
            d = dim_of(key, g.spec)
            if d is None or key in DISCRETE or key not in b:
                continue
            head, _, tail = key.rpartition("_")
            kk = key
            if g.kind[:4] == "hier" and tail.isdigit():
                kk = f"{head}_{NAMES[int(tail)]}"
            h6b = "_h6b" in kk or (kk == key and bool(hname and hname.startswith("h6b")))
            k0 = key.partition("_")[0]
            if h6b and not g.deg and k0 in THREE_LOOP:      # see known_findings.txt
                kk = (lambda i, n=LAST[key]: "Dmsqst2" if i >= n else key) if key in LAST else "Dmsqst2"
            sel = None
            kw = {}
            if key in ("tc", "es_tc"):
                kw["kkey"] = lambda i: f"{names[i % 225 // 5]}" + ("" if i >= 225 else "_omit")
            elif key in ("eft2",) and any(f" {IDX[o]} 1" in g.cmd for o in ("G32YB4", "YTAU6")):
                kw["kkey"] = lambda i: key + ("" if i & 1 else "_omit")
            elif key == "eft1":
                kw["kkey"] = lambda i: key
            else:
                kw["kkey"] = kk
            if g.deg and k0 not in ("L3", "L3f", "lamH3m", "lamNonLog", "unc3"):
                continue
            same(ctx, g, key, a, b, ja, jb, g.f ** d, select=sel, **kw)
    evaluate(ctx, exe, groups, judge)


MATRIX = ("m0", "m0gl", "m1", "m1z", "m1gl", "m1d", "m2", "mit", "mitn")


def snap12(p):
    for k in ("Yu", "Yd", "Ye"):
        p[k][0] = p[k][4] = 0.0
    return p


def generations(r, p):
    """exchange the first two generations"""
    q = p.copy()
    for k in points.M33:
        q[k][0], q[k][4] = p[k][4], p[k][0]
    return q


def sign_flip(p):
    """the R-parity-like rephasing (mu, A_f, M1, M2) -> -(mu, A_f, M1, M2), exact for everything without gluinos"""
    q = p.copy()
    for k in ("mu", "M1", "M2"):
        q[k] = -p[k]
    for k in ("Au", "Ad", "Ae"):
        q[k] = [-x for x in p[k]]
    return q


def mirror(p):
    """top <-> bottom, H_u <-> H_d (needs g1 = 0 and no tau Yukawa)"""
    q = p.copy()
    for a, b in (("vu", "vd"), ("mu2", "md2"), ("Au", "Ad"), ("Yu", "Yd")):
        q[a], q[b] = p[b], p[a]
    return q


def mixing(r, p):
    """no vanishing mixing (regularised in the two-loop routines, see P11)"""
    cot = p["vd"] / p["vu"]
    for A, x, y in (("Au", cot, "mu2"), ("Ad", 1 / cot, "md2")):
        m = math.sqrt(abs(p["mq2"][8] * p[y][8])) ** .5
        while abs(p[A][8] - p["mu"] * x) < .02 * m:
            p[A][8] += r.sign() * r.uniform(.05, .5) * m
    return p


def left_right(p):
    q = p.copy()
    q["mq2"] = p["mq2"][:8] + [p["mu2"][8]]
    q["mu2"] = p["mu2"][:8] + [p["mq2"][8]]
    # the left-handed sbottom is part of the average squark mass: keep the average
    q["md2"][0] *= (msq(p) / msq(q)) ** 20
    return q


SWAPPED_LIMIT = {-1: -1, 0: 0, 1: 1, 2: 3, 3: 2, 4: 4, 5: 5}
LR = ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT", "LAMBDA_AT_AS")     # the three-loop term of lambda is given up to a constant, with logs of mQ3


# exchange of the up- and down-type sector on single threshold corrections: (coupling, mirrored coupling, relative sign)
MIRROR = (("VEV_YT2", "VEV_YB2", 1), ("YT_AS", "YB_AS", 1), ("YT_YB", "YB_YT", 1), ("YT_YT", "YB_YB", 1),
          ("LAMBDA_YT2_G22", "LAMBDA_YB2_G22", 1), ("LAMBDA_AT_AS", "LAMBDA_YB4_G32", 1), ("LAMBDA_AT", "LAMBDA_YB4", 1))


def mirror_thresholds(e, side, names, p):
    """(value of each corrections on one side of the mirror), with logarithms, in the DR' scheme"""
    def tc(n):
        return e["tc"][(45 + names.index(n)) * 5 + 1]
    out = []
    for a, b, s in MIRROR:
        out += [tc(a), s * tc(b)] if side == 0 else [s * tc(b), tc(a)]
    cb2 = p["vd"] ** 2 / (p["vd"] ** 2 + p["vu"] ** 2)
    # O(at^2 ab) and O(ab^2 at) differ by the conversion of the one-loop term to the MSSM bottom Yukawa coupling only
    if side == 0:
        out += [tc("LAMBDA_YT4_YB2") - 2 + 4 * tc("YT_YB") / cb2 * tc("LAMBDA_AT"), tc("YTAU_YB")]
    else:
        out += [tc("LAMBDA_YT2_YB4"), -(1 - cb2) * tc("VEV_YT2")]
    return out


def symmetries(ctx, exe):
    r = ctx.rng("symmetries")
    groups = []
    names = tc_names()

    def add(name, cmd, a, b, cmd2=None, perm=None, only=None, spec=False):
        g = Group(name, cmd, a, b, r, cmd2=cmd2, spec=spec)
        g.perm, g.only = perm, only
        groups.append(g)

    def fo_cmd(at, fl_, mi):
        q2 = r.choice((0.0, 125.0 ** 2, 1500.0 ** 2, 0.3))
        return f"fo {at} {r.randrange(2)} {mi} {fl(fl_)} {float(q2).hex()} "

    for _ in range(ctx.n(60)):
        p = snapped(points.mixed(r))
        for k in ("mq2", "mu2", "md2", "ml2", "me2"):
            if r.random() < .7:
                p[k][0] *= r.logu(.6, 1.6)
        kind = r.choice(("full", "hier", "eft", "fo", "tc"))
        cmd = {"full": f"full {r.randrange(2)} ", "hier": f"hier {r.randrange(2)} {r.randrange(2)} ",
               "eft": f"eft {fl({o: r.randrange(2) for o in ORD if o != 'YTAU2YT4'})} ",
               "fo": fo_cmd(int(r.random() < .3), {}, r.choice((0, 1))),
               "tc": f"tc {r.choice((-1, 0, 1, 2, 3, 4, 5))} -1 "}[kind]
        add("generations", cmd, p, generations(r, p))
    for _ in range(ctx.n(40)):
        p = snapped(points.mixed(r))
        if abs(p["me2"][8] / p["ml2"][8] - 1) < .3:     # approximate formula for equal masses assumes mu = +M there
            p["me2"][8] = p["ml2"][8] * r.choice((.4, .6, 1.5, 2.))
        mixing(r, p)
        kind = r.choice(("fo", "fo", "eft", "tc"))
        cmd = {"fo": fo_cmd(int(r.random() < .2), {"G32YT4": 0, "G32YB4": 0}, r.choice((0, 1))),
               "eft": f"eft {fl({o: 0 if o[:3] == 'G32' else r.randrange(2) for o in ORD if o != 'YTAU2YT4'})} ",
               "tc": f"tc {r.choice((-1, 0, 1, 2, 3, 4, 5))} -1 "}[kind]
        add("sign", cmd, p, sign_flip(p), only=(lambda k, i: k not in ("eft3", "ms", "xt") if k != "tc" else not ("_AS" in names[i % 225 // 5] or "G32" in names[i % 225 // 5])))
    for _ in range(ctx.n(60)):
        p = snap12(points.mixed(r))
        p["Ye"] = points.zero33()
        p["ml2"][8] = p["ml2"][0]
        p["g1"] = 0.0
        for k in ("mu2", "md2"):       # validate() splits equal masses, in the stop sector only
            if abs(p[k][8] / p["mq2"][8] - 1) < 1e-3:
                p[k][8] *= r.uniform(.97, .99)
        if r.random() < .8:
            p["Yd"][8] = r.uniform(.1, 1.2)
            p["Ad"][8] = r.uniform(-2, 2) * math.sqrt(abs(p["mq2"][8]))
            if r.random() < .6:
                b = math.atan(r.uniform(.4, 2.5))
                v = math.hypot(p["vu"], p["vd"])
                p["vu"], p["vd"] = v * math.sin(b), v * math.cos(b)
        mixing(r, p)
        # the two-loop routines do not let the stop mixing angle go below 1e-5 (sbottoms: 1e-8)
        if any(abs(2 * p[Y][8] * (p[v] * p[A][8] - p["mu"] * p[w])) / math.sqrt(2) < 1e-3 * abs(p["mq2"][8] - p[m][8])
               for Y, v, w, A, m in (("Yu", "vu", "vd", "Au", "mu2"), ("Yd", "vd", "vu", "Ad", "md2"))):
            ctx.count("not judged: mixing angle below 1e-3")
            continue
        cmd = fo_cmd(0, {"YTAU6": 0}, r.choice((0, 0, 1, 2)))
        add("mirror", cmd, p, mirror(p), perm="mirror")
    for _ in range(ctx.n(60)):
        p = points.mixed(r)
        if abs(p["mu2"][8] / p["mq2"][8] - 1) < .05:
            p["mu2"][8] *= r.choice((.7, .85, 1.2))
        lim, xo = r.choice((0, 0, 2, 3)), r.choice((-1, 3, 4))
        add("left-right", f"tc {lim} {xo} ", p, left_right(p), cmd2=f"tc {SWAPPED_LIMIT[lim]} {xo} ",
            only=lambda k, i: k == "tc" and i >= 225 and names[i % 225 // 5] in LR)

    for _ in range(ctx.n(60)):
        p = points.susy(r)
        for k in ("mu2", "md2"):       # away from the nearly degenerate branches, which are not mirror images
            p[k][8] = p["mq2"][8] * r.choice((r.uniform(.3, .9), r.uniform(1.1, 3)))
        p["MG"] = math.sqrt(p["mq2"][8]) * r.choice((r.uniform(.3, .85), r.uniform(1.2, 3)))
        while any(abs(p["MG"] / math.sqrt(p[k][8]) - 1) < .05 for k in ("mu2", "md2")):
            p["MG"] *= .9
        q = mirror(p)
        add("mirror thresholds", "tc 0 -1 ", p, q)
        groups[-1].points = p, q

    def judge(g, a, b, ja, jb):
        ctx.count("symmetry pairs: " + g.name)
        if g.name == "mirror thresholds":
            key = "tc_mirror"
            for side, es in ((0, [a] + ja), (1, [b] + jb)):
                for e in es:
                    e[key] = mirror_thresholds(e, side, names, g.points[side])
            labels = [x for t in MIRROR for x in t[:2]] + ["LAMBDA_YT4_YB2", "YTAU_YB"]
            same(ctx, g, key, a, b, ja, jb, kkey=lambda i: labels[i])
            return
        for k in DISCRETE & set(a):
            if a[k] != b[k] and g.name != "left-right":
                ctx.violate(f"{g.name}:{k}", f"{k} changes under {g.name}: {a[k]} / {b[k]}", g.reqs[0] + "\n" + g.reqs[1])
        for key in a:
            if dim_of(key, g.spec) is None or key in D or key in DISCRETE or key not in b or key[:4] in ("s2t", "s2b", "thet") or key == "s2tau":
                continue
            if g.perm == "mirror":
                if key in MATRIX:
                    b[key] = b[key][::-1]
                    for x in jb:
                        x[key] = x[key][::-1]
                elif key in ("m1d",):
                    continue
            sel = (lambda i: g.only(key, i)) if g.only else None
            kk = (lambda i: f"{names[i % 225 // 5]}" + ("" if i >= 225 else "_omit")) if key in ("tc", "es_tc") else key
            same(ctx, g, key, a, b, ja, jb, select=sel, kkey=kk)
    evaluate(ctx, exe, groups, judge)


def dsz(ctx, exe):
    """relabelling of the sfermion mass eigenstates, the sign flip and the mirror on the two-loop routines themselves"""
    r = ctx.rng("dsz")
    cases = []

    def rq(w, a):
        return f"dsz {w} " + " ".join(float(x).hex() for x in a)

    for _ in range(ctx.n(150)):
        M = r.logu(300, 5000)
        sq = lambda: (M * r.logu(.3, 3)) ** 2
        sc = lambda: (lambda t: (math.sin(t), math.cos(t)))(r.choice((r.uniform(-1.6, 1.6), r.uniform(-1.6, 1.6), r.logu(1e-4, 1e-1))))
        mt, mb, mg, q2, mu = r.uniform(1e2, 4e4), r.uniform(1, 400), M * r.logu(.3, 3), sq(), r.sign() * M * r.logu(.1, 2)
        tb, v2, g3, ma2, msv = r.logu(.5, 50), r.uniform(5.5e4, 6.3e4), r.uniform(.9, 1.2), sq(), sq()
        t1, t2, b1, b2 = sq(), sq(), sq(), sq()
        (st, ct), (sb, cb) = sc(), sc()
        w = r.choice(("atas", "abas", "atat", "atat", "tautau", "abtau", "mirror1", "mirror2"))
        fl_ = r.randrange(2)
        if w in ("atas", "abas"):
            a = [mt, mg, t1, t2, st, ct, q2, mu, tb, v2, g3, 1]
            cases.append(("relabel", rq(w, a), rq(w, [mt, mg, t2, t1, ct, -st, q2, mu, tb, v2, g3, 1]), 0))
            cases.append(("flip", rq(w, a), rq(w, [mt, -mg, t1, t2, -st, ct, q2, -mu, tb, v2, g3, 1]), 0))
            cases.append(("flip2", rq(w, a), rq(w, [mt, mg, t1, t2, -st, -ct, q2, mu, tb, v2, g3, 1]), 0))
        elif w == "atat":
            f = lambda t1, t2, b1, b2, st, ct, sb, cb, mu: rq(w, [mt, mb, ma2, t1, t2, b1, b2, st, ct, sb, cb, q2, mu, tb, v2, 1, fl_])
            a = f(t1, t2, b1, b2, st, ct, sb, cb, mu)
            cases.append(("relabel", a, f(t2, t1, b1, b2, ct, -st, sb, cb, mu), 0))
            cases.append(("flip", a, f(t1, t2, b1, b2, -st, ct, -sb, cb, -mu), 0))
            if fl_ == 0:
                cases.append(("relabel-b", a, f(t1, t2, b2, b1, st, ct, cb, -sb, mu), 0))
        elif w == "tautau":
            f = lambda t1, t2, s, c, mu: rq(w, [mb, ma2, msv, t1, t2, s, c, q2, mu, tb, v2, 1])
            a = f(t1, t2, st, ct, mu)
            cases.append(("relabel", a, f(t2, t1, ct, -st, mu), 0))
            cases.append(("flip", a, f(t1, t2, -st, ct, -mu), 0))
        elif w == "abtau":
            f = lambda t1, t2, b1, b2, st, ct, sb, cb, mu: rq(w, [3.2, mb, t1, t2, b1, b2, st, ct, sb, cb, q2, mu, tb, v2, 1])
            a = f(t1, t2, b1, b2, st, ct, sb, cb, mu)
            cases.append(("relabel", a, f(t2, t1, b1, b2, ct, -st, sb, cb, mu), 0))
            cases.append(("relabel-b", a, f(t1, t2, b2, b1, st, ct, cb, -sb, mu), 0))
            cases.append(("flip", a, f(t1, t2, b1, b2, -st, ct, -sb, cb, -mu), 0))
        elif w == "mirror1":
            a = [mt, mg, t1, t2, st, ct, q2, mu, tb, v2, g3, 1]
            cases.append(("mirror", rq("atas", a), rq("abas", a), 1))
        else:
            cases.append(("mirror", rq("atat", [mt, mb, ma2, t1, t2, b1, b2, st, ct, sb, cb, q2, mu, tb, v2, 1, 0]),
                          rq("atat", [mb, mt, ma2, b1, b2, t1, t2, sb, cb, st, ct, q2, mu, 1 / tb, v2, 1, 0]), 1))
    N = 4
    evs = drvlib.run(exe, [x for c in cases for x in [c[1], c[2]] + [jitter(y, j) for y in c[1:3] for j in range(N)]])
    for i, (name, a, b, rev) in enumerate(cases):
        e = evs[i * (2 + 2 * N):(i + 1) * (2 + 2 * N)]
        if any("m" not in x for x in e):
            ctx.violate(f"dsz:{name}:crash", "no result", a)
            continue
        m = [x["m"] for x in e]
        if rev:
            m = [x if k == 0 or 2 <= k < 2 + N else x[::-1] for k, x in enumerate(m)]
        w = a.split()[1]
        ctx.count(f"two-loop routine {w}: {name}")
        big = max(map(abs, m[0]))
        for j in (0, 1, 3):
            noise = max([abs(x[j] - m[0][j]) for x in m[2:2 + N]] + [abs(x[j] - m[1][j]) for x in m[2 + N:]])
            tol = 1e-8 * abs(m[0][j]) + 100 * noise + 1e-11 * big
            if not tol < 1e-3 * big:
                ctx.count("not judged: cancellation")
                continue
            ctx.close(f"dsz:{name}:{w}", f"two-loop routines: {name}", m[1][j], m[0][j], tol, f"{w}[{j}] under {name}", a + "\n" + b)
            ctx.seen("two-loop routines", (w, name, j))


def run(ctx):
    exe, _ = build.build_drv()
    ctx.log("built")
    scaling(ctx, exe)
    ctx.log("scaling")
    symmetries(ctx, exe)
    ctx.log("symmetries")
    dsz(ctx, exe)
    ctx.log("two-loop routines")
    return ctx.finish("exploration", "distinct (transformation, quantity) pairs compared", 50)
