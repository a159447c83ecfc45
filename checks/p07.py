"""P07: every reported number is reassembled from independently recorded parts and compared."""
import math

import mpmath as mp

import build
import drvlib
import points
from p06 import MOTHER, NAMES, msq

mp.mp.dps = 40
M = mp.mpf
isnan = math.isnan
TC = {k: i for i, k in enumerate("G3_AS YT_AS YT_AS2 LAMBDA_AT LAMBDA_AT_AS LAMBDA_AT_AS2".split())}
NTC, NSCH = 45, 5
DRBAR = 1


def tcv(e, pre, name, omit, scheme=DRBAR):
    return e[pre + "tc"][(omit * NTC + TC[name]) * NSCH + scheme]


def pert(mats):
    """power series of the smaller eigenvalue of sum_k eps^k mats[k] (exact arithmetic on the recorded matrices)"""
    t = [M(m[0]) + M(m[3]) for m in mats]
    h = [(M(m[0]) - M(m[3])) / 2 for m in mats]
    b = [(M(m[1]) + M(m[2])) / 2 for m in mats]
    n = len(mats)
    d = [sum(h[i] * h[k - i] + b[i] * b[k - i] for i in range(k + 1)) for k in range(n)]
    s = [mp.sqrt(d[0])]
    for k in range(1, n):
        s.append((d[k] - sum(s[i] * s[k - i] for i in range(1, k))) / (2 * s[0]))
    return [t[k] / 2 - s[k] for k in range(n)]


def log_(a, b):
    return mp.log(M(a) / M(b))


def shift_common(p, m1, m2, msq_):
    q2 = M(p["scale"]) ** 2
    g = M(p["MG"])
    L = lambda m: mp.log(q2 / M(m) ** 2)
    lg = L(g) * g * g if g else M(0)
    return 16 * (-6 * (g * g + lg) + 10 * (1 + L(msq_)) * M(msq_) ** 2 + (1 + L(m1)) * M(m1) ** 2 + (1 + L(m2)) * M(m2) ** 2)


def ftilde(m1, m2):
    """(m1^4 - m2^4 - 4 m1^2 m2^2 log(m1/m2)) / (m1^2 m2^2 (m1^2-m2^2)^3), regular at m1 = m2"""
    a, b = M(m1) ** 2, M(m2) ** 2
    if a == b:
        return 1 / (3 * a ** 3)
    with mp.workdps(90):
        return (a * a - b * b - 2 * a * b * mp.log(a / b)) / (a * b * (a - b) ** 3)


def h3m_matrix(p, hier, m1, m2, msq_):
    """conversion of the expanded three-loop result from its original scheme to DRbar'"""
    name = NAMES[hier]
    trunc = 0 if MOTHER[name] in ("h3", "h9") else 1
    tb = M(p["vu"]) / M(p["vd"])
    mu = M(p["mu"])
    X = M(0) if name == "h4" else M(p["Au"][8]) - mu / tb
    c = shift_common(p, m1, m2, msq_)
    f = ftilde(m1, m2)
    a, b = M(m1) ** 2, M(m2) ** 2
    s11 = c * X ** 2 * mu ** 2 * f
    s12 = c * mu / tb * (-f * (mu * X ** 2 + tb * X ** 3) + tb * X / (a * b))
    s22 = c / tb ** 2 * (f * (X ** 2 * mu ** 2 + trunc * tb ** 2 * X ** 4 + 2 * mu * tb * X ** 3)
                         + (-2 * tb ** 2 * X ** 2 - 2 * mu * tb * X + tb ** 2 * (a + b)) / (a * b))
    pre = M(p["g3"]) ** 4 * M(p["Mt"]) ** 2 * 2 * M(p["Mt"]) ** 2 / M(p["vu"]) ** 2 / (16 * mp.pi ** 2) ** 3
    # magnitude of the terms (for the accuracy of the comparison)
    mag = abs(pre) * abs(c) * (X ** 2 * mu ** 2 * f + abs(mu / tb) * (f * (abs(mu) * X ** 2 + tb * abs(X) ** 3) + tb * abs(X) / (a * b))
                               + (f * (X ** 2 * mu ** 2 + tb ** 2 * X ** 4 + 2 * abs(mu) * tb * abs(X) ** 3)
                                  + (2 * tb ** 2 * X ** 2 + 2 * abs(mu) * tb * abs(X) + tb ** 2 * (a + b)) / (a * b)) / tb ** 2)
    return [pre * x for x in (s11, s12, s12, s22)], mag


def h3m_scalar(p, hier, omit, msq_):
    name = NAMES[hier]
    trunc = 0 if MOTHER[name] in ("h3", "h9") else 1
    tb = M(p["vu"]) / M(p["vd"])
    X = M(0) if name == "h4" else M(p["Au"][8]) - M(p["mu"]) / tb
    m1, m2 = M(p["MSt"][0]), M(p["MSt"][1])
    q2 = M(p["scale"]) ** 2
    L = lambda m: omit * mp.log(q2 / m1 ** 2) - mp.log(M(m) ** 2 / m1 ** 2)
    g = M(p["MG"])
    gl = (1 + L(g)) * g * g if g else M(0)
    c = 16 * (-6 * gl + 10 * (1 + L(msq_)) * M(msq_) ** 2 + (1 + L(m1)) * m1 ** 2 + (1 + L(m2)) * m2 ** 2)
    a, b = m1 ** 2, m2 ** 2
    f = ftilde(m1, m2)
    v = c * (trunc * X ** 4 * f + (-2 * X ** 2 + a + b) / (a * b))
    return v, abs(c) * (X ** 4 * f + (2 * X ** 2 + a + b) / (a * b))


def numerics(m1, m2):
    """relative accuracy with which the conversion can be evaluated in double precision"""
    d = abs(m1 * m1 - m2 * m2) / (m1 * m1)
    return 1e-9 if abs(m1 - m2) >= m1 * .02 else 1e-8


def generate(r):
    c = r.random()
    if c < .5:
        p = points.hierarchy_like(r)
    else:
        p = points.mixed(r)
    tag = "generic"
    if r.random() < .12:
        s = r.logu(1e-9, 2e-2)
        m = p["scale"] * r.logu(.5, 1.2)
        p["MSt"] = [m, m * (1 + s)]
        p["s2t"] = r.uniform(-1, 1)
        p["theta_t"] = .5 * math.asin(p["s2t"])
        tag = "nearly degenerate stops"
    if r.random() < .1:
        p["M1"], p["M2"] = p["M1"] * .01, p["M2"] * .02
    return p, tag


def mat(*ms):
    return [sum(x) for x in zip(*ms)]


def run(ctx):
    exe, _ = build.build_drv()
    ctx.log("built")
    r = ctx.rng("points")
    pts = [generate(r) for _ in range(ctx.n(1200))]
    ab = [r.random() < .3 for _ in pts]
    evs = drvlib.run(exe, [f"full {int(b)} {points.ser(p)}" for (p, _), b in zip(pts, ab)])
    for (p0, tag), isab, e in zip(pts, ab, evs):
        rq = f"full {int(isab)} {points.ser(p0)}"
        if "crash" in e:
            ctx.violate("crash", f"crash {e['crash']}", rq)
            continue
        if "exception" in e:
            ctx.count("exceptions")
            continue
        judge(ctx, p0, tag, isab, e, rq)
        if ctx.evals < 500:
            ctx.sample(f"{NAMES[int(e['hierarchy'])]} ab={isab} {tag}: DMh2 {e['DMh2']}")
    return ctx.finish("monitored at run time",
                      "distinct = (hierarchy, sector, point class) combinations and quantities compared", 5000)


def judge(ctx, p0, tag, ab, e, rq):
    ctx.seen("hierarchy/sector/class", (NAMES[int(e["hierarchy"])], ab, tag))
    p = {k: e[k] for k in points.ORDER}
    hier = int(e["hierarchy"])
    v2 = p["vu"] ** 2 + p["vd"] ** 2
    gt = math.sqrt(2) * p["Mt"] / math.sqrt(v2)
    k1 = 1 / (16 * math.pi ** 2)
    g3 = p["g3"]
    P1 = k1 * (p["Mt"] * gt) ** 2
    P2 = k1 ** 2 * (p["Mt"] * gt * g3) ** 2
    P3 = k1 ** 3 * (p["Mt"] * gt * g3 * g3) ** 2

    def eq(name, got, want, mag=None, rel=1e-10):
        ctx.seen("quantity", name)
        if not isinstance(got, list):
            got, want = [got], [want]
        if len(got) != len(want):
            ctx.violate(name, f"{name}: shape {len(got)} instead of {len(want)}", rq)
            return
        m = max([abs(float(x)) for x in want if not isnan(float(x))] + [0.0]) if mag is None else float(mag)
        for g, w in zip(got, want):
            ctx.close(name, name, g, float(w), rel * m + 1e-300, f"{name} ({NAMES[hier]}, {'ab' if ab else 'at'}, {tag})", rq)

    # ---- tree level and bookkeeping
    beta = math.atan2(p["vu"], p["vd"])
    s, c = math.sin(beta) ** 2, math.cos(beta) ** 2
    z, a2 = p["MZ"] ** 2, p["MA"] ** 2
    tree = [z * c + a2 * s, -(z + a2) * math.sqrt(s * c), -(z + a2) * math.sqrt(s * c), z * s + a2 * c]
    eq("tree-level matrix", e["DMh0"], tree, rel=1e-12)
    eq("tree-level matrix (comparison)", e["tree"], tree, rel=1e-12)
    eq("selected hierarchy", e["hierarchy"], e["again"])
    eq("deviation at two loops", e["AbsDiff2L"], e["againAbs"])
    eq("relative deviation at two loops", e["RelDiff2L"], e["againRel"])
    eq("expansion uncertainty 2L", e["expUnc"][1], e["againUnc"][0])
    eq("expansion uncertainty 3L", e["expUnc"][2], e["unc3"], mag=max(abs(e["unc3"]), 1e-9 * p["MZ"]))
    eq("expansion uncertainty 1L", e["expUnc"][0], 0.0, mag=1)
    for q in ("ab", "mdrFlag"):
        eq(q, e[q], {"ab": float(ab), "mdrFlag": 0.0}[q])
    eq("one-loop matrix", e["DMh1"], e["t1_0"])
    eq("two-loop matrix", e["DMh2L"], e["t2_0"])
    for k in ("DMh0", "DMh1", "DMh2L", "DMh3", "mdrShift", "h3mShift"):
        eq("symmetry of " + k, e[k][1], e[k][2], mag=max(map(abs, e[k])))
        ctx.ev()
        if any(not math.isfinite(x) for x in e[k]) and not (k == "mdrShift" and any(map(isnan, e["mst_1"]))):
            ctx.violate("finite " + k, f"{k} is not finite: {e[k]}", rq)

    # ---- scheme conversion of the three-loop result
    q = msq(p0 if False else points.Point({**points.default(), **p}))
    conv, mag = h3m_matrix(p, hier, *e["mst_0"], q)
    num_ = numerics(*e["mst_0"])
    scale3 = max(map(abs, e["L3_0"]))
    eq("conversion from H3m", [-x for x in e["h3mShift"]], conv, mag=mag, rel=num_)
    eq("three-loop matrix", e["DMh3"], mat(e["L3_0"], [-x for x in e["h3mShift"]]), mag=scale3 + float(mag), rel=1e-10)

    # ---- MDR scheme
    conv1, mag1 = h3m_matrix(p, hier, *e["mst_1"], q)
    eq("stop masses in MDR", e["mdrMasses"], sorted(e["mst_1"]))
    lo = [x - y for x, y in zip(mat(e["t1_1"], e["t2_1"]), mat(e["t1_0"], e["t2_0"]))]
    eq("shift of the lower orders to MDR", e["toMDR"], lo, mag=max(map(abs, e["t1_0"] + e["t2_0"])))
    want = [x + y + float(z) - w for x, y, z, w in zip(lo, e["L3_1"], conv1, e["DMh3"])]
    eq("shift to MDR", e["mdrShift"], want, mag=1.0,
       rel=1e-9 * (scale3 + max(map(abs, e["t1_0"] + e["t2_0"] + e["L3_1"]))) + float(mag1) * numerics(*e["mst_1"]))

    # ---- light Higgs mass
    mats = [e["DMh0"], e["DMh1"], e["DMh2L"], e["DMh3"]]
    ser = pert(mats)
    n = [max(map(abs, m)) for m in mats]
    split = float(mp.sqrt((M(mats[0][0]) - mats[0][3]) ** 2 + 4 * M(mats[0][1]) ** 2))
    # size of the terms that combine at each order
    f = max(1.0, n[0] / split)
    mags = [n[0], n[1] * f, n[2] * f + (n[1] * f) ** 2 / split,
            n[3] * f + n[1] * n[2] * f * f / split + (n[1] * f) ** 3 / split ** 2]
    for i in range(4):
        eq(f"light Higgs mass, {i} loops", e["DMh2"][i], ser[i], mag=mags[i], rel=1e-11)
    for i in range(3):
        eq(f"fixed-order mass, {i} loops", e["DMh2FO"][i], e["fo"][i])
        eq(f"fixed-order at mass, {i} loops", e["DMh2FOAt"][i], e["foat"][i] if i else 0.0, mag=max(abs(e["foat"][i]), 1e-9))
    eq("fixed-order mass, 3 loops", e["DMh2FO"][3], e["DMh2"][3])
    eq("fixed-order at mass, 3 loops", e["DMh2FOAt"][3], e["DMh2"][3])

    # ---- quartic coupling
    c2b = (p["vd"] ** 2 - p["vu"] ** 2) / v2
    eq("quartic coupling, tree level", e["DLambda"][0], (p["MZ"] * c2b) ** 2 / v2, mag=p["MZ"] ** 2 / v2)
    at, atas = tcv(e, "es_", "LAMBDA_AT", 1), tcv(e, "es_", "LAMBDA_AT_AS", 1)
    ytas = tcv(e, "es_", "YT_AS", 1)
    eq("quartic coupling, 1 loop", e["DLambda"][1], P1 * at / v2)
    eq("quartic coupling, 2 loops", e["DLambda"][2], P2 * atas / v2)
    eq("quartic coupling, 3 loops", e["DLambda"][3], e["DLambdaEFT"])
    for i in range(2):
        eq(f"MSbar shift, {i} loops", e["DLambdaMSbarShift"][i], 0.0, mag=1)
    msb = lambda x, ol, oxl: e["es_ms"][(x - 3) * 4 + ol * 2 + oxl]
    xto = 3 if MOTHER[NAMES[hier]] in ("h3", "h9") else 4
    for i in range(3):
        eq(f"coupling uncertainty, {i} loops", e["DLambdaUnc"][i], 0.0, mag=1)
    if ab:
        for k in ("DLambdaH3m", "DLambdaEFT", "DLambdaNonLog"):
            eq(k + " (ab)", e[k], 0.0, mag=1)
        eq("MSbar shift, 3 loops", e["DLambdaMSbarShift"][3], 0.0, mag=1)
        eq("coupling uncertainty, 3 loops", e["DLambdaUnc"][3], 0.0, mag=1)
    else:
        eq("MSbar shift, 2 loops", e["DLambdaMSbarShift"][2], -4 * P2 * at * ytas / v2)
        eq("MSbar shift, 3 loops", e["DLambdaMSbarShift"][3], P3 * msb(xto, 1, 0) / v2)
        s0, g0 = h3m_scalar(p, hier, 0, q)
        s1, g1 = h3m_scalar(p, hier, 1, q)
        sub1, sub0 = e["as_eft3"][2], e["as_eft3"][0]
        n2 = numerics(*p["MSt"])
        noise = lambda raw, g, sub: (1e-10 * (abs(P3 * raw) + abs(sub)) + P3 * float(g) * n2) / v2
        nl = (P3 * (e["rawNonLog_0"] + float(s0)) - sub0) / v2
        hm = (P3 * (e["rawH3m_0"] + float(s1)) - sub1) / v2
        eq("quartic coupling without logs", e["DLambdaNonLog"], nl, mag=1.0, rel=noise(e["rawNonLog_0"], g0, sub0))
        eq("quartic coupling from H3m", e["DLambdaH3m"], hm, mag=1.0, rel=noise(e["rawH3m_0"], g1, sub1))
        l2 = [tcv(e, "es_", "LAMBDA_AT_AS2", i) for i in (0, 1)]
        eq("quartic coupling with EFT logs", e["DLambdaEFT"] - e["DLambdaNonLog"], P3 * (l2[1] - l2[0]) / v2,
           mag=(P3 * (abs(l2[0]) + abs(l2[1])) / v2 + abs(e["DLambdaNonLog"])))
        lim = int(e["es_limit"])
        xt = e["es_xt"][((4 - 3) * 2 + 1) * 6 + lim]
        unc = abs(P3 / v2 * xt) if xto == 3 else 0.0
        unc += abs(e["DLambdaEFT"] - e["DLambdaH3m"])
        eq("coupling uncertainty, 3 loops", e["DLambdaUnc"][3], unc, mag=unc + 1e-12 * abs(e["DLambdaEFT"]))
        ctx.ev()
        if not e["DLambdaUnc"][3] >= 0:
            ctx.violate("negative uncertainty", f"coupling uncertainty {e['DLambdaUnc'][3]}", rq)

    # ---- effective theory
    eq("EFT mass, tree level", e["DMh2EFT"][0], (p["MZ"] * c2b) ** 2, mag=p["MZ"] ** 2)
    eq("EFT mass, 1 loop", e["DMh2EFT"][1], e["all_eft1"][3])
    eq("EFT mass, 2 loops", e["DMh2EFT"][2], e["all_eft2"][3])
    e3 = e["all_eft3"][6] + (0.0 if ab else e["DLambdaEFT"] * v2)
    eq("EFT mass, 3 loops", e["DMh2EFT"][3], e3, mag=abs(e["all_eft3"][6]) + abs(e["DLambdaEFT"]) * v2)
    # documented form of the three-loop effective-theory mass
    L = math.log(p["scale"] ** 2 / p["Mt"] ** 2)
    dg, y1, y2, la = (tcv(e, "es_", k, 1) for k in ("G3_AS", "YT_AS", "YT_AS2", "LAMBDA_AT_AS2"))
    z3 = 1.2020569031595942
    terms = [736 * L ** 3, 160 * L ** 2, 192 * dg * L ** 2, 384 * y1 * L ** 2, -128 * z3 * L, -2056 / 3 * L, -64 * dg * L,
             -512 * y1 * L, 72 * y1 ** 2 * L, 48 * y2 * L, 64 * y1, -84 * y1 ** 2, -24 * y2, 248.1215180432007]
    eq("EFT 3 loops, all logs", e["as_eft3"][7] , P3 * (sum(terms) + la), mag=P3 * (sum(map(abs, terms)) + abs(la)))
    eq("EFT 3 loops, no three-loop coupling", e["as_eft3"][6], P3 * sum(terms), mag=P3 * sum(map(abs, terms)))
