"""P06: hierarchy selection against a reference model evaluated on recorded per-hierarchy quantities."""
import math

import build
import drvlib
import points
from p05 import masses

NAMES = ["h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"]
IDS = {n: i for i, n in enumerate(NAMES)}
YES, NO, EITHER = 1, 0, 2


def lt(a, b, slack=1e-12):
    """a < b; exact for plain masses (slack 0), undecided within rounding for computed quantities"""
    if slack and abs(a - b) <= slack * max(abs(a), abs(b)):
        return EITHER
    return YES if a < b else NO


def no(x):
    return {YES: NO, NO: YES, EITHER: EITHER}[x]


def all_(*xs):
    if NO in xs:
        return NO
    return EITHER if EITHER in xs else YES


def suitable(name, m1, m2, g, q):
    """documented mass orderings: m1, m2 sfermion masses, g gluino mass, q mean squark mass"""
    if any(math.isnan(x) for x in (m1, m2, g, q)):
        return EITHER
    light = all_(no(lt(1.3 * q, m2)), no(lt(1.3 * q, g)))
    split = lt(.1 * m1, m2 - m1)
    near1 = lt(g - m1, abs(g - m2))        # gluino nearer to the light sfermion
    near2 = lt(m2 - g, abs(g - m1))        # gluino nearer to the heavy sfermion
    q2 = lt(m2, q)                         # squarks heavier than both sfermions
    g2 = lt(m2, g, 0)
    g1 = lt(m1, g, 0)
    c = {
        "h3": lambda: (g2,),
        "h32q2g": lambda: (no(q2), lt(g, m2, 0)),
        "h3q22g": lambda: (q2, lt(g, m2, 0)),
        "h4": lambda: (lt(m1, q), no(g1)),
        "h5": lambda: (split, near1, q2, no(g1)),
        "h5g1": lambda: (split, near1, q2, g1),
        "h6": lambda: (split, near2, lt(1.3 * m2, q), no(g2)),
        "h6g2": lambda: (split, near2, lt(1.3 * m2, q), g2),
        "h6b": lambda: (split, near2, no(q2), no(g2)),
        "h6b2qg2": lambda: (split, near2, no(q2), g2),
        "h6bq22g": lambda: (split, near2, q2, no(g2)),
        "h6bq2g2": lambda: (split, near2, q2, g2),
        "h9": lambda: (no(q2), lt(m2 - m1, m1 - g)),
        "h9q2": lambda: (q2, lt(g, m1, 0)),
    }[name]()
    return all_(light, *c)


# expansion variables that are truncated one by one to estimate the uncertainty of a mother hierarchy
FLAG = {k: i for i, k in enumerate("threeLoop Mst Dmglst1 Dmsqst1 Dmst12 At lmMsusy Msq Msusy Dmglst2 Dmsqst2 Mgl".split())}
MOTHER = {"h3": "h3", "h32q2g": "h3", "h3q22g": "h3", "h4": "h4", "h5": "h5", "h5g1": "h5", "h6": "h6", "h6g2": "h6",
          "h6b": "h6b", "h6b2qg2": "h6b", "h6bq22g": "h6b", "h6bq2g2": "h6b", "h9": "h9", "h9q2": "h9"}
VARIABLES = {"h3": ("Dmglst1", "Dmsqst1", "Dmst12"), "h4": ("At", "lmMsusy", "Msq", "Msusy"), "h5": ("Dmglst1", "Msq"),
             "h6": ("Dmglst2", "Msq"), "h6b": ("Dmglst2", "Dmsqst2"), "h9": ("Dmsqst1", "Dmst12", "Mgl")}


def uncertainty(e, i, loops):
    """root of the sum of squared shifts of the light Higgs mass when one expansion variable is truncated"""
    base = [e["tree"], e[f"Mt41L_{i}"]] + ([e[f"Mt42L_{i}"]] if loops == 3 else [])
    ref = small(*base, e[f"L{loops}_{i}"])
    tot = 0.0
    for v in VARIABLES[MOTHER[NAMES[i]]]:
        f = FLAG[v]
        tot += (ref - small(*base, e[f"L{loops}f_{i}"][4 * f:4 * f + 4])) ** 2
    return math.sqrt(tot), ref


def msq(p):
    q = masses(p)
    mz2 = q["MZ"] ** 2
    c2b = (q["vd"] ** 2 - q["vu"] ** 2) / (q["vd"] ** 2 + q["vu"] ** 2)
    sw2 = 1 - (q["MW"] / q["MZ"]) ** 2
    fac = [q["mq2"][0], q["mu2"][0], q["mq2"][0], q["md2"][0], q["mq2"][4], q["mu2"][4], q["mq2"][4], q["md2"][4],
           q["mq2"][8] + q["Mb"] ** 2 - (.5 - sw2 / 3) * mz2 * c2b, q["md2"][8] + q["Mb"] ** 2 - sw2 / 3 * mz2 * c2b]
    return math.exp(.05 * sum(math.log(abs(f)) if f else -math.inf for f in fac))


def small(*ms):
    a = sum(m[0] for m in ms)
    b = sum(.5 * (m[1] + m[2]) for m in ms)
    d = sum(m[3] for m in ms)
    lo = (a + d) / 2 - math.hypot((a - d) / 2, b)
    if lo < 0:
        return math.nan
    # the small root without cancellation
    hi = (a + d) / 2 + math.hypot((a - d) / 2, b)
    return math.sqrt(max(0.0, (a * d - b * b) / hi)) if hi > 0 else math.nan


def generate(r):
    p = points.mixed(r) if r.random() < .5 else points.hierarchy_like(r)
    if r.random() < .7:      # put the gluino and the first two generations anywhere relative to the stops
        MS = p["scale"]
        f = r.logu(.2, 3)
        for k in ("mq2", "mu2", "md2"):
            p[k][0] = p[k][4] = (MS * f) ** 2
        p["MG"] = MS * r.logu(.1, 4)
    tag = "computed masses"
    if r.random() < .5:
        # masses given explicitly, on the boundaries
        tag = "given masses"
        q = msq(p)
        for M, s, t in (("MSt", "s2t", "theta_t"), ("MSb", "s2b", "theta_b")):
            m2 = r.choice([q, q * 1.3, q / 1.3, p["MG"], q * r.logu(.4, 1.6), q * r.logu(.4, 1.6)])
            m1 = r.choice([p["MG"], m2 / 1.1, m2 * r.uniform(.3, 1), m2 * r.uniform(.3, 1), m2 * (1 - r.logu(1e-9, .1))])
            if r.random() < .2:
                p["MG"] = r.choice([m1, m2, .5 * (m1 + m2), 2 * m1 - m2 if 2 * m1 > m2 else m1])
            if r.random() < .3:
                m2 *= 1 + r.sign() * r.logu(1e-15, 1e-6)
            p[M] = [m1, m2]
            p[t] = r.uniform(-.8, .8)
            p[s] = math.sin(2 * p[t])
    return p, tag




def run(ctx):
    drv, depth = build.build_drv()
    val = build.build("val", ["val.cpp"], build.pick("Himalaya_interface.cpp"))
    ctx.log("built")
    r = ctx.rng()
    pts = [generate(r) for _ in range(ctx.n(1500, 40000))]
    evv = drvlib.run(val, [f"val 0 {points.ser(p)}" for p, _ in pts])
    reqs, info = [], []
    for (p, tag), v in zip(pts, evv):
        if "exception" in v or "crash" in v:
            continue
        for ab in (0, 1):
            mdr = 1 if r.random() < .25 else 0
            reqs.append(f"hier {ab} {mdr} {points.ser(p)}")
            reqs.append(f"calc {ab} {points.ser(p)}")
            info.append((p, tag, v, ab, mdr))
    ev = drvlib.run(drv, reqs)
    ctx.log("recorded")
    for k, (p, tag, v, ab, mdr) in enumerate(info):
        e, c, rep = ev[2 * k], ev[2 * k + 1], reqs[2 * k]
        if "crash" in e or "crash" in c:
            ctx.violate("crash", str(e), rep)
            continue
        m1, m2 = v["MSb"] if ab else v["MSt"]
        q, g = msq(p.with_(mq2=v["mq2"], mu2=v["mu2"], md2=v["md2"])), v["MG"]     # of the normalised parameters
        ok = {i: suitable(n, m1, m2, g, q) for i, n in enumerate(NAMES)}
        sure = [i for i, s in ok.items() if s == YES]
        maybe = [i for i, s in ok.items() if s == EITHER]
        what = f"{tag} sector {'b' if ab else 't'} m=({m1!r}, {m2!r}) MG={g!r} Msq={q!r}"
        ctx.ev()
        if "exception" in e:
            # the calculator could not be used at all
            ctx.violate("calculator " + e["exception"][:40], what + e["exception"], rep)
            continue
        chosen = e["chosen"]
        ctx.seen("set of applicable hierarchies", tuple(sure + maybe))
        ctx.seen("selected", (chosen, ab, mdr))
        if not sure and not maybe:
            if chosen != -1:
                ctx.violate("selected although none applies", f"{what}: {NAMES[chosen]}", rep)
            if "exception" not in c:
                ctx.violate("result without hierarchy", what, rep)
            elif not any(w in c["exception"].lower() for w in ("hierarchy", "suitable")):
                ctx.violate("message", f"{what}: {c['exception']}", rep)
            continue
        if chosen == -1:
            if sure:
                ctx.violate("none selected", f"{what}: applicable are {[NAMES[i] for i in sure]}", rep)
            continue
        if ok[chosen] == NO:
            ctx.violate("inapplicable selected " + NAMES[chosen], f"{what}: selected {NAMES[chosen]}, applicable {[NAMES[i] for i in sure + maybe]}", rep)
            continue
        err, det = {}, {}
        for i in sure + maybe:
            t0, t1, l2 = e[f"Mt41L_{i}"], e[f"Mt42L_{i}"], e[f"L2t_{i}" if depth else f"L2_{i}"]
            mh2 = small(e["tree"], t0, t1)
            mhx = small(e["tree"], t0, l2)
            u2 = e[f"unc2_{i}"]
            if depth:
                u2, _ = uncertainty(e, i, 2)
                u3, m3 = uncertainty(e, i, 3)
                for n, got, want in (("two", e[f"unc2_{i}"], u2), ("three", e[f"unc3_{i}"], u3)):
                    if math.isfinite(want) and m3 > 1:
                        ctx.close(f"uncertainty {n} {NAMES[i]}", f"{n}-loop expansion uncertainty", got, want, 1e-8 + 1e-7 * want,
                                  f"{what} {NAMES[i]} {n}-loop uncertainty", rep)
            err[i] = math.hypot((mh2 - mhx) / mh2, u2 / mhx) if mh2 and mhx else math.nan
            det[i] = (abs(mh2 - mhx), mh2, u2)
        finite = [i for i in sure if math.isfinite(err[i])]
        if finite and depth:
            best = min(err[i] for i in finite)
            ctx.ev()
            ctx.count("comparisons of candidates", len(sure))
            if not err[chosen] <= best * (1 + 1e-6) + 1e-9:
                b = min(finite, key=lambda i: err[i])
                ctx.violate(f"not the best {NAMES[chosen]} {NAMES[b]}", f"{what}: selected {NAMES[chosen]} with error {err[chosen]!r}, {NAMES[b]} has {err[b]!r}", rep)
                continue
        d, mh, u2 = det[chosen]
        if math.isfinite(d) and mh > 1:
            if depth:
                ctx.close("abs", "AbsDiff2L", e["AbsDiff2L"], d, 1e-8 + 1e-7 * d, f"{what} {NAMES[chosen]} AbsDiff2L", rep)
                ctx.close("rel", "RelDiff2L", e["RelDiff2L"], d / mh, (1e-8 + 1e-7 * d) / mh, f"{what} RelDiff2L", rep)
            ctx.close("unc2", "ExpUnc2", e["expUnc2"], u2, 1e-9 + 1e-6 * abs(u2), f"{what} two-loop uncertainty", rep)
            u3 = e[f"unc3_{chosen}"]
            ctx.close("unc3", "ExpUnc3", e["expUnc3"], u3, 1e-9 + 1e-6 * abs(u3), f"{what} three-loop uncertainty", rep)
        tree_ok(ctx, p, v, e["tree"], what, rep)
        if mdr == 0:
            ctx.ev()
            if "exception" in c:
                ctx.violate("no result", f"{what}: {c['exception']}", rep)
            elif c["hierarchy"] != chosen or (c["AbsDiff2L"] != e["AbsDiff2L"] and e["AbsDiff2L"] == e["AbsDiff2L"]):
                ctx.violate("result belongs to another hierarchy", f"{what}: {c['hierarchy']} {chosen} {c['AbsDiff2L']} {e['AbsDiff2L']}", rep)
        if k % 300 == 0:
            ctx.sample(f"{what}: applicable {[NAMES[i] for i in sure + maybe]}, errors {['%.2e' % err[i] for i in err]}, selected {NAMES[chosen]}")
    for i, n in enumerate(NAMES):
        ctx.notes["selected " + n] = sum(1 for x in ctx.kinds.get("selected", ()) if x[0] == i)
    return ctx.finish("exploration", "distinct sets of applicable hierarchies; distinct (selected, sector, scheme)", 1000)


def tree_ok(ctx, p, v, t, what, rep):
    tb = p["vu"] / p["vd"]
    sb2, cb2, sc = tb * tb / (1 + tb * tb), 1 / (1 + tb * tb), tb / (1 + tb * tb)
    a2, z2 = v["MA"] ** 2, v["MZ"] ** 2
    want = [a2 * sb2 + z2 * cb2, -(a2 + z2) * sc, -(a2 + z2) * sc, a2 * cb2 + z2 * sb2]
    for i in range(4):
        ctx.close("tree", "tree-level matrix", t[i], want[i], 1e-12 * (a2 + z2), f"{what} tree[{i}]", rep)
