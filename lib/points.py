"""Parameter points: representation, serialisation and seeded generators."""
import copy
import math
import random

M33 = ["mq2", "md2", "mu2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye"]
NAN = float("nan")
INF = float("inf")


class Point(dict):
    def copy(self):
        return Point(copy.deepcopy(dict(self)))

    def with_(self, **kw):
        p = self.copy()
        p.update(kw)
        return p


def zero33():
    return [0.0] * 9


def diag(a, b, c):
    return [a, 0.0, 0.0, 0.0, b, 0.0, 0.0, 0.0, c]


def default():
    p = Point(scale=1000.0, mu=1000.0, g1=0.46, g2=0.64, g3=1.05, vd=24.0, vu=243.0,
              M1=500.0, M2=700.0, MG=1500.0, MW=NAN, MZ=NAN, Mt=NAN, Mb=NAN, Mtau=NAN, MA=1000.0,
              MSt=[NAN, NAN], MSb=[NAN, NAN], MStau=[NAN, NAN],
              s2t=NAN, s2b=NAN, s2tau=NAN, theta_t=NAN, theta_b=NAN, theta_tau=NAN,
              massLimit3LThreshold=0)
    for m in M33:
        p[m] = zero33()
    return p


ORDER = (["scale", "mu", "g1", "g2", "g3", "vd", "vu"] + M33 +
         ["M1", "M2", "MG", "MW", "MZ", "Mt", "Mb", "Mtau", "MA", "MSt", "MSb", "MStau",
          "s2t", "s2b", "s2tau", "theta_t", "theta_b", "theta_tau", "massLimit3LThreshold"])


def flat(p):
    out = []
    for k in ORDER:
        v = p[k]
        if isinstance(v, (list, tuple)):
            out.extend(v)
        else:
            out.append(v)
    return out


def num(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def ser(p):
    return " ".join(num(x) for x in flat(p))


def deser(tokens):
    """inverse of ser() (replay files)"""
    vals = [float.fromhex(t) if "x" in t else float(t) for t in tokens.split()]
    p = default()
    i = 0
    for k in ORDER:
        if isinstance(p[k], list):
            n = len(p[k])
            p[k] = vals[i:i + n]
            i += n
        else:
            p[k] = vals[i]
            i += 1
    p["massLimit3LThreshold"] = int(p["massLimit3LThreshold"])
    assert i == len(vals)
    return p


class Rng(random.Random):
    def logu(self, a, b):
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def sign(self):
        return self.choice((-1.0, 1.0))

    def near(self, x, lo=1e-12, hi=0.2):
        return x * (1 + self.sign() * self.logu(lo, hi))


def susy(rng, MS=None, tb=None, ratios=None, xt=None, mu_rel=None, ma_rel=None, msq_rel=None,
         q_rel=None, small_yb=False, g3=None):
    """A physically sensible point around a common SUSY scale."""
    p = default()
    MS = MS or rng.logu(500.0, 1e4)
    tb = tb or rng.logu(2.0, 50.0)
    r = ratios or [rng.logu(0.4, 2.5) for _ in range(3)]   # mQ3, mU3, M3
    msq = MS * (msq_rel or rng.logu(0.5, 3.0))
    v = rng.uniform(238.0, 248.0)
    cb, sb = 1 / math.sqrt(1 + tb * tb), tb / math.sqrt(1 + tb * tb)
    p["vd"], p["vu"] = v * cb, v * sb
    p["g1"], p["g2"] = rng.uniform(0.44, 0.49), rng.uniform(0.60, 0.67)
    p["g3"] = g3 or rng.uniform(0.92, 1.15)
    yt = rng.uniform(0.75, 0.95)
    mb = rng.uniform(1.8, 3.2)
    mtau = rng.uniform(1.5, 1.9)
    p["Yu"] = diag(1e-5, 3e-3, yt / sb) if rng.random() < 0.5 else diag(0, 0, yt / sb)
    p["Yd"] = diag(0, 0, math.sqrt(2) * mb / p["vd"])
    p["Ye"] = diag(0, 0, math.sqrt(2) * mtau / p["vd"])
    q = MS * r[0]
    u = MS * r[1]
    d = MS * rng.logu(0.5, 2.5)
    l3, e3 = MS * rng.logu(0.4, 2), MS * rng.logu(0.4, 2)
    sp = [1 + rng.uniform(-0.1, 0.1) for _ in range(4)] if rng.random() < 0.5 else [1.0] * 4
    p["mq2"] = diag((msq * sp[0]) ** 2, (msq * sp[1]) ** 2, q * q)
    p["mu2"] = diag((msq * sp[2]) ** 2, (msq * sp[0]) ** 2, u * u)
    p["md2"] = diag((msq * sp[3]) ** 2, (msq * sp[2]) ** 2, d * d)
    sl = MS * rng.logu(0.4, 2)
    p["ml2"] = diag(sl ** 2, sl ** 2, l3 ** 2)
    p["me2"] = diag(sl ** 2, (1.1 * sl) ** 2, e3 ** 2)
    p["MG"] = MS * r[2]
    p["M1"] = MS * rng.logu(0.1, 1.5) * rng.sign()
    p["M2"] = MS * rng.logu(0.2, 1.5) * rng.sign()
    p["mu"] = MS * (mu_rel or rng.logu(0.1, 1.5) * rng.sign())
    p["MA"] = MS * (ma_rel or rng.logu(0.2, 2.5))
    p["scale"] = MS * (q_rel or rng.logu(0.4, 2.5))
    X = (xt if xt is not None else rng.uniform(-3, 3)) * math.sqrt(q * u)
    p["Au"] = diag(0, 0, X + p["mu"] / tb)
    p["Ad"] = diag(0, 0, MS * rng.uniform(-2, 2))
    p["Ae"] = diag(0, 0, MS * rng.uniform(-2, 2))
    return p


def degenerate_like(rng):
    """mass patterns near the special cases of the formulas"""
    def close(x):
        c = rng.random()
        if c < 0.35:
            return x
        return x * (1 + rng.sign() * rng.logu(1e-13, 3e-2))
    a, b = rng.logu(0.5, 2), rng.logu(0.5, 2)
    pat = rng.randrange(6)
    msq = None
    if pat == 0:
        r = [a, close(a), b]
    elif pat == 1:
        r = [a, b, close(a)]
    elif pat == 2:
        r = [a, b, close(b)]
    elif pat == 3:
        r = [a, close(a), close(a)]
    elif pat == 4:
        r = [a, close(a), close(a)]
        msq = close(a)
    else:
        r = [a, b, rng.logu(0.4, 2)]
        msq = close(rng.choice(r))
    xt = rng.choice([None, None, 0.0, 1e-6, -1e-9, 1e-3])
    return susy(rng, ratios=r, msq_rel=msq, xt=xt,
                ma_rel=rng.choice([None, close(a), close(b)]),
                mu_rel=rng.choice([None, None, close(a), -close(b)]))


# mass orderings that single out the mother hierarchies (Mst1, Mst2, MG, Msq relative to MS)
HIER_SHAPES = {
    "h3": dict(ratios=(1.0, 1.05, 1.1), msq_rel=1.1),
    "h4": dict(ratios=(1.0, 1.1, 0.95), msq_rel=8.0),
    "h5": dict(ratios=(2.5, 0.5, 0.5), msq_rel=8.0),
    "h6": dict(ratios=(2.5, 0.5, 2.4), msq_rel=8.0),
    "h6b": dict(ratios=(2.5, 0.5, 2.4), msq_rel=2.5),
    "h9": dict(ratios=(1.5, 1.6, 0.4), msq_rel=1.6),
}


def hierarchy_like(rng):
    s = HIER_SHAPES[rng.choice(sorted(HIER_SHAPES))]
    j = lambda x: x * rng.logu(0.85, 1.18)
    r = [j(x) for x in s["ratios"]]
    if rng.random() < 0.5:
        r[0], r[1] = r[1], r[0]
    return susy(rng, ratios=r, msq_rel=j(s["msq_rel"]), xt=rng.uniform(-2.5, 2.5))


def mixed(rng):
    c = rng.random()
    if c < 0.35:
        return susy(rng)
    if c < 0.65:
        return hierarchy_like(rng)
    return degenerate_like(rng)


def vary(rng, p, tiny=None):
    """a copy that differs in one or two inputs only (slightly or strongly)"""
    q = p.copy()
    for _ in range(rng.choice((1, 1, 2))):
        k = rng.choice(["scale", "mu", "g1", "g2", "g3", "vd", "vu", "M1", "M2", "MG", "MA",
                        "mq2", "mu2", "md2", "ml2", "me2", "Au", "Ad", "Ae", "Yu", "Yd", "Ye", "mq2l", "mu2l"])
        small = rng.random() < .5 if tiny is None else tiny
        f = (1 + rng.sign() * rng.logu(1e-12, 1e-6)) if small else rng.logu(.8, 1.25)
        if k in ("mq2l", "mu2l"):
            q[k[:3]][0] *= f
        elif k in M33:
            q[k][8] *= f
        elif k in ("g1", "g2", "g3", "vd", "vu") and not small:
            q[k] *= 1 + (f - 1) * .2
        else:
            q[k] *= f
        if k in ("mu", "Au", "M1", "M2") and rng.random() < .2:
            if k == "Au":
                q[k][8] *= -1
            else:
                q[k] *= -1
    return q
