"""Argument generators for the loop functions (branch points, limits, generic)."""
import math

FNS = ("dilog cdilog li2f cli2f cl2 a0 b0xx b0 d1_b0 F1 F2 F3 F4 F5 F6 F7 F8 F9 f g "
       "f1 f2 f3 f4 f5 f6 f7 f8 delta phi").split()
TWO = ("F8", "F9", "f5", "f6", "f7", "f8")
SIGNED = ("F5", "F6", "F7", "F8", "F9", "f", "g", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8")


def near(r, p, hi=0.2):
    return p * (1 + r.sign() * r.logu(1e-15, hi))


def ratio(r, neg):
    c = r.random()
    if c < .28:
        x = near(r, 1)
    elif c < .36:
        x = r.logu(1e-12, 1e-2)
    elif c < .42:
        x = r.choice([0., 1., r.choice([0.01, 0.02, 0.98, 0.99, 1.01, 1.02, 1e-4, 1e-3])])
    else:
        x = r.logu(1e-2, 1e2)
    if neg and r.random() < .35:
        x = -x
    return x


def args(r, fn):
    if fn in ("dilog", "li2f"):
        return [r.choice([near(r, 1), near(r, -1), near(r, .5), near(r, 2), r.uniform(-2, 3),
                          r.logu(1e-16, 1e16) * r.sign(), 0., 1., -1., 2., .5])]
    if fn in ("cdilog", "cli2f"):
        m = r.logu(1e-10, 1e10) if r.random() < .3 else near(r, 1) if r.random() < .5 else r.logu(.1, 10)
        p = r.uniform(-math.pi, math.pi)
        if r.random() < .2:
            p = r.logu(1e-12, 1) * r.sign()
        if r.random() < .1:
            return [r.choice([-1, 1]) * m, 0.0]
        if r.random() < .1:
            return [.5 + r.sign() * r.logu(1e-14, 1e-2), r.uniform(-2, 2)]
        return [m * math.cos(p), m * math.sin(p)]
    if fn == "cl2":
        return [r.choice([r.uniform(-20, 20), near(r, math.pi), near(r, math.pi / 2), near(r, 2 * math.pi),
                          r.logu(1e-14, 1), 0., math.pi])]
    if fn == "a0":
        return [r.choice([r.logu(1e-3, 1e12), r.logu(1e-3, 1e12), 0.]), r.logu(1, 1e10)]
    if fn == "d1_b0":
        a = r.logu(1, 1e10)
        return [a, a * abs(ratio(r, False))]
    if fn == "b0xx":
        m = r.logu(1, 1e10)
        return [m * r.choice([near(r, 4), r.logu(1e-8, 1e8), r.logu(.1, 200), 0.]), m if r.random() < .9 else 0.,
                r.logu(1, 1e10)]
    if fn == "b0":
        m = r.logu(1, 1e10)
        m2 = m * r.choice([near(r, 1), r.logu(1e-8, 1e8), r.logu(.1, 10), 0., 1.])
        th = (math.sqrt(m) + math.sqrt(m2)) ** 2
        a = [r.choice([near(r, th), r.logu(1e-8, 1e8) * m, r.logu(.1, 10) * m, 0.,
                       near(r, (math.sqrt(m) - math.sqrt(m2)) ** 2 or 1.0)]), m, m2, r.logu(1, 1e10)]
        if r.random() < .5:
            a[1], a[2] = a[2], a[1]
        return a
    if fn in TWO:
        s = fn in SIGNED
        x, y = ratio(r, s), ratio(r, s)
        c = r.random()
        if c < .25:
            y = near(r, x)
        elif c < .3:
            y = x
        elif c < .35:
            y = 0.
        elif c < .42 and s:
            y = -x
        elif c < .5 and s:
            y = -near(r, x)
        if r.random() < .5:
            x, y = y, x
        return [x, y]
    if fn in ("phi", "delta"):
        z = r.logu(1, 1e8)
        c = r.random()
        if c < .5:
            a = [z * r.logu(1e-5, 1), z * r.logu(1e-5, 1), z]
        elif c < .65:
            a = [z * near(r, .25), z * near(r, .25), z]
        elif c < .8:
            a = [z * near(r, 1), z * r.logu(1e-6, 1), z]
        elif c < .9:
            x = r.logu(1e-4, 1)
            a = [z * x, z * near(r, x), z]
        else:
            a = [z * r.choice([1., near(r, 1)]), z * r.choice([1., near(r, 1)]), z]
        r.shuffle(a)
        return a
    return [ratio(r, fn in SIGNED)]
