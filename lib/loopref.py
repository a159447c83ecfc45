"""High-precision reference values of the loop functions (mpmath), written
from the definitions in the literature, not from the C++ code."""
import mpmath as mp

mp.mp.dps = 50


def _m(x):
    return mp.mpf(x)


def li2(x):
    return mp.re(mp.polylog(2, _m(x)))


def cli2(re, im):
    # continuous from below/above the cut; on the cut: Im = -pi log x (x + i0 convention of -Im)
    if im == 0:
        v = mp.polylog(2, _m(re))
        return mp.mpc(mp.re(v), -mp.pi * mp.log(_m(re)) if re > 1 else 0)
    z = mp.mpc(_m(re), _m(im))
    return _cli2(z)


def _cli2(z):
    return mp.polylog(2, z)


def cl2(x):
    return mp.clsin(2, _m(x))


def a0(m2, q2):
    m2 = abs(_m(m2))
    if m2 == 0:
        return mp.mpf(0)
    return m2 * (1 - mp.log(m2 / _m(q2)))


def b0(p2, m12, m22, q2):
    """Re B0 = -Re int_0^1 dx log((x m1^2 + (1-x) m2^2 - x(1-x) p^2 - i0)/q^2) in closed form"""
    p2, m12, m22, q2 = (abs(_m(v)) for v in (p2, m12, m22, q2))
    if p2 == 0:
        if m12 == 0 and m22 == 0:
            return None
        if m12 == m22:
            return -mp.log(m12 / q2)
        if m12 == 0:
            return 1 - mp.log(m22 / q2)
        if m22 == 0:
            return 1 - mp.log(m12 / q2)
        with mp.workdps(mp.mp.dps * 2):
            return 1 - (m12 * mp.log(m12 / q2) - m22 * mp.log(m22 / q2)) / (m12 - m22)
    with mp.workdps(200):
        # p2 x^2 + (m12 - m22 - p2) x + m22 = p2 (x - r1)(x - r2)
        b = m12 - m22 - p2
        disc = b * b - 4 * p2 * m22
        s = mp.sqrt(mp.mpc(disc))
        r1 = (-b + s) / (2 * p2)
        r2 = (-b - s) / (2 * p2)

        def part(r):
            # Re int_0^1 log|x - r| dx (real part of the log)
            def F(t):  # antiderivative of log(t): t log t - t
                return mp.mpf(0) if t == 0 else t * mp.log(t) - t
            if abs(mp.im(r)) == 0:
                rr = mp.re(r)

                def G(t):
                    return mp.mpf(0) if t == 0 else t * mp.log(abs(t)) - t
                return G(1 - rr) - G(-rr)
            return mp.re(F(1 - r) - F(-r))
        return -(mp.log(p2 / q2) + part(r1) + part(r2))


def d1_b0(m12, m22):
    a, b = abs(_m(m12)), abs(_m(m22))
    if a == 0 and b == 0:
        return None
    if a == b:
        return 1 / (6 * a)
    if a == 0 or b == 0:
        return 1 / (2 * max(a, b))
    with mp.workdps(120):
        d = a - b
        return (a * a - b * b + 2 * a * b * mp.log(b / a)) / (2 * d ** 3)


def _limit1(fun, xs, *args):
    """evaluates a function with removable singularities at the given 1-dim points"""
    with mp.workdps(120):
        return fun(*args)


def _shift(x, pts, h):
    for p in pts:
        if x == p:
            return x + h
    return x


H = mp.mpf(10) ** -40


def _desing(fun, pts):
    def g(x):
        with mp.workdps(220):
            x = _m(x)
            if x in pts:
                # even average around the removable singularity
                return (fun(x + H) + fun(x - H)) / 2
            return fun(x)
    return g


def _F1(x): return x * mp.log(x * x) / (x * x - 1)
def _F2(x): return 6 * x**2 * (2 - 2 * x**2 + (1 + x**2) * mp.log(x * x)) / (x**2 - 1)**3
def _F3(x): return 2 * x * (5 * (1 - x**2) + (1 + 4 * x**2) * mp.log(x * x)) / (3 * (x**2 - 1)**2)
def _F4(x): return 2 * x * (x**2 - 1 - mp.log(x * x)) / (x**2 - 1)**2
def _F5(x): return 3 * x * (1 - x**4 + 2 * x**2 * mp.log(x * x)) / (1 - x**2)**3
def _F6(x): return (x**2 - 3) / (4 * (1 - x**2)) + x**2 * (x**2 - 2) / (2 * (1 - x**2)**2) * mp.log(x * x)
def _F7(x): return (-3 * (x**4 - 6 * x**2 + 1) / (2 * (x**2 - 1)**2)
                    + 3 * x**4 * (x**2 - 3) / (x**2 - 1)**3 * mp.log(x * x))


F1, F2, F3, F4, F5, F6, F7 = (
    (lambda g: lambda x: (g(x)))(_desing(f, {mp.mpf(1), mp.mpf(-1), mp.mpf(0)}))
    for f in (_F1, _F2, _F3, _F4, _F5, _F6, _F7))
f = F5
g = F7


def _f1(r): return 6 * (r**2 + 3) * r**2 / (7 * (r**2 - 1)**2) + 6 * r**4 * (r**2 - 5) * mp.log(r * r) / (7 * (r**2 - 1)**3)
def _f2(r): return 2 * (r**2 + 11) * r**2 / (9 * (r**2 - 1)**2) + 2 * r**4 * (5 * r**2 - 17) * mp.log(r * r) / (9 * (r**2 - 1)**3)
def _f3(r): return 2 * (r**4 + 9 * r**2 + 2) / (3 * (r**2 - 1)**2) + 2 * r**2 * (r**4 - 7 * r**2 - 6) * mp.log(r * r) / (3 * (r**2 - 1)**3)
def _f4(r): return 2 * (5 * r**4 + 25 * r**2 + 6) / (7 * (r**2 - 1)**2) + 2 * r**2 * (r**4 - 19 * r**2 - 18) * mp.log(r * r) / (7 * (r**2 - 1)**3)


f1, f2, f3, f4 = (_desing(q, {mp.mpf(1), mp.mpf(-1), mp.mpf(0)}) for q in (_f1, _f2, _f3, _f4))


def _lg(x):
    return mp.mpf(0) if x == 0 else mp.log(x * x)


def _F8(x, y):
    a, b = x * x, y * y
    return -2 + 2 / (a - b) * (a * a / (a - 1) * _lg(x) - b * b / (b - 1) * _lg(y))


def _F9(x, y):
    a, b = x * x, y * y
    return 2 / (a - b) * (a / (a - 1) * _lg(x) - b / (b - 1) * _lg(y))


def _f5(r, s):
    return mp.mpf(3) / 4 * ((1 + (r + s)**2 - r**2 * s**2) / ((r**2 - 1) * (s**2 - 1))
                            + r**3 * (r**2 + 1) * _lg(r) / ((r**2 - 1)**2 * (r - s))
                            - s**3 * (s**2 + 1) * _lg(s) / ((s**2 - 1)**2 * (r - s)))


def _f6(r, s):
    return mp.mpf(6) / 7 * ((r**2 + s**2 + r * s - r**2 * s**2) / ((r**2 - 1) * (s**2 - 1))
                            + r**5 * _lg(r) / ((r**2 - 1)**2 * (r - s))
                            - s**5 * _lg(s) / ((s**2 - 1)**2 * (r - s)))


def _f7(r, s):
    return 6 * ((1 + r * s) / ((r**2 - 1) * (s**2 - 1))
                + r**3 * _lg(r) / ((r**2 - 1)**2 * (r - s))
                - s**3 * _lg(s) / ((s**2 - 1)**2 * (r - s)))


def _f8(r, s):
    return mp.mpf(3) / 2 * ((r + s) / ((r**2 - 1) * (s**2 - 1))
                            + r**4 * _lg(r) / ((r**2 - 1)**2 * (r - s))
                            - s**4 * _lg(s) / ((s**2 - 1)**2 * (r - s)))


def _two(fun, sq):
    """removable singularities at |x|=1, |y|=1, x=y (x^2=y^2 if sq)"""
    def g(x, y):
        with mp.workdps(260):
            x, y = _m(x), _m(y)
            if abs(x) == 1:
                x = x * (1 + H)
            if abs(y) == 1:
                y = y * (1 - H / 3)
            if x == y or (sq and x == -y):
                y = y * (1 + H) if y != 0 else H
            return fun(x, y)
    return g


F8 = _two(_F8, True)
F9 = _two(_F9, True)
f5, f6, f7, f8 = (_two(q, False) for q in (_f5, _f6, _f7, _f8))


def delta(x, y, z):
    x, y, z = _m(x), _m(y), _m(z)
    return x * x + y * y + z * z - 2 * (x * y + x * z + y * z)


def phi(x, y, z):
    """phi_xyz as used by the threshold corrections: z lambda^2(u,v)/2 Phi(u,v), with z the largest
    mass and Phi the Davydychev-Tausk function, via its integral/series definition in terms of Li2"""
    x, y, z = sorted(_m(v) for v in (x, y, z))
    with mp.workdps(80):
        u, v = x / z, y / z
        lam2 = (1 - u - v)**2 - 4 * u * v
        if lam2 == 0:
            return mp.mpf(0)
        if lam2 > 0:
            lam = mp.sqrt(lam2)
            xp = (1 + (u - v) - lam) / 2
            xm = (1 - (u - v) - lam) / 2
            P = (2 * mp.log(xp) * mp.log(xm) - mp.log(u) * mp.log(v)
                 - 2 * (mp.re(mp.polylog(2, xp)) + mp.re(mp.polylog(2, xm))) + mp.pi**2 / 3) / lam
        else:
            lam = mp.sqrt(-lam2)
            su, sv = mp.sqrt(u), mp.sqrt(v)
            P = 2 / lam * (mp.clsin(2, 2 * mp.acos((-1 + u + v) / (2 * su * sv)))
                           + mp.clsin(2, 2 * mp.acos((1 + u - v) / (2 * su)))
                           + mp.clsin(2, 2 * mp.acos((1 - u + v) / (2 * sv))))
        return P * z * lam2 / 2


def b0xx(p2, m2, q2):
    return b0(p2, m2, m2, q2)
