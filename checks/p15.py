"""P15: the decompositions reconstruct their input, are ordered and unitary; perturbative shifts are those of exact diagonalisation."""
import math

import mpmath as mp
import numpy as np

import build
import drvlib

EPS = 2.220446049250313e-16
SQ = [2, 3, 4, 6]
HARNESS = ["lin.cpp"] + [f"lin_{k}.cpp" for k in ("rh", "rs", "ch", "cs", "rv", "rw", "cv", "cw", "p")]
RECT = dict(r=[(2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (4, 2)], c=[(2, 2), (3, 3), (2, 3), (3, 2), (4, 4), (2, 4)])
KINDS = ("general", "graded", "equal values", "nearly equal values", "rank deficient", "diagonal", "mass-matrix like", "mixed signs", "zero")


def unitary(g, n, c):
    a = g.normal(size=(n, n)) + (1j * g.normal(size=(n, n)) if c else 0)
    q, r = np.linalg.qr(a)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def values(g, n, kind):
    s = np.exp(g.uniform(-3, 3, size=n))
    if kind == "graded":
        s = 10.0 ** g.uniform(-9, 3, size=n)
    if kind == "equal values":
        s[1:] = s[0] if g.random() < .5 else s[1:]
        s[-1] = s[0]
    if kind == "nearly equal values":
        s[-1] = s[0] * (1 + 10.0 ** g.uniform(-15, -3))
    if kind == "rank deficient":
        s[g.integers(0, n)] = 0
        if g.random() < .3:
            s[g.integers(0, n)] = 0
    if kind == "zero":
        s[:] = 0
    return s


def matrix(g, shape, M, N, c, kind, size):
    k = min(M, N)
    if shape in ("svd",):
        if kind in ("general", "mass-matrix like"):
            m = g.normal(size=(M, N)) + (1j * g.normal(size=(M, N)) if c else 0)
            if kind == "mass-matrix like":
                m = m * 10.0 ** g.uniform(-4, 4, size=(M, N))
        else:
            s = np.zeros((M, N))
            s[:k, :k] = np.diag(values(g, k, kind))
            if kind == "mixed signs":
                s *= np.where(g.random((M, N)) < .5, -1, 1)
            m = s if kind == "diagonal" else unitary(g, M, c) @ s @ unitary(g, N, c)
            if kind == "diagonal" and M == N and g.random() < .5:
                m = m[g.permutation(M)]
        return m * size
    s = values(g, N, kind)
    if kind in ("mixed signs", "mass-matrix like", "equal values", "nearly equal values", "diagonal") and (shape == "herm" or not c):
        s = s * np.where(g.random(N) < .5, -1, 1)
    if kind == "mass-matrix like" or kind == "general":
        a = g.normal(size=(N, N)) + (1j * g.normal(size=(N, N)) if c else 0)
        if kind == "mass-matrix like":
            a = a * 10.0 ** g.uniform(-4, 4, size=(N, N))
        m = a + (a.conj().T if shape == "herm" else a.T)
    elif kind == "diagonal":
        m = np.diag(s) + (0j if c else 0)
    else:
        u = unitary(g, N, c)
        m = u @ np.diag(s) @ (u.conj().T if shape == "herm" else u.T)
    m = (m + (m.conj().T if shape == "herm" else m.T)) / 2
    return m * size


def request(name, m, c):
    M, N = m.shape
    flat = []
    for x in m.ravel():
        flat += [x.real, x.imag] if c else [x.real]
    dims = f"{M} {N}" if "svd" in name else f"{N}"
    return f"{name} {'c' if c else 'r'} {dims}|" + " ".join(float(x).hex() for x in flat)


def mat(x, M, N, c):
    a = np.array([float(v) for v in x])
    if c:
        a = a[0::2] + 1j * a[1::2]
    return a.reshape(M, N)


def separation(s, i, zero):
    """distance of value i from the rest of the (signed) spectrum"""
    d = [abs(s[i] - s[j]) for j in range(len(s)) if j != i]
    if zero:
        d.append(abs(s[i]))
    return min(d) if d else float("inf")


def judge(ctx, name, m, c, e, req):
    M, N = m.shape
    svd, sym, fs = "svd" in name, "sym" in name, name.startswith("fs")
    k = min(M, N)
    exact = np.linalg.svd(m, compute_uv=False)
    norm = exact[0] if len(exact) else 0.0
    # values
    signed = None
    if svd or sym:
        ref = np.sort(exact)[::-1][:k]
        want = ref if name in ("svd",) or (name == "sym" and c) else ref[::-1]
    else:
        signed = np.linalg.eigvalsh(m)
        want = signed if name == "herm" else signed[np.argsort(np.abs(signed), kind="stable")]
    tiny = 5e-324 * 100
    tol = 60 * k * EPS * norm + tiny
    cu = c or sym or name == "fssvdc"
    for ov in "01234":
        if "s" + ov not in e:
            continue
        s = np.array([float(x) for x in e["s" + ov]])
        got = np.sort(s)[::-1] if name == "sym" and not c else s
        w = ref if name == "sym" and not c else want
        if not np.all(np.isfinite(s)):
            ctx.violate(f"{name}:finite", f"{name} ({'complex' if c else 'real'} {M}x{N}, overload {ov}): values not finite", req)
            return
        if name == "fsherm":
            a = np.abs(got)
            if np.any(a[1:] < a[:-1] * (1 - 1e-12) - tol):
                ctx.violate(f"{name}:order", f"{name}: values not in ascending order of magnitude {got}", req)
            dev = np.max(np.abs(np.sort(got) - np.sort(w)))
        elif name == "herm":
            dev = np.max(np.abs(got - w))
        else:
            if np.any(got < 0):
                ctx.violate(f"{name}:sign", f"{name}: negative value {got}", req)
            dev = np.max(np.abs(got - w))
        if name != "sym" or c:
            d = np.diff(np.abs(s)) if name != "herm" else np.diff(s)
            d = -d if name in ("svd",) or name == "sym" else d
            if np.any(d < 0):
                ctx.violate(f"{name}:order", f"{name} ({M}x{N}, overload {ov}): values out of order {s}", req)
        ctx.close(f"{name}:values{ov}", f"{name} values", dev, 0.0, tol, f"{name} ({'complex' if c else 'real'} {M}x{N}, overload {ov}): values {s} instead of {w}", req)
        if "e" + ov in e:
            ctx.close(f"{name}:bound{ov}", f"{name} error bound", float(e["e" + ov]), EPS * norm, 1e-10 * EPS * norm + tiny,
                      f"{name} ({M}x{N}, overload {ov}): error bound of the values", req)
        if "u" + ov not in e:
            continue
        rot_tol = 60 * k * EPS + 1e-14
        if name == "sym" and c or name in ("rsym", "fssym") and c:
            rot_tol *= 4
        u = mat(e["u" + ov], M, M, cu)
        dev = np.max(np.abs(u @ u.conj().T - np.eye(M)))
        ctx.close(f"{name}:unitary{ov}", f"{name} rotation unitary", dev if dev == dev else 9e9, 0.0, rot_tol, f"{name} ({'complex' if c else 'real'} {M}x{N}, overload {ov}): left rotation not unitary", req)
        if svd:
            v = mat(e["v" + ov], N, N, cu)
            dev = np.max(np.abs(v @ v.conj().T - np.eye(N)))
            ctx.close(f"{name}:unitary-v{ov}", f"{name} rotation unitary", dev if dev == dev else 9e9, 0.0, rot_tol, f"{name} ({M}x{N}, overload {ov}): right rotation not unitary", req)
            S = np.zeros((M, N))
            S[:k, :k] = np.diag(s)
            back = (u.T if fs else u) @ S @ v
        elif sym:
            back = (u.T @ np.diag(s) @ u) if fs else (u @ np.diag(s) @ u.T)
        else:
            back = (u.conj().T @ np.diag(s) @ u) if fs else (u @ np.diag(s) @ u.conj().T)
        dev = np.max(np.abs(back - m))
        ctx.close(f"{name}:reconstruct{ov}", f"{name} reconstruction", dev if dev == dev else 9e99, 0.0, 100 * k * EPS * norm * (4 if sym and c else 1) + tiny,
                  f"{name} ({'complex' if c else 'real'} {M}x{N}, overload {ov}): decomposition does not reproduce the matrix", req)
    # error bounds of the vectors: eps*norm over the distance to the rest of the spectrum
    for q, side in (("ue", M > N), ("ve", M < N)):
        if q not in e:
            continue
        spec = s2 = np.array([float(x) for x in e["s2"]])
        if sym and not c:       # signed eigenvalues belonging to the reported magnitudes
            u = mat(e["u2"], M, M, True)
            r = u.conj() @ m @ u.conj().T if name == "fssym" else u.conj().T @ m @ u.conj()
            z = np.array([1 if abs(u[i].imag).max() < abs(u[i].real).max() else -1 for i in range(N)]) if name == "fssym" else \
                np.array([1 if abs(u[:, i].imag).max() < abs(u[:, i].real).max() else -1 for i in range(N)])
            spec = s2 * z
        got = np.array([float(x) for x in e[q]])
        for i in range(k):
            d = max(separation(spec, i, side), EPS * norm)
            if abs(d - separation(spec, i, side)) < 1e-300 and d < 1e4 * EPS * norm:
                continue        # the distance is rounding noise
            w = EPS * norm / d if norm else None
            if w is None:
                continue
            if d <= EPS * norm:
                continue
            ctx.close(f"{name}:vbound", f"{name} error bound of the rotations", got[i], w, 1e-3 * w, f"{name} ({M}x{N}): error bound {q}[{i}]", req)


def decompositions(ctx, exe):
    r = ctx.rng("lin")
    g = np.random.default_rng(r.randrange(1 << 60))
    jobs, reqs = [], []
    for it in range(ctx.n(21, 300)):
        for kind in KINDS:
            size = 1.0 if it % 3 else 10.0 ** g.choice([-290, -140, -60, -8, 4, 8, 60, 140, 290])
            for c in (False, True):
                for N in SQ:
                    h, s = (matrix(g, "herm", N, N, c, kind, size), matrix(g, "sym", N, N, c, kind, size))
                    for n in ("herm", "fsherm"):
                        jobs.append((n, h, c, kind))
                    for n in ("sym", "rsym", "fssym") if N < 6 else ():
                        jobs.append((n, s, c, kind))
                for M, N in RECT["c" if c else "r"]:
                    m = matrix(g, "svd", M, N, c, kind, size)
                    for n in ("svd", "rsvd", "fssvd"):
                        jobs.append((n, m, c, kind))
                    if not c and (M, N) in ((2, 2), (3, 3), (2, 3)):
                        jobs.append(("fssvdc", m, c, kind))
    reqs = [request(n, m, c) for n, m, c, _ in jobs]
    ev = drvlib.run(exe, reqs)
    for (n, m, c, kind), e, q in zip(jobs, ev, reqs):
        if "s0" not in e:
            ctx.violate(f"{n}:crash", f"{n}: {str(e)[:200]}", q)
            continue
        ctx.seen(f"{n} {'complex' if c else 'real'}", (m.shape, kind, q))
        judge(ctx, n, m, c, e, q)


def exact_shifts(m, order=3):
    """Taylor coefficients in x of the eigenvalues of m0 + x m1 + x^2 m2 + x^3 m3, 60 digits"""
    mp.mp.dps = 60
    A = [[mp.mpf(x) for x in k] for k in m]
    tr = [k[0] + k[3] for k in A]
    df = [k[0] - k[3] for k in A]
    od = [2 * k[1] for k in A]
    # discriminant D = df^2 + od^2 as a power series; its square root r
    D = [sum(df[i] * df[n - i] + od[i] * od[n - i] for i in range(n + 1)) for n in range(order + 1)]
    rt = [mp.sqrt(D[0])]
    for n in range(1, order + 1):
        rt.append((D[n] - sum(rt[i] * rt[n - i] for i in range(1, n))) / (2 * rt[0]))
    return [((tr[n] - rt[n]) / 2, (tr[n] + rt[n]) / 2) for n in range(order + 1)], rt


def perturbative(ctx, exe):
    r = ctx.rng("pert")
    jobs, reqs = [], []
    for i in range(ctx.n(4000, 60000)):
        size = 10.0 ** r.choice((0, 4, 8, -3))
        kind = r.choice(("general", "near", "higgs", "diagonal", "aligned"))

        def sym(f):
            a, b, c = r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)
            return [a * f, b * f, b * f, c * f]
        m0 = sym(size)
        if kind == "near":
            gap = 10.0 ** r.uniform(-9, -1)
            a = r.uniform(-1, 1)
            m0 = [size * a, size * gap * r.uniform(-1, 1), 0, size * (a + gap * r.uniform(-1, 1))]
            m0[2] = m0[1]
        elif kind == "higgs":
            ma, mz, b = 10.0 ** r.uniform(1.5, 4), 91., math.atan(r.logu(.3, 60))
            s, c = math.sin(b), math.cos(b)
            m0 = [ma**2 * s*s + mz**2 * c*c, -(ma**2 + mz**2) * s*c, 0, ma**2 * c*c + mz**2 * s*s]
            m0[2] = m0[1]
            size = 1e4
        elif kind == "diagonal":
            m0[1] = m0[2] = 0.0
        ms = [m0] + [sym(size * 10.0 ** r.uniform(-6, 0)) for _ in range(3)]
        if kind == "aligned":
            for k in (1, 2, 3):
                if r.random() < .5:
                    ms[k] = [x * r.uniform(-1, 1) if 0 else x * .3 for x in m0]
        if r.random() < .2:
            ms[r.choice((1, 2, 3))] = [0.0] * 4
        jobs.append((kind, ms))
        reqs.append("pert r 4|" + " ".join(float(x).hex() for k in ms for x in k))
    ev = drvlib.run(exe, reqs)
    for (kind, ms), e, q in zip(jobs, ev, reqs):
        if "p0" not in e:
            ctx.violate("pert:crash", f"perturbative diagonalisation: {str(e)[:200]}", q)
            continue
        want, rt = exact_shifts(ms)
        c2 = float(rt[0])
        n0 = max(abs(x) for x in ms[0])
        b, d, h = (max(abs(x) for x in k) for k in ms[1:])
        # rounding of the matrix elements enters through differences divided by the splitting c2
        k = 40 * EPS * (1 + n0 / c2 * .0)
        tol = (k * (n0 + c2), k * b, k * (d + b * b / c2), k * (h + b * d / c2 + b ** 3 / c2 ** 2))
        for n in range(4):
            for j in (0, 1):
                got = float(e[f"p{n}"][j])
                ctx.close(f"pert:{n}", f"perturbative shift, order {n}", got if got == got else 9e99, float(want[n][j]), tol[n] + 1e-300,
                          f"perturbative shift of order {n}, eigenvalue {j} ({kind}, splitting {c2 / n0:.2g})", q)
        for n, a in ((0, "a0"), (1, "b1"), (2, "c2")):
            if [float(x) for x in e[a]] != [float(x) for x in e[f"p{n}"]]:
                ctx.violate("pert:lower", f"order {n} depends on the higher orders", q)
        ctx.seen("perturbative", q)


def run(ctx):
    src = build.pick("mh2_fo/Linalg.cpp")
    try:
        exe = build.build("lin", HARNESS, sources=src)
    except build.BuildError:
        exe = build.build("lin", HARNESS)
    decompositions(ctx, exe)
    perturbative(ctx, exe)
    return ctx.finish("exercised", "distinct matrices decomposed by each routine (all overloads), plus distinct perturbative diagonalisations", 2000)
