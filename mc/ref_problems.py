"""The published benchmark functions, written from their definitions for second-order jets (independent of JAX)."""
import numpy as np

from mc.jets import Dom, Jet, absj, const, cos, exp, maxc, mean, prod, select, signj, sin, sqrt, total

pi = np.pi


# ---- ZDT -------------------------------------------------------------------------------------------
def zdt(name):
    def f(x, M, **k):
        n = len(x)
        if name == "ZDT4":
            g = 1 + 10 * (n - 1) + total(t * t - 10 * cos(4 * pi * t) for t in x[1:])
        elif name == "ZDT6":
            g = 1 + 9 * (mean(x[1:]) ** 0.25)
        else:
            g = 1 + 9 * mean(x[1:])
        if name == "ZDT6":
            f1 = 1 - exp(-4 * x[0]) * sin(6 * pi * x[0]) ** 6
            return [f1, g * (1 - (f1 / g) ** 2)]
        r = x[0] / g
        if name == "ZDT2":
            return [x[0], g * (1 - r**2)]
        h = 1 - sqrt(r)
        if name == "ZDT3":
            h = h - r * sin(10 * pi * x[0])
        return [x[0], g * h]

    return f


# ---- DTLZ ------------------------------------------------------------------------------------------
def dtlz_g(name, xm):
    if name in ("DTLZ1", "DTLZ3"):
        return 100 * (len(xm) + total((t - 0.5) ** 2 - cos(20 * pi * (t - 0.5)) for t in xm))
    if name == "DTLZ6":
        return total(t**0.1 for t in xm)
    return total((t - 0.5) ** 2 for t in xm)


def dtlz(name):
    inverted = name.startswith("I")
    base = name[1:] if inverted else name

    def f(x, M, **k):
        xs, xm = x[: M - 1], x[M - 1:]
        if base == "DTLZ7":
            g = 1 + 9.0 / len(xm) * total(xm)
            h = M - total(t / (1 + g) * (1 + sin(3 * pi * t)) for t in xs)
            return list(xs) + [(1 + g) * h]
        g = dtlz_g(base, xm)
        if base == "DTLZ1":
            a = [(t, 1 - t) for t in xs]
        else:
            if base == "DTLZ4":
                th = [t**100 * (pi / 2) for t in xs]
            elif base in ("DTLZ5", "DTLZ6"):
                th = [t * (pi / 2) if i == 0 else (1 + 2 * g * t) / (4 * (1 + g)) * pi for i, t in enumerate(xs)]
            else:
                th = [t * (pi / 2) for t in xs]
            a = [(cos(t), sin(t)) for t in th]
        out = []
        for i in range(M):
            parts = [c for c, _ in a[: M - 1 - i]] + ([a[M - 1 - i][1]] if i else [])
            v = (1 + g) * (prod(parts) if parts else const(x[0], 1.0))
            out.append(0.5 * v if base == "DTLZ1" else v)
        if inverted:
            out = [(1 + g) / 2 - v for v in out]
        return out

    return f


def eq_dtlz(x, M, **k):
    return [absj(total((t - 0.5) ** 2 for t in x[: M - 1]) - 0.16) - 1e-4]


# ---- CEC 2009 --------------------------------------------------------------------------------------
def sets2(n):
    """1-based odd and even indices >= 2"""
    return [j for j in range(3, n + 1) if j % 2], [j for j in range(2, n + 1) if j % 2 == 0]


def sets3(n):
    return tuple([j for j in range(3, n + 1) if j % 3 == r] for r in (1, 2, 0))


def _rug(ys, js):
    return (2.0 / len(js)) * (4 * total(y * y for y in ys) - 2 * prod(cos(20 * pi / np.sqrt(j) * y) for y, j in zip(ys, js)) + 2)


def uf(num):
    def f(x, M, **k):
        n = len(x)
        x1 = x[0]
        J1, J2 = sets2(n)
        X = lambda j: x[j - 1]
        if num <= 7:
            if num in (1, 4, 5, 6, 7):
                y = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            elif num == 3:
                y = lambda j: X(j) - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
            if num == 2:
                env = lambda j: 0.3 * x1**2 * cos(24 * pi * x1 + 4 * j * pi / n) + 0.6 * x1
                y1 = [X(j) - env(j) * cos(6 * pi * x1 + j * pi / n) for j in J1]
                y2 = [X(j) - env(j) * sin(6 * pi * x1 + j * pi / n) for j in J2]
            else:
                y1, y2 = [y(j) for j in J1], [y(j) for j in J2]
            sq = lambda v: 2 * mean(t * t for t in v)
            if num in (1, 2):
                return [x1 + sq(y1), 1 - sqrt(x1) + sq(y2)]
            if num == 3:
                return [x1 + _rug(y1, J1), 1 - sqrt(x1) + _rug(y2, J2)]
            if num == 4:
                h = lambda v: 2 * mean(absj(t) / (1 + exp(2 * absj(t))) for t in v)
                return [x1 + h(y1), 1 - x1**2 + h(y2)]
            if num == 5:
                h = lambda v: 2 * mean(2 * t * t - cos(4 * pi * t) + 1 for t in v)
                c = (1 / 20 + 0.1) * absj(sin(20 * pi * x1))
                return [x1 + c + h(y1), 1 - x1 + c + h(y2)]
            if num == 6:
                c = maxc(2 * (1 / 4 + 0.1) * sin(4 * pi * x1), 0.0)
                return [x1 + c + _rug(y1, J1), 1 - x1 + c + _rug(y2, J2)]
            a = x1**0.2
            return [a + sq(y1), 1 - a + sq(y2)]
        G = sets3(n)
        x2 = x[1]
        y = lambda j: X(j) - 2 * x2 * sin(2 * pi * x1 + j * pi / n)
        if num in (8, 9):
            p = [2 * mean(y(j) ** 2 for j in g) for g in G]
        else:
            p = [2 * mean(4 * y(j) ** 2 - cos(8 * pi * y(j)) + 1 for j in g) for g in G]
        if num == 9:
            a = maxc(1.1 * (1 - 4 * (2 * x1 - 1) ** 2), 0.0)
            s = [0.5 * (a + 2 * x1) * x2, 0.5 * (a - 2 * x1 + 2) * x2, 1 - x2]
        else:
            a, b = x1 * (pi / 2), x2 * (pi / 2)
            s = [cos(a) * cos(b), cos(a) * sin(b), sin(a)]
        return [u + v for u, v in zip(s, p)]

    return f


def _h2(y):
    t = 1.5 * (1 - np.sqrt(0.5))
    return select(y.v < t, absj(y), 0.125 + (y - 1) ** 2, y.v - t)


def cf(num):
    def f(x, M, **k):
        n = len(x)
        x1 = x[0]
        J1, J2 = sets2(n)
        X = lambda j: x[j - 1]
        if num == 1:
            y = lambda j: X(j) - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
            return [x1 + 2 * mean(y(j) ** 2 for j in J1), 1 - x1 + 2 * mean(y(j) ** 2 for j in J2)]
        if num == 2:
            return [x1 + 2 * mean((X(j) - sin(6 * pi * x1 + j * pi / n)) ** 2 for j in J1),
                    1 - sqrt(x1) + 2 * mean((X(j) - cos(6 * pi * x1 + j * pi / n)) ** 2 for j in J2)]
        if num == 3:
            y = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            return [x1 + _rug([y(j) for j in J1], J1), 1 - x1**2 + _rug([y(j) for j in J2], J2)]
        if num == 4:
            y = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            h = lambda j: _h2(y(j)) if j == 2 else y(j) ** 2
            return [x1 + total(h(j) for j in J1), 1 - x1 + total(h(j) for j in J2)]
        if num == 5:
            y1 = lambda j: X(j) - 0.8 * x1 * cos(6 * pi * x1 + j * pi / n)
            y2 = lambda j: X(j) - 0.8 * x1 * sin(6 * pi * x1 + j * pi / n)
            h = lambda y: 2 * y * y - cos(4 * pi * y) + 1
            return [x1 + total(h(y1(j)) for j in J1), 1 - x1 + total(_h2(y2(j)) if j == 2 else h(y2(j)) for j in J2)]
        if num == 6:
            return [x1 + total((X(j) - 0.8 * x1 * cos(6 * pi * x1 + j * pi / n)) ** 2 for j in J1),
                    (1 - x1) ** 2 + total((X(j) - 0.8 * x1 * sin(6 * pi * x1 + j * pi / n)) ** 2 for j in J2)]
        if num == 7:
            h = lambda y: 2 * y * y - cos(4 * pi * y) + 1
            y1 = lambda j: X(j) - cos(6 * pi * x1 + j * pi / n)
            y2 = lambda j: X(j) - sin(6 * pi * x1 + j * pi / n)
            return [x1 + total(h(y1(j)) for j in J1), (1 - x1) ** 2 + total(y2(j) ** 2 if j in (2, 4) else h(y2(j)) for j in J2)]
        if num in (8, 9):
            return uf(8)(x, 3)
        return uf(10)(x, 3)

    return f


def cf_g(num):
    def g(x, M, **k):
        n = len(x)
        x1 = x[0]
        if num in (1, 2, 3):
            f1, f2 = cf(num)(x, M)
            if num == 1:
                return [1 - f1 - f2 + absj(sin(10 * pi * (f1 - f2 + 1)))]
            if num == 2:
                r = sqrt(f1)
                t = f2 + r - sin(2 * pi * (r - f2 + 1)) - 1
                return [-t / (1 + exp(4 * absj(t)))]
            return [1 - f2 - f1**2 + sin(2 * pi * (f1**2 - f2 + 1))]
        if num == 4:
            t = x[1] - sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25
            return [-t / (1 + exp(4 * absj(t)))]
        if num == 5:
            return [-(x[1] - 0.8 * x1 * sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25)]
        if num in (6, 7):
            a = 0.8 * x1 if num == 6 else const(x1, 1.0)
            u = 0.5 * (1 - x1) - (1 - x1) ** 2
            w = 0.25 * sqrt(1 - x1) - 0.5 * (1 - x1)
            return [-(x[1] - a * sin(6 * pi * x1 + 2 * pi / n) - signj(u) * sqrt(absj(u))),
                    -(x[3] - a * sin(6 * pi * x1 + 4 * pi / n) - signj(w) * sqrt(absj(w)))]
        f1, f2, f3 = cf(num)(x, 3)
        d = 1 - f3 * f3
        Dom.exclude(np.abs(d.v) < 1e-3)
        s = sin(2 * pi * ((f1**2 - f2**2) / d + 1))
        a = {8: 4, 9: 3, 10: 1}[num]
        return [1 - (f1**2 + f2**2) / d + a * (absj(s) if num == 8 else s)]

    return g


# ---- misc ------------------------------------------------------------------------------------------
def dent(x, M, **k):
    p, q = x[0] + x[1], x[0] - x[1]
    t = sqrt(1 + p**2) + sqrt(1 + q**2)
    e = 0.85 * exp(-(q**2))
    return [0.5 * (t + q) + e, 0.5 * (t - q) + e]


def conv(centers):
    def f(x, M, **k):
        return [total((t - c) ** 2 for t, c in zip(x, row)) for row in centers]

    return f


def conv4_2f(x, M, **k):
    A = np.eye(4)
    neg = np.all([t.v < 0 for t in x], axis=0)
    d = np.array([2, 0, 0, -2.0])
    edge = np.min([np.abs(t.v) for t in x], axis=0)
    return [select(neg, total((t + 1 - c) ** 2 for t, c in zip(x, A[i])) - 3.5 * d[i], total((t - c) ** 2 for t, c in zip(x, A[i])), edge)
            for i in range(4)]


def disc_f(x, M, **k):
    return list(x)


def disc_g(x, M, **k):
    c = x[0].v <= 0.5
    return [select(c, 0.1 - x[0], 0.6 - x[0], x[0].v - 0.5), select(c, x[0] - 0.4, x[0] - 0.8, x[0].v - 0.5)]


def disc_h(x, M, **k):
    return [select(x[0].v <= 0.6, (2.5 * x[0]) ** 2 - 5 * x[0] + 1 - x[1], 1 - (2.5 * x[0]) ** 2 - 5 - x[1], x[0].v - 0.6)]


# ---- WFG -------------------------------------------------------------------------------------------
def floorj(x):
    f = np.floor(x.v)
    Dom.exclude((np.abs(x.v - np.round(x.v)) < 1e-7))
    return f


def s_linear(y, A=0.35):
    # values within rounding distance of the optimum (0.35 * xu / xu) count as the optimum
    r = absj(y - A) / np.abs(floorj(A - y) + A)
    return select(r.v < 1e-12, const(y, 0.0), r, r.v - 1e-12)


def s_decept(y, A, B, C):
    return 1 + (absj(y - A) - B) * (floorj(y - A + B) * (1 - C + (A - B) / B) / (A - B)
                                    + floorj(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B) + 1 / B)


def s_multi(y, A, B, C):
    q = absj(y - C) / (2 * (floorj(C - y) + C))
    return (1 + cos((4 * A + 2) * pi * (0.5 - q)) + 4 * B * q**2) / (B + 2)


def b_flat(y, A, B, C):
    return (A + np.minimum(0, floorj(y - B)) * (A * (B - y) / B)) - np.minimum(0, floorj(C - y)) * ((1 - A) * (y - C) / (1 - C))


def b_param(y, u, A=0.98 / 49.98, B=0.02, C=50.0):
    v = A - (1 - 2 * u) * np.abs(floorj(0.5 - u) + A)
    return y ** (B + (C - B) * v)


def r_sum(y, w=None):
    w = np.ones(len(y)) if w is None else w
    return total(a * b for a, b in zip(y, w)) / float(np.sum(w))


def r_nonsep(y, A):
    n = len(y)
    s = total(y)
    for j in range(n):
        for k in range(A - 1):
            s = s + absj(y[j] - y[(j + k + 1) % n])
    h = np.ceil(A / 2)
    return s / (n / A * h * (1 + 2 * A - 2 * h))


def wfg(num):
    def f(x, M, k=None, xu=None):
        n = len(x)
        y = [t / xu[i] for i, t in enumerate(x)]
        lin = lambda y: y[:k] + [s_linear(t) for t in y[k:]]
        gap = k // (M - 1)
        groups = [list(range(i * gap, (i + 1) * gap)) for i in range(M - 1)]

        def red_sum(y, w=None):
            w = np.ones(len(y)) if w is None else w
            return [r_sum([y[i] for i in g], [w[i] for i in g]) for g in groups] + [r_sum(y[k:], w[k:])]

        def red_nonsep(y):
            return [r_nonsep([y[i] for i in g], gap) for g in groups] + [r_nonsep(y[k:], len(y) - k)]

        if num == 1:
            y = lin(y)
            y = y[:k] + [b_flat(t, 0.8, 0.75, 0.85) for t in y[k:]]
            y = [t**0.02 for t in y]
            t = red_sum(y, [2.0 * (i + 1) for i in range(n)])
        elif num in (2, 3):
            y = lin(y)
            y = y[:k] + [r_nonsep([y[k + 2 * i], y[k + 2 * i + 1]], 2) for i in range((n - k) // 2)]
            t = red_sum(y)
        elif num == 4:
            t = red_sum([s_multi(t, 30, 10, 0.35) for t in y])
        elif num == 5:
            t = red_sum([s_decept(t, 0.35, 0.001, 0.05) for t in y])
        elif num == 6:
            t = red_nonsep(lin(y))
        elif num == 7:
            t = red_sum(lin([b_param(y[i], r_sum(y[i + 1:])) if i < k else y[i] for i in range(n)]))
        elif num == 8:
            t = red_sum(lin([b_param(y[i], r_sum(y[:i])) if i >= k else y[i] for i in range(n)]))
        else:
            z = [b_param(y[i], r_sum(y[i + 1:])) for i in range(n - 1)] + [y[-1]]
            t = red_nonsep([s_decept(z[i], 0.35, 0.001, 0.05) if i < k else s_multi(z[i], 30, 95, 0.35) for i in range(n)])
        A = [1.0] + [0.0 if num == 3 else 1.0] * (M - 2)
        xs = [maxc(t[-1], a) * (t[i] - 0.5) + 0.5 for i, a in enumerate(A)]
        h = []
        for m in range(1, M + 1):
            head = xs[: M - m]
            if num in (1, 2):
                p = [1 - cos(v * (pi / 2)) for v in head] + ([1 - sin(xs[M - m] * (pi / 2))] if m > 1 else [])
            elif num == 3:
                p = list(head) + ([1 - xs[M - m]] if m > 1 else [])
            else:
                p = [sin(v * (pi / 2)) for v in head] + ([cos(xs[M - m] * (pi / 2))] if m > 1 else [])
            h.append(prod(p))
        if num == 1:
            h[-1] = 1 - xs[0] - cos(10 * pi * xs[0] + pi / 2) / (10 * pi)
        elif num == 2:
            h[-1] = 1 - xs[0] * cos(5 * pi * xs[0]) ** 2
        return [t[-1] + 2.0 * (m + 1) * h[m] for m in range(M)]

    return f


# ---- registry: name -> (objective, inequality, equality) -----------------------------------------------
REG = {}
for _n in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"):
    REG[_n] = (zdt(_n), None, None)
for _i in range(1, 8):
    REG[f"DTLZ{_i}"] = (dtlz(f"DTLZ{_i}"), None, None)
for _i in range(1, 5):
    REG[f"IDTLZ{_i}"] = (dtlz(f"IDTLZ{_i}"), None, None)
    REG[f"Eq1DTLZ{_i}"] = (dtlz(f"DTLZ{_i}"), None, eq_dtlz)
    REG[f"Eq1IDTLZ{_i}"] = (dtlz(f"IDTLZ{_i}"), None, eq_dtlz)
for _i in range(1, 11):
    REG[f"UF{_i}"] = (uf(_i), None, None)
    REG[f"CF{_i}"] = (cf(_i), cf_g(_i), None)
for _i in range(1, 10):
    REG[f"WFG{_i}"] = (wfg(_i), None, None)
REG["DENT"] = (dent, None, None)
REG["CONV3"] = (conv([[-1, -1, -1], [1, 1, 1], [-1, -1, 1]]), None, None)
REG["CONV4"] = (conv(np.eye(4)), None, None)
REG["CONV4_2F"] = (conv4_2f, None, None)
REG["DisConnected"] = (disc_f, disc_g, disc_h)


def evaluate(fn, X, M, **k):
    """values (P, q), Jacobians (P, q, n), Hessians (P, q, n, n), smoothness mask (P,)"""
    X = np.asarray(X, float)
    Dom.reset(len(X))
    with np.errstate(all="ignore"):
        out = fn(Jet.variables(X), M, **k)
    return np.stack([o.v for o in out], 1), np.stack([o.g for o in out], 1), np.stack([o.H for o in out], 1), Dom.mask.copy()
