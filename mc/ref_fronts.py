"""Independent description of the Pareto fronts of the benchmark problems.

For every problem: `param(p, F)` recovers the parameters of the published front a point F would have (and whether the
parameters lie in the published region), `decide(p, U)` gives optimal decisions for parameters, `grid(p, n)` a complete grid of
parameters.  A point lies on the front iff the region predicate holds and the published objective of decide(param(F)) is F."""
import itertools

import numpy as np

HALF = np.pi / 2


def unit(n):
    return np.linspace(0.0, 1.0, n)[:, None]


def box(n, d):
    return np.array(list(itertools.product(np.linspace(0.0, 1.0, n), repeat=d)))


def within(t, intervals, tol=1e-8):
    return np.any([(t >= a - tol) & (t <= b + tol) for a, b in intervals], axis=0)


def stick(s):
    """simplex point (last coordinate broken off first) -> positions in [0, 1]"""
    M = s.shape[1]
    x = np.full((len(s), M - 1), 0.5)
    rest = np.ones(len(s))
    for i in range(M - 1):
        ok = rest > 1e-12
        x[:, i] = np.where(ok, 1 - s[:, M - 1 - i] / np.where(ok, rest, 1), 0.5)
        rest = rest * x[:, i]
    return np.clip(x, 0, 1)


def angles(f):
    """point of the unit sphere -> positions theta * 2/pi"""
    M = f.shape[1]
    x = np.zeros((len(f), M - 1))
    for i in range(M - 1):
        head = np.linalg.norm(f[:, : M - 1 - i], axis=1)
        x[:, i] = np.arctan2(f[:, M - 1 - i], head) / HALF
    return np.clip(x, 0, 1)


class Front:
    """default: two objectives parametrised by the first one"""

    regions = ((0, 1),)
    tol_real = 1.1e-6  # documented smoothing of the implementation (square roots at 0: 1e-6)

    def __init__(self, p):
        self.p, self.n, self.M = p, p.n_var, p.n_obj

    def param(self, F):
        u = F[:, [0]]
        return np.clip(u, 0, 1), within(u[:, 0], self.regions)

    def grid(self, n):
        return np.concatenate([np.linspace(a, b, max(2, int(np.ceil(n * (b - a)))))[:, None] if b > a else np.array([[a]]) for a, b in self.regions])

    def decide(self, U):
        raise NotImplementedError


class Zdt(Front):
    def decide(self, U):
        return np.c_[U[:, 0], np.zeros((len(U), self.n - 1))]


class Zdt3(Zdt):
    @property
    def regions(self):
        if not hasattr(Zdt3, "_r"):
            from scipy.optimize import brentq, minimize_scalar

            f = lambda t: 1 - np.sqrt(t) - t * np.sin(10 * np.pi * t)
            mins = [minimize_scalar(f, bounds=(a, b), method="bounded", options=dict(xatol=1e-13)).x for a, b in ((0.02, 0.15), (0.2, 0.33), (0.4, 0.5), (0.6, 0.7), (0.8, 0.9))]
            lo = [0.0] + [brentq(lambda t: f(t) - f(mins[i]), mins[i] + 0.05, mins[i + 1]) for i in range(4)]
            Zdt3._r = tuple(zip(lo, mins))
        return Zdt3._r

    def param(self, F):
        u = F[:, [0]]
        return np.clip(u, 0, 1), within(u[:, 0], self.regions, 1e-6)


class Zdt6(Zdt):
    tol_real = 0.02

    @property
    def regions(self):
        t = np.linspace(0.05, 0.12, 700001)
        return ((float(np.min(1 - np.exp(-4 * t) * np.sin(6 * np.pi * t) ** 6)), 1.0),)

    def decide(self, U):
        f = lambda t: 1 - np.exp(-4 * t) * np.sin(6 * np.pi * t) ** 6
        t = np.linspace(0.05, 0.12, 70001)
        lo, hi = np.zeros(len(U)), np.full(len(U), t[np.argmin(f(t))])
        for _ in range(80):
            mid = (lo + hi) / 2
            up = f(mid) > U[:, 0]
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        return np.c_[(lo + hi) / 2, np.zeros((len(U), self.n - 1))]


class Sine(Front):
    """UF/CF: x_j on the published curve of x_1"""

    amp = 1.0

    def __init__(self, p, num, cf):
        super().__init__(p)
        self.num, self.cf = num, cf
        if not cf and num == 5:
            self.regions = tuple((i / 20, i / 20) for i in range(21))
        if not cf and num == 6:
            self.regions = ((0, 0), (0.25, 0.5), (0.75, 1))
        if cf and num == 1:
            self.regions = tuple((i / 20, i / 20) for i in range(21))
        if cf and num == 2:
            self.regions = ((0, 0), (1 / 16, 1 / 4), (9 / 16, 1))
        if cf and num == 3:
            self.regions = ((0, 0), (0.5, np.sqrt(0.5)), (np.sqrt(0.75), 1))

    def decide(self, U):
        x1 = U[:, 0]
        n = self.n
        if not self.cf and self.num == 7:
            x1 = x1**5
        j = np.arange(1, n + 1)
        odd = (j % 2 == 1)[None]
        ph = 6 * np.pi * x1[:, None] + j[None] * np.pi / n
        a = x1[:, None]
        e = 0.5 * (1 + 3 * (j[None] - 2) / max(n - 2, 1))
        if self.cf:
            Y = {1: lambda: a**e, 2: lambda: np.where(odd, np.sin(ph), np.cos(ph)), 3: lambda: np.sin(ph), 4: lambda: np.sin(ph),
                 5: lambda: 0.8 * a * np.where(odd, np.cos(ph), np.sin(ph)), 6: lambda: 0.8 * a * np.where(odd, np.cos(ph), np.sin(ph)),
                 7: lambda: np.where(odd, np.cos(ph), np.sin(ph))}[self.num]()
            if self.num in (4, 5):
                Y[:, 1] += np.where(x1 <= 0.5, 0, np.where(x1 <= 0.75, 0.5 * x1 - 0.25, 1.0))
            if self.num in (6, 7):
                v = np.maximum(0.5 * (1 - x1) - (1 - x1) ** 2, 0)
                w = np.maximum(0.25 * np.sqrt(1 - x1) - 0.5 * (1 - x1), 0)
                Y[:, 1] += np.where(x1 > 0.5, np.sqrt(v), 0)
                Y[:, 3] += np.where(x1 > 0.75, np.sqrt(w), 0)
        else:
            Y = {2: lambda: (0.3 * a**2 * np.cos(24 * np.pi * a + 4 * j[None] * np.pi / n) + 0.6 * a) * np.where(odd, np.cos(ph), np.sin(ph)),
                 3: lambda: a**e}.get(self.num, lambda: np.sin(ph))()
        Y[:, 0] = x1
        return Y


class Sphere3(Front):
    """UF8/UF10/CF8-CF10: parameters (x1, x2) of the sphere octant"""

    def __init__(self, p, num, cf):
        super().__init__(p)
        self.num, self.cf = num, cf

    def param(self, F):
        U = angles(F)
        s = 1 - F[:, 2] ** 2
        pole = s < 1e-9
        if not self.cf:
            return U, np.ones(len(F), bool)
        q = (F[:, 0] ** 2 - F[:, 1] ** 2) / np.where(pole, 1, s)
        if self.num == 8:
            ok = np.abs(2 * q - np.round(2 * q)) < 1e-6
        else:
            ok = within(q, ((-1, -1), (-0.5, 0), (0.5, 1)), 1e-6)
        return U, ok | pole

    def grid(self, n):
        if not self.cf:
            return box(n, 2)
        # x2 = atan(f2/f1) * 2/pi; f1^2/(1-f3^2) = cos^2(b)
        b = np.linspace(0, 1, 8 * n + 1)
        q = 2 * np.cos(b * HALF) ** 2 - 1
        if self.num == 8:
            b = np.array([np.arccos(np.sqrt(i / 4)) / HALF for i in range(5)])
        else:
            b = b[within(q, ((-0.5, 0), (0.5, 1)), 0)]
        return np.array(list(itertools.product(np.linspace(0, 1, n), b)))

    def decide(self, U):
        j = np.arange(1, self.n + 1)
        Y = 2 * U[:, [1]] * np.sin(2 * np.pi * U[:, [0]] + j[None] * np.pi / self.n)
        Y[:, :2] = U
        return Y


class Uf9(Sphere3):
    def param(self, F):
        x2 = 1 - F[:, 2]
        x1 = np.where(x2 > 1e-12, F[:, 0] / np.where(x2 > 1e-12, x2, 1), 0)
        return np.clip(np.c_[x1, x2], 0, 1), within(x1, ((0, 0.25), (0.75, 1)))

    def grid(self, n):
        U = box(4 * max(2, n // 2) + 1, 2)
        return U[(U[:, 0] <= 0.25) | (U[:, 0] >= 0.75)]


class Dtlz(Front):
    def __init__(self, p, kind):
        super().__init__(p)
        self.kind = kind
        if kind in ("5", "6"):
            self.tol_real = 0.02 if kind == "6" else 1e-6

    def param(self, F):
        k = self.kind
        if k == "1":
            U = stick(2 * F)
        elif k == "I1":
            U = stick(1 - 2 * F)
        elif k in ("5", "6"):
            U = angles(F)
            U[:, 1:] = 0.5
        elif k == "7":
            U = np.clip(F[:, :-1], 0, 1)
            return U, np.all(within(U, DTLZ7_REGIONS, 1e-7), axis=1)
        else:
            U = angles(F)
            if k == "4":
                U = U**0.01
        return U, np.ones(len(F), bool)

    def grid(self, n):
        d = self.M - 1
        m = max(3, int(round(n ** (1.0 / d))))
        if self.kind in ("5", "6"):
            return np.c_[np.linspace(0, 1, n), np.full((n, d - 1), 0.5)]
        U = box(m, d)
        if self.kind == "7":
            a = np.concatenate([np.linspace(lo, hi, m) for lo, hi in DTLZ7_REGIONS])
            U = np.array(list(itertools.product(a, repeat=d)))
        return U**0.01 if self.kind == "4" else U

    def decide(self, U):
        return np.c_[U, np.full((len(U), self.n - self.M + 1), 0.0 if self.kind in ("6", "7") else 0.5)]


class EqDtlz(Dtlz):
    def param(self, F):
        U, _ = super().param(F)
        return U, np.abs(np.sum((U - 0.5) ** 2, axis=1) - 0.16) < 1.1e-4

    def grid(self, n):
        d = self.M - 1
        if d == 1:
            u = np.array([[-1.0], [1.0]])
        else:
            u = box(7 if d > 2 else 41, d) * 2 - 1
            u = u[np.max(np.abs(u), axis=1) > 1 - 1e-9]
        u = u / np.linalg.norm(u, axis=1, keepdims=True)
        return 0.5 + np.sqrt(0.16 + 1e-4) * u  # |sum - r^2| = 1e-4


def _running_max_regions(f, fine=400001):
    t = np.linspace(0, 1, fine)
    v = f(t)
    new = np.r_[True, v[1:] > np.maximum.accumulate(v)[:-1]]
    e = np.flatnonzero(np.diff(np.r_[False, new, False].astype(int)))
    return tuple((t[a], t[b - 1]) for a, b in zip(e[::2], e[1::2]))


DTLZ7_REGIONS = _running_max_regions(lambda t: t * (1 + np.sin(3 * np.pi * t)))
DTLZ7_REGIONS = tuple((a - 3e-6 if a else 0.0, b + 3e-6) for a, b in DTLZ7_REGIONS)
WFG2_REGIONS = _running_max_regions(lambda t: t * np.cos(5 * np.pi * t) ** 2)


class Wfg(Front):
    """parameters = the M-1 position values after reduction; `shape` replaces decide"""

    def __init__(self, p, num):
        super().__init__(p)
        self.num = num
        self.S = 2.0 * np.arange(1, self.M + 1)

    def shape(self, U):
        U = np.asarray(U, float)
        M = self.M
        h = []
        for m in range(1, M + 1):
            head = U[:, : M - m]
            if self.num in (1, 2):
                v = np.prod(1 - np.cos(head * HALF), axis=1) * (1 - np.sin(U[:, M - m] * HALF) if m > 1 else 1)
            elif self.num == 3:
                v = np.prod(head, axis=1) * (1 - U[:, M - m] if m > 1 else 1)
            else:
                v = np.prod(np.sin(head * HALF), axis=1) * (np.cos(U[:, M - m] * HALF) if m > 1 else 1)
            h.append(v)
        if self.num == 1:
            h[-1] = 1 - U[:, 0] - np.cos(10 * np.pi * U[:, 0] + HALF) / (10 * np.pi)
        if self.num == 2:
            h[-1] = 1 - U[:, 0] * np.cos(5 * np.pi * U[:, 0]) ** 2
        return np.stack(h, 1) * self.S

    def param(self, F):
        h = F / self.S
        M = self.M
        ok = np.ones(len(F), bool)
        if self.num >= 4:
            return 1 - angles(h), ok  # cos/sin swapped
        if self.num == 3:
            U = np.full((len(F), M - 1), 0.5)
            U[:, 0] = 1 - h[:, -1]
            return U, ok
        # convex: the first M-1 shapes determine the parameters, one coordinate at a time
        if M == 2:
            U = np.arccos(np.clip(1 - h[:, 0], -1, 1))[:, None] / HALF
        else:
            U = np.zeros((len(F), M - 1))
            assert M == 3  # (1 - h1/a)^2 + (1 - h2/a)^2 = 1 with a = 1 - cos(u_1)
            a = h[:, 0] + h[:, 1] + np.sqrt(np.maximum(2 * h[:, 0] * h[:, 1], 0))
            zero = a < 1e-12
            U[:, 0] = np.arccos(np.clip(1 - a, -1, 1)) / HALF
            U[:, 1] = np.where(zero, 0, np.arccos(np.clip(1 - h[:, 0] / np.where(zero, 1, a), -1, 1)) / HALF)
        if self.num == 2:
            ok = within(U[:, 0], WFG2_REGIONS, 1e-5)
        return U, ok

    def grid(self, n):
        d = self.M - 1
        U = box(max(3, int(round(n ** (1.0 / d)))), d)
        if self.num == 3:
            U = np.c_[np.linspace(0, 1, n), np.full((n, d - 1), 0.5)]
        if self.num == 2:
            U = U[within(U[:, 0], WFG2_REGIONS, 0)]
        return U


class Conv(Front):
    def __init__(self, p, centers, offset=0.0, delta=None):
        super().__init__(p)
        self.C = [np.asarray(c, float) for c in centers]  # one set of centers per part
        self.delta = delta

    def param(self, F):
        d = len(self.C[0])
        part = (F[:, -1] > 3.5).astype(float) if len(self.C) > 1 else np.zeros(len(F))
        W = np.zeros((len(F), d))
        for q, C in enumerate(self.C):
            G = F + (self.delta if q and self.delta is not None else 0)
            # |x-c_i|^2 - |x-c_0|^2 = -2 x.(c_i-c_0) + |c_i|^2 - |c_0|^2, x = sum w_i c_i, sum w = 1
            A = np.vstack([-2 * (C[1:] - C[0]) @ C.T, np.ones(d)])
            b = np.c_[G[:, 1:] - G[:, [0]] - (np.sum(C[1:] ** 2, 1) - np.sum(C[0] ** 2)), np.ones(len(G))]
            w = np.linalg.solve(A, b.T).T
            W[part == q] = w[part == q]
        return np.c_[part, W], np.all(W >= -1e-7, axis=1)

    def grid(self, n):
        d = len(self.C[0])
        m = 20 if d == 3 else 9
        w = np.array([c for c in itertools.product(range(m + 1), repeat=d) if sum(c) == m], float) / m
        if len(self.C) > 1:
            w = w[np.max(w, axis=1) < 1]  # the vertices of the second part lie on the discontinuity of the objective
        return np.vstack([np.c_[np.full(len(w), q), w] for q in range(len(self.C))])

    def decide(self, U):
        X = np.zeros((len(U), self.n))
        for q, C in enumerate(self.C):
            X[U[:, 0] == q] = U[U[:, 0] == q, 1:] @ C
        return X


class Dent(Front):
    def param(self, F):
        u = (F[:, [0]] - F[:, [1]]) / 2
        return u, np.abs(u[:, 0]) <= 2 + 1e-9

    def grid(self, n):
        return np.linspace(-2, 2, n)[:, None]

    def decide(self, U):
        return np.c_[U[:, 0], -U[:, 0]]


def front(name, p):
    if name in ("ZDT1", "ZDT2", "ZDT4"):
        return Zdt(p)
    if name == "ZDT3":
        return Zdt3(p)
    if name == "ZDT6":
        return Zdt6(p)
    if name == "DENT":
        return Dent(p)
    if name == "CONV3":
        return Conv(p, [np.array([[-1.0, -1, -1], [1, 1, 1], [-1, -1, 1]])])
    if name == "CONV4":
        return Conv(p, [np.eye(4)])
    if name == "CONV4_2F":
        return Conv(p, [np.eye(4), np.eye(4) - 1], delta=3.5 * np.array([2.0, 0, 0, -2]))
    if name.startswith("WFG"):
        return Wfg(p, int(name[3:]))
    if name.startswith("Eq1"):
        return EqDtlz(p, name[3:].replace("DTLZ", ""))
    if "DTLZ" in name:
        return Dtlz(p, name.replace("DTLZ", ""))
    num, cf = int(name[2:]), name.startswith("CF")
    if num == 9 and not cf:
        return Uf9(p, 9, False)
    if num >= 8:
        return Sphere3(p, num, cf)
    return Sine(p, num, cf)
