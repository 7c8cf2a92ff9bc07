"""Small closed-form problems shared by the optimiser checks."""
import numpy as np


class Toy:
    """m objectives on R^n: quadratic bowls with a cubic term; closed-form derivatives"""

    def __init__(self, m, n=2, cubic=0.05):
        base = [(0.1, 0.2), (1.3, -0.4), (-0.3, 1.1), (0.8, 0.9), (0.35, -0.75), (-0.8, 0.15)]
        self.m, self.n, self.k = m, n, cubic
        self.C = np.array([[c[j % 2] + 0.17 * (j // 2) for j in range(n)] for c in base[:m]])
        self.W = np.array([[1.0 + 0.25 * ((i + 2 * j) % 3) for j in range(n)] for i in range(m)])

    def func(self, x):
        d = np.asarray(x) - self.C
        return (self.W * d**2).sum(1) + self.k * d[:, 0] ** 3

    def jac(self, x):
        d = np.asarray(x) - self.C
        J = 2 * self.W * d
        J[:, 0] += 3 * self.k * d[:, 0] ** 2
        return J

    def hess(self, x):
        d = np.asarray(x) - self.C
        H = np.zeros((self.m, self.n, self.n))
        for i in range(self.m):
            H[i] = np.diag(2 * self.W[i])
            H[i, 0, 0] += 6 * self.k * d[i, 0]
        return H


class Cstr:
    """constraint sets on the first two variables; everything 1-D vectors per point"""

    def __init__(self, kind, n=2):
        self.kind, self.n = kind, n
        self.eq = "h" in kind or "H" in kind
        self.ieq = "g" in kind or "G" in kind
        self.ne = 2 if "H" in kind else (1 if "h" in kind else 0)
        self.ni = 2 if "G" in kind else (1 if "g" in kind else 0)

    def _pad(self, rows):
        out = np.zeros((len(rows), self.n))
        out[:, :2] = rows[:, : self.n]
        return out

    def second(self, x):
        return x[1] if self.n > 1 else 0.0

    def h(self, x):
        return np.array([x[0] ** 2 + self.second(x) ** 2 - 1.0, x[0] - 2 * self.second(x) + 0.1][: self.ne])

    def h_jac(self, x):
        return self._pad(np.array([[2 * x[0], 2 * self.second(x)], [1.0, -2.0]])[: self.ne])

    def h_hess(self, x):
        H = np.zeros((2, self.n, self.n))
        for k in range(min(2, self.n)):
            H[0, k, k] = 2
        return H[: self.ne]

    def g(self, x):
        return np.array([0.3 - x[0] + 0.2 * self.second(x) ** 2, x[0] * self.second(x) - 0.5][: self.ni])

    def g_jac(self, x):
        return self._pad(np.array([[-1.0, 0.4 * self.second(x)], [self.second(x), x[0]]])[: self.ni])

    def g_hess(self, x):
        H = np.zeros((2, self.n, self.n))
        if self.n > 1:
            H[0, 1, 1] = 0.4
            H[1, 0, 1] = H[1, 1, 0] = 1
        return H[: self.ni]

    def kwargs(self, hess_names=("h_hessian", "g_hessian")):
        k = {}
        if self.eq:
            k.update(h=self.h, h_jac=self.h_jac)
            if hess_names:
                k[hess_names[0]] = self.h_hess
        if self.ieq:
            k.update(g=self.g, g_jac=self.g_jac)
            if hess_names:
                k[hess_names[1]] = self.g_hess
        return k


def lattice(N, n, v, lo, hi):
    """N points of a Kronecker lattice in the box [lo, hi]^n, shifted by v"""
    a = np.modf(np.sqrt([2, 3, 5, 7, 11, 13])[:n])[0]
    return lo + (hi - lo) * np.modf(0.37 + 0.29 * v + np.outer(np.arange(1, N + 1), a))[0]


class OutOfDomain(Exception):
    pass


def pd_modify(H):
    """modified Cholesky shift (multiple of the identity), with ambiguity detection"""
    H = np.tril(H) + np.tril(H, -1).T
    sc = max(1.0, np.max(np.abs(H)))
    tau, first = 0.0, True
    while True:
        e = np.linalg.eigvalsh(H + tau * np.eye(len(H)))[0]
        structurally_singular = first and np.any(np.all(H == 0, axis=1))
        if abs(e) < 1e-9 * sc and not structurally_singular and not (tau > 0 and abs(e - 1e-6) < 1e-8):
            raise OutOfDomain("definiteness is ambiguous")
        if e > 0 and not structurally_singular:
            return H + tau * np.eye(len(H))
        if first:
            v = np.min(np.diag(H))
            tau = 0.0 if v > 0 else -v + 1e-6
            first = False
            if tau > 0:
                continue
            tau = 1e-6
        else:
            tau = max(2 * tau, 1e-6)


def newton_solve(A, b):
    """solve, or minimum-norm least squares when A is singular; ambiguous rank is out of the domain"""
    if len(A) == 0:
        return np.zeros(0)
    s = np.linalg.svd(A, compute_uv=False)
    if s[0] == 0:
        return np.zeros(A.shape[1])
    if s[-1] > 1e-7 * s[0]:
        return np.linalg.solve(A, b)
    # singular: only accept the case of structurally zero rows/columns
    z = np.all(A == 0, axis=1) & np.all(A == 0, axis=0)
    B = A[np.ix_(~z, ~z)]
    if z.any():
        sb = np.linalg.svd(B, compute_uv=False) if len(B) else np.array([1.0])
        if sb[-1] > 1e-7 * sb[0]:
            x = np.zeros(len(b))
            if len(B):
                x[~z] = np.linalg.solve(B, b[~z])
            return x
    raise OutOfDomain("ill-conditioned system")
