"""Second-order jets (value, gradient, Hessian) over a batch of points: exact derivatives of formulas written in plain
Python, independent of JAX. DOM collects the points at which a formula is (numerically) not smooth."""
import numpy as np


class Dom:
    mask = None

    @classmethod
    def reset(cls, P):
        cls.mask = np.ones(P, bool)

    @classmethod
    def exclude(cls, bad):
        cls.mask &= ~bad


EPS = 1e-7


class Jet:
    __slots__ = ("v", "g", "H")
    __array_ufunc__ = None

    def __init__(self, v, g=None, H=None):
        self.v, self.g, self.H = v, g, H

    @staticmethod
    def variables(X):
        P, n = X.shape
        out = []
        for j in range(n):
            g = np.zeros((P, n))
            g[:, j] = 1
            out.append(Jet(X[:, j].copy(), g, np.zeros((P, n, n))))
        return out

    def _un(self, f, f1, f2):
        g = f1[:, None] * self.g
        H = f1[:, None, None] * self.H + f2[:, None, None] * self.g[:, :, None] * self.g[:, None, :]
        return Jet(f, g, H)

    def __add__(self, o):
        if isinstance(o, Jet):
            return Jet(self.v + o.v, self.g + o.g, self.H + o.H)
        return Jet(self.v + o, self.g, self.H)

    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.g, -self.H)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Jet):
            a, b = self, o
            c = a.g[:, :, None] * b.g[:, None, :]
            return Jet(a.v * b.v, a.v[:, None] * b.g + b.v[:, None] * a.g,
                       a.v[:, None, None] * b.H + b.v[:, None, None] * a.H + c + c.transpose(0, 2, 1))
        o = np.asarray(o, float)
        if o.ndim == 0:
            return Jet(self.v * o, self.g * o, self.H * o)
        return Jet(self.v * o, self.g * o[:, None], self.H * o[:, None, None])

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Jet):
            with np.errstate(all="ignore"):
                i = 1 / o.v
                return self * o._un(i, -(i**2), 2 * i**3)
        return self * (1.0 / np.asarray(o, float))

    def __rtruediv__(self, o):
        with np.errstate(all="ignore"):
            i = 1 / self.v
            return self._un(i, -(i**2), 2 * i**3) * o

    def __pow__(self, p):
        with np.errstate(all="ignore"):
            if isinstance(p, Jet):  # x ** y, x > 0
                Dom.exclude(self.v <= EPS)
                r = exp(log(self) * p)
                r.v = self.v**p.v
                return r
            if p == 2:
                return self * self
            if p != int(p):
                Dom.exclude(self.v <= EPS)
            f = self.v**p
            return self._un(f, p * self.v ** (p - 1), p * (p - 1) * self.v ** (p - 2))


def _w(x):
    return isinstance(x, Jet)


def sin(x):
    return x._un(np.sin(x.v), np.cos(x.v), -np.sin(x.v)) if _w(x) else np.sin(x)


def cos(x):
    return x._un(np.cos(x.v), -np.sin(x.v), -np.cos(x.v)) if _w(x) else np.cos(x)


def exp(x):
    e = np.exp(x.v if _w(x) else x)
    return x._un(e, e, e) if _w(x) else e


def log(x):
    with np.errstate(all="ignore"):
        return x._un(np.log(x.v), 1 / x.v, -1 / x.v**2)


def sqrt(x):
    if not _w(x):
        return np.sqrt(x)
    Dom.exclude(x.v <= EPS)
    with np.errstate(all="ignore"):
        s = np.sqrt(x.v)
        return x._un(s, 0.5 / s, -0.25 / s**3)


def select(cond, a, b, edge):
    """a where cond else b; edge: distance from the switching surface"""
    Dom.exclude(np.abs(edge) < EPS)

    def pick(p, q, k):
        c = cond.reshape((-1,) + (1,) * (k - 1))
        return np.where(c, p, q)

    return Jet(pick(a.v, b.v, 1), pick(a.g, b.g, 2), pick(a.H, b.H, 3))


def const(like, c):
    return Jet(np.full_like(like.v, c), np.zeros_like(like.g), np.zeros_like(like.H))


def absj(x):
    return select(x.v >= 0, x, -x, x.v)


def signj(x):
    return select(x.v >= 0, const(x, 1.0), const(x, -1.0), x.v)


def maxc(x, c):
    return select(x.v >= c, x, const(x, c), x.v - c)


def total(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def mean(xs):
    xs = list(xs)
    return total(xs) * (1.0 / len(xs))


def prod(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r
