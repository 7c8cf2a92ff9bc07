"""Closed forms of the kernels, the maximum mean discrepancy and its derivatives (pure numpy)."""
import numpy as np


def kern(name, x, y, th, order=0):
    d = np.asarray(x, float) - np.asarray(y, float)
    m = len(d)
    if name == "rbf":
        k = np.exp(-th * d @ d)
        g = -2 * th * d * k
        H = (4 * th**2 * np.outer(d, d) - 2 * th * np.eye(m)) * k
    elif name == "rational_quadratic":
        q = th * (d @ d) / 2 + 1
        k = 1 / q
        g = -th * d / q**2
        H = -th * np.eye(m) / q**2 + 2 * th**2 * np.outer(d, d) / q**3
    else:
        s = np.sign(d)
        k = np.exp(-th * np.sum(np.abs(d)))
        g = -th * s * k
        H = th**2 * np.outer(s, s) * k
    return k, g, H  # derivatives w.r.t. x; the mixed second derivative is -H (translation invariance)


def mmd_value(name, Y, R, th):
    YY = np.mean([[kern(name, a, b, th)[0] for b in Y] for a in Y])
    RR = np.mean([[kern(name, a, b, th)[0] for b in R] for a in R])
    RY = np.mean([[kern(name, a, b, th)[0] for b in Y] for a in R])
    return RR + YY - 2 * RY


def matching_value(name, Y, T, th, beta):
    YY = np.mean([[kern(name, a, b, th)[0] for b in Y] for a in Y])
    return beta * YY + np.mean([2 - 2 * kern(name, a, b, th)[0] for a, b in zip(Y, T)])


def derivatives(name, Y, R, th, beta=1.0, matched=False):
    """gradient (N,m) and Hessian (N*m,N*m) w.r.t. the objective points"""
    Y, R = np.asarray(Y, float), np.asarray(R, float)
    N, m = Y.shape
    g, H = np.zeros((N, m)), np.zeros((N * m, N * m))
    for i in range(N):
        a = slice(i * m, i * m + m)
        for j in range(N):
            if i == j:
                continue
            _, kg, kH = kern(name, Y[i], Y[j], th)
            g[i] += 2 * beta * kg / N**2
            H[a, a] += 2 * beta * kH / N**2
            H[a, j * m:j * m + m] += -2 * beta * kH / N**2
        for j in ([i] if matched else range(len(R))):
            w = 1.0 / N if matched else 1.0 / (N * len(R))
            _, kg, kH = kern(name, Y[i], R[j], th)
            g[i] -= 2 * w * kg
            H[a, a] -= 2 * w * kH
    return g, H


def chain(gY, HY, J, Hf):
    """to the decision space: J (N,m,n), Hf (N,m,n,n)"""
    N, m, n = J.shape
    big = np.zeros((N * m, N * n))
    for i in range(N):
        big[i * m:(i + 1) * m, i * n:(i + 1) * n] = J[i]
    g = np.einsum("im,imn->in", gY, J)
    H = big.T @ HY @ big
    for i in range(N):
        H[i * n:(i + 1) * n, i * n:(i + 1) * n] += np.einsum("m,mab->ab", gY[i], Hf[i])
    return g, H
