import math


def chunks(n, k):
    step = max(1, -(-n // k))
    return [list(range(i, min(n, i + step))) for i in range(0, n, step)]


def build(tier, hess):
    deep = tier == "thorough"
    P = []
    for m in (2, 3) + ((4,) if deep else ()):
        P.append(("histories", dict(m=m, depth=2 if (m == 4 or not deep) else 3, hessian=hess)))
    for n, m in ((2, 2), (3, 2), (2, 3), (3, 3)):
        P.append(("shared", dict(n=n, m=m, depth=2 if not deep else 3, hessian=hess)))
    for n, m, N, k in [(1, 2, 2, 4), (2, 2, 2, 3), (2, 3, 2, 3)] + ([(1, 2, 3, 4), (2, 2, 3, 3), (2, 3, 3, 2), (3, 3, 2, 3)] if deep else []):
        c = k**n
        for ch in chunks(c, 3):
            P.append(("composed", dict(n=n, m=m, N=N, hessian=hess, first=ch, k=k, cubic=True)))
    ot = [(1, 1, 1), (1, 2, 1), (1, 3, 1), (1, 4, 1), (2, 1, 1), (2, 2, 1), (2, 3, 1), (2, 4, 1), (3, 1, 1), (3, 2, 1), (3, 3, 1), (4, 2, 1), (5, 2, 1)]
    ot += [(2, 5, 0)] if deep or not hess else []
    ot += [(4, 3, 0)]
    for m, N, ext in ot:
        f = math.factorial(N)
        for c in chunks(f, 1 if f**m < 100 else 8):
            P.append(("order_types", dict(m=m, N=N, first=c, hessian=hess, extents=bool(ext))))
    # canonical row order for the bigger ones (row order is covered above)
    for m, N in [(3, 4), (2, 5), (2, 6)] + ([(3, 5), (4, 4), (5, 3)] if deep else []):
        P.append(("order_types", dict(m=m, N=N, first=[0], hessian=hess)))
    for m, hi, ref, size in [(1, 5, [3], 3), (2, 3, [3, 3], 2), (2, 3, [3, 2], 3), (3, 2, [2, 2, 2], 2)] + (
        [(3, 2, [2, 2, 2], 3), (2, 4, [4, 3], 3)] if deep else [(3, 1, [2, 2, 2], 3)]
    ):
        n = (hi + 1) ** m
        for c in chunks(n, 8):
            P.append(("grid", dict(m=m, hi=hi, ref=ref, size=size, first=c, hessian=hess)))
    P.append(("families", dict(m=2, nmax=(14 if not deep else 20) if not hess else (7 if not deep else 12), hessian=hess)))
    P.append(("families", dict(m=3, nmax=(6 if not deep else 9) if not hess else (4 if not deep else 6), hessian=hess)))
    for n, m, N, k in [(1, 1, 2, 5), (2, 1, 3, 3), (1, 2, 2, 5), (2, 2, 2, 3), (2, 3, 2, 3), (3, 2, 2, 2), (3, 4, 2, 2)] + (
        [(2, 2, 3, 3), (2, 3, 3, 3), (3, 3, 2, 3)] if deep else [(1, 2, 3, 4), (2, 3, 3, 2)]
    ):
        c = k**n
        for ch in chunks(c, 4):
            P.append(("composed", dict(n=n, m=m, N=N, hessian=hess, first=ch, k=k)))
    for m, N in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 2)] + ([(2, 4), (3, 3)] if deep else []):
        for c in chunks(math.factorial(N), 1 if N < 3 else 6):
            P.append(("automatic", dict(m=m, N=N, first=c, hessian=hess)))
    for n, m in ((2, 2), (3, 2), (2, 3)):
        for sign in (1, -1):
            P.append(("references", dict(n=n, m=m, sign=sign, depth=4 if deep and m == 2 else 3, hessian=hess)))
    for m, top, more in ((1, 30, 60), (2, 64, 100), (3, 24, 40), (4, 10, 13), (5, 7, 8)):
        top = more if deep else top
        for c in range(8):
            P.append(("fronts", dict(m=m, sizes=list(range(1, top + 1))[c::8], hessian=hess)))
    for m, N in ((2, 100), (3, 36)) if hess else ((2, 130), (2, 200), (2, 300), (2, 400), (3, 40), (3, 60), (3, 80), (4, 14)):
        P.append(("fronts", dict(m=m, sizes=[N], hessian=hess)))
    return P
