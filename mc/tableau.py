"""Collocation tableaux computed from their definition in 60-digit decimal arithmetic (independent of
the tables in nosnoc/rk_utils.py): nodes are the roots of the shifted Legendre polynomial
(Gauss-Legendre) resp. of P_s - P_{s-1} (Radau IIA), coefficients are integrals / derivatives of the
Lagrange polynomials."""
from decimal import Decimal as D, getcontext
from functools import lru_cache
import numpy as np
getcontext().prec = 60


def padd(a, b, s=D(1)):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else D(0)) + s * (b[i] if i < len(b) else D(0)) for i in range(n)]


def pmul(a, b):
    r = [D(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r


def peval(a, x):
    r = D(0)
    for c in reversed(a):
        r = r * x + c
    return r


def pder(a):
    return [c * i for i, c in enumerate(a)][1:] or [D(0)]


def pint(a, x):
    return sum((c * x**(i + 1) / (i + 1) for i, c in enumerate(a)), D(0))


def legendre(n):
    """shifted to [0,1]"""
    a, b = [D(1)], [D(-1), D(2)]
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, padd([D(2 * k + 1) / (k + 1) * c for c in pmul([D(-1), D(2)], b)], [D(k) / (k + 1) * c for c in a], D(-1))
    return b


@lru_cache(None)
def nodes(scheme, s):
    p = legendre(s) if scheme == 'GAUSS_LEGENDRE' else padd(legendre(s), legendre(s - 1), D(-1))
    # start from numpy roots and polish with Newton
    r = sorted(np.roots([float(c) for c in reversed(p)]).real)
    out, d = [], pder(p)
    for x in r:
        x = D(repr(float(x)))
        for _ in range(12):
            x = x - peval(p, x) / peval(d, x)
        out.append(x)
    out = sorted(out)
    if scheme != 'GAUSS_LEGENDRE':
        assert abs(out[-1] - 1) < D('1e-50')
        out[-1] = D(1)
    assert len(set(out)) == s and all(abs(peval(p, x)) < D('1e-45') for x in out)
    return tuple(out)


def lagrange(pts):
    L = []
    for i, xi in enumerate(pts):
        p = [D(1)]
        for j, xj in enumerate(pts):
            if j != i:
                p = [c / (xi - xj) for c in pmul(p, [-xj, D(1)])]
        L.append(p)
    return L


@lru_cache(None)
def rk_exact(scheme, s):
    c = nodes(scheme, s)
    L = lagrange(c)
    A = [[pint(L[j], c[i]) for j in range(s)] for i in range(s)]
    b = [pint(L[j], D(1)) for j in range(s)]
    return A, b, c


@lru_cache(None)
def integral_exact(scheme, s):
    """B (weights on stages), C[r][j] = L_r'(c_j), Dv[r] = L_r(1) with nodes 0,c_1..c_s.  B are the
    collocation weights b."""
    c = (D(0),) + nodes(scheme, s)
    L = lagrange(c)
    C = [[peval(pder(L[r]), c[j]) for j in range(s + 1)] for r in range(s + 1)]
    Dv = [peval(L[r], D(1)) for r in range(s + 1)]
    return C, Dv


@lru_cache(None)
def rk(scheme, s):
    A, b, c = rk_exact(scheme, s)
    f = lambda M: np.array([[float(x) for x in r] for r in M])
    return f(A), np.array([float(x) for x in b]), np.array([float(x) for x in c])


@lru_cache(None)
def integral(scheme, s):
    C, Dv = integral_exact(scheme, s)
    return np.array([[float(x) for x in r] for r in C]), np.array([float(x) for x in Dv])
