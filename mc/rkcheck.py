"""C19: every tableau (scheme, number of stages, form) against its definition, every simplifying order condition, every rooted
tree up to an order; the explicit helpers on the polynomial systems of all rooted trees up to order four."""
import itertools
from functools import lru_cache
import numpy as np
import casadi as ca
from . import env, tableau as T
from nosnoc import rk_utils as R
from nosnoc import IrkSchemes

# admissible rounding per number of stages (20 .. 50 times what the tables show); the nodes are tabulated to the last digit
TOL = {1: 1e-13, 2: 1e-13, 3: 1e-13, 4: 2e-13, 5: 5e-13, 6: 2e-12, 7: 1e-11, 8: 5e-11, 9: 1e-10}


def tol(name, s):
    if name == 'nodes' or name == 'same nodes as the differential form':
        return 1e-13
    return TOL[s] * (10 if name.startswith(('end point', 'extrapolation')) else 1)



@lru_cache(None)
def trees(n):
    """rooted trees with n nodes as sorted tuples of children"""
    if n == 1:
        return [()]
    out = set()
    def forests(m, mx):
        if m == 0:
            yield ()
            return
        for k in range(min(m, mx), 0, -1):
            for t in trees(k):
                for f in forests(m - k, k):
                    yield tuple(sorted((t,) + f))
    for f in forests(n - 1, n - 1):
        out.add(f)
    return sorted(out)


@lru_cache(None)
def size(t):
    return 1 + sum(size(c) for c in t)


@lru_cache(None)
def gamma(t):
    r = size(t)
    for c in t:
        r *= gamma(c)
    return r


def phi(t, A):
    """vector of elementary weights of the stages"""
    r = np.ones(len(A))
    for c in t:
        r = r * (A @ phi(c, A))
    return r


def tableau_conditions(scheme, s, tree_order):
    """yields (name, defect)"""
    A, b, c, order = R.generate_butcher_tableu(s, IrkSchemes[scheme])
    A, b, c = np.array(A, dtype=float), np.array(b, dtype=float), np.array(c, dtype=float)
    p = 2 * s if scheme == 'GAUSS_LEGENDRE' else 2 * s - 1
    yield 'shape', 0.0 if A.shape == (s, s) and b.shape == (s,) and c.shape == (s,) else 1.0
    yield 'order', float(abs(order - p))
    a2, b2, c2 = T.rk(scheme, s)
    yield 'nodes', np.abs(c - c2).max()
    yield 'weights', np.abs(b - b2).max()
    yield 'coefficients', np.abs(A - a2).max()
    for k in range(1, p + 1):
        yield f'B({k})', abs(b @ c**(k - 1) - 1 / k)
    for k in range(1, s + 1):
        yield f'C({k})', np.abs(A @ c**(k - 1) - c**k / k).max()
    for k in range(1, (s if scheme == 'GAUSS_LEGENDRE' else s - 1) + 1):
        yield f'D({k})', np.abs((b * c**(k - 1)) @ A - b / k * (1 - c**k)).max()
    for n in range(1, min(p, tree_order) + 1):
        for t in trees(n):
            yield f'tree {t}', abs(b @ phi(t, A) - 1 / gamma(t))


def integral_conditions(scheme, s):
    B, C, D, tau = [np.array(q, dtype=float) for q in R.generate_butcher_tableu_integral(s, IrkSchemes[scheme])]
    p = 2 * s if scheme == 'GAUSS_LEGENDRE' else 2 * s - 1
    yield 'shape', 0.0 if C.shape == (s + 1, s + 1) and D.size == s + 1 and B.size == s + 1 and tau.shape == (s + 1,) else 1.0
    B, D = B.flatten(), D.flatten()
    C2, D2 = T.integral(scheme, s)
    b2, c2 = T.rk(scheme, s)[1:]
    yield 'nodes', np.abs(tau - np.append([0.0], c2)).max()
    yield 'weights', np.abs(B - np.append([0.0], b2)).max()
    yield 'derivative matrix', np.abs(C - C2).max() / np.abs(C2).max()
    yield 'end point', np.abs(D - D2).max()
    A1, b1, c1, _ = R.generate_butcher_tableu(s, IrkSchemes[scheme])
    yield 'same nodes as the differential form', np.abs(tau[1:] - np.array(c1)).max()
    yield 'same weights as the differential form', np.abs(B[1:] - np.array(b1)).max()
    scale = np.abs(C).max()
    for k in range(s + 1):
        v = tau**k
        dv = k * tau**(k - 1) if k else 0 * tau
        yield f'derivative of degree {k}', np.abs(v @ C - dv).max() / scale
        yield f'extrapolation of degree {k}', abs(v @ D - 1.0)
    for k in range(p):
        yield f'quadrature of degree {k}', abs(B[1:] @ tau[1:]**k - 1 / (k + 1))


@lru_cache(None)
def tree_system():
    ts = [t for n in range(1, 5) for t in trees(n)]
    x = ca.SX.sym('x', len(ts))
    rhs = []
    for t in ts:
        e = ca.SX(1.0)
        for c in t:
            e = e * x[ts.index(c)]
        rhs.append(e)
    return ts, ca.Function('f', [x], [ca.vertcat(*rhs)])


def exact(ts, y0, t):
    """solution of the tree system by polynomial integration"""
    pol = {}
    for q, y in zip(ts, y0):
        r = np.array([1.0])
        for c in q:
            r = np.convolve(r, pol[c])
        pol[q] = np.append([y], r / np.arange(1, len(r) + 1))
    return np.array([np.polyval(pol[q][::-1], t) for q in ts])


Y0 = [np.zeros(8), np.array([0.3, -0.2, 0.7, 0.1, 1.2, -0.8, 0.4, 0.9])]


def rk4_cases(q):
    for tf in (0.25, 1.0, 2.5) if q else (0.1, 0.25, 0.7, 1.0, 1.9, 2.5, 4.0):
        for n in range(1, 6 if q else 13):
            for iy in (0, 1):
                yield tf, n, iy


def grid_cases(q):
    H = (0.1, 0.5, 1.2)
    for L in range(0, 5 if q else 8):
        for g in itertools.product(H, repeat=L):
            for iy in (0, 1):
                yield g, iy


def rk4_defect(case):
    ts, f = tree_system()
    if case[0] == 'rk4':
        tf, n, iy = case[1:]
        y0 = Y0[iy].copy()
        x, t = R.rk4(f, y0, tf, n)
        grid = np.linspace(0, tf, n + 1)
        if np.shape(t) != grid.shape or np.abs(np.array(t) - grid).max() > 1e-12:
            return f'time grid {np.array(t).tolist()} instead of {grid.tolist()}'
    else:
        g, iy = case[1:]
        y0 = Y0[iy].copy()
        x = R.rk4_on_timegrid(f, y0, np.array(g))
        grid = np.append([0.0], np.cumsum(g))
    if not np.array_equal(y0, Y0[iy]):
        return 'the initial state was modified'
    x = np.array(x)
    ex = np.array([exact(ts, y0, t) for t in grid])
    if x.shape != ex.shape:
        return f'{x.shape} states instead of {ex.shape}'
    d = np.abs(x - ex) / (1 + np.abs(ex))
    if d.max() > 1e-10:
        k, i = np.unravel_index(np.argmax(d), d.shape)
        return f'tree {ts[i]} of order {size(ts[i])} at t={grid[k]}: {x[k, i]} instead of {ex[k, i]}'
    return None


def conditions(kind, scheme, s, order):
    return tableau_conditions(scheme, s, order) if kind == 'tableau' else integral_conditions(scheme, s)


def run(ck):
    ck.level = 'exploration'
    order = 8 if ck.quick else 11
    worst = 0.0
    for kind in ('tableau', 'integral'):
        for scheme in ('RADAU_IIA', 'GAUSS_LEGENDRE'):
            for s in range(1, 10):
                bad = None
                try:
                    for name, d in conditions(kind, scheme, s, order):
                        ck.evals += 1
                        ck.nontrivial += 1
                        worst = max(worst, d)
                        if not d <= tol(name, s) and bad is None:
                            bad = f'{name} is violated by {d:.3g}'
                except Exception as e:
                    bad = f'{type(e).__name__}: {e}'
                if bad:
                    ck.violation(f'{kind}:{scheme}:{s}', f'{kind} {scheme} n_s={s}: {bad}', dict(kind='c19', what=kind, scheme=scheme, s=s))
    ck.sample(dict(kind='tableau', scheme='RADAU_IIA', s=3, conditions=[n for n, _ in tableau_conditions('RADAU_IIA', 3, 4)]))
    ck.part('tableaux', stages='1..9', schemes=2, forms=2, rooted_trees_up_to_order=order, number_of_trees=sum(len(trees(n)) for n in range(1, order + 1)),
            largest_defect=worst)
    n = 0
    for case in [('rk4',) + c for c in rk4_cases(ck.quick)] + [('grid',) + c for c in grid_cases(ck.quick)]:
        try:
            d = rk4_defect(case)
        except Exception as e:
            d = f'{type(e).__name__}: {e}'
        n += 1
        if d:
            ck.violation(f'{case[0]}', f'{case[0]} {case[1:]}: {d}', dict(kind='c19', what='rk4', case=case))
            if ck.full():
                break
    ck.evals += n
    ck.nontrivial += n
    ck.part('explicit helpers', cases=n, trees_up_to_order=4)
    ck.sample(dict(kind='rk4_on_timegrid', grid=[0.1, 1.2, 0.5], systems='y_tau\' = product of y_child for all 8 trees up to order 4'))
    ck.rules.append('All pairs (scheme, number of stages 1..9) in both forms: nodes and coefficients against 60-digit values computed from the definition, all '
                    'simplifying conditions B, C, D, all rooted trees up to the listed order; the explicit helpers on the polynomial systems of all trees up to order 4, '
                    'every (tf, n_steps) and every word of step lengths up to the listed length.  A condition holds if its defect is below the rounding bound (nodes 1e-13, others 1e-13 for three stages up to 1e-10 for nine).')
    ck.assumptions.append('Floating-point tables are compared up to a rounding bound that grows with the number of stages (1e-13 .. 1e-10, nodes always 1e-13).')


def replay(data):
    if data['what'] == 'rk4':
        c = data['case']
        d = rk4_defect(tuple([c[0]] + [tuple(q) if isinstance(q, list) else q for q in c[1:]]))
        return [d] if d else []
    return [f'{n}: {d:.3g}' for n, d in conditions(data['what'], data['scheme'], data['s'], 8) if not d <= tol(n, data['s'])]
