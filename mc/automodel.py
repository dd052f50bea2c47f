"""C20: every right-hand side of a grammar up to a depth through the automatic reformulation, compared with the original at one point
of every cell of a grid; the result is turned into a problem."""
import itertools
import numpy as np
import casadi as ca
from . import env
from .driver import pmap

nosnoc = env.nosnoc
X = ca.SX.sym('x', 2)
U = ca.SX.sym('u')
P = ca.SX.sym('p')
GRID = np.array(list(itertools.product((-1.37, -0.41, 0.58, 1.73), (-1.21, -0.33, 0.67, 1.49), (-0.89, 0.76), (-1.11, 1.31)))).T   # x0, x1, u, p
# smooth atoms: name -> (casadi, numpy)
ATOM = {
    'x0': (X[0], lambda v: v[0]), 'x1': (X[1], lambda v: v[1]), 'u': (U, lambda v: v[2]), 'p': (P, lambda v: v[3]),
    '2': (ca.SX(2.0), lambda v: 2.0 + 0 * v[0]), 'x0*x1': (X[0] * X[1], lambda v: v[0] * v[1]), 'x0-u': (X[0] - U, lambda v: v[0] - v[2]),
    'sin(x1)': (ca.sin(X[1]), lambda v: np.sin(v[1])), 'x0+1e-3': (X[0] + 1e-3, lambda v: v[0] + 1e-3), 'p*x1-0.1': (P * X[1] - 0.1, lambda v: v[3] * v[1] - 0.1),
    '0': (ca.SX(0.0), lambda v: 0 * v[0]), '-x0': (-X[0], lambda v: -v[0]), 'x0-1.0000001': (X[0] - 1.0000001, lambda v: v[0] - 1.0000001),
    'x0-1': (X[0] - 1, lambda v: v[0] - 1), 'x0*1e6': (X[0] * 1000001, lambda v: v[0] * 1000001), 'x0/3': (X[0] / 3, lambda v: v[0] / 3),
    # print alike, but have different signs on a grid point
    'k1': (1000 * X[0] - 580.0001, lambda v: 1000 * v[0] - 580.0001), 'k2': (1000 * X[0] - 579.9999, lambda v: 1000 * v[0] - 579.9999)}
UN = {'neg': (lambda e: -e, lambda a: -a), 'sin': (ca.sin, np.sin), 'sq': (lambda e: e**2, lambda a: a**2), 'twice': (lambda e: 2 * e, lambda a: 2 * a),
      'half': (lambda e: e / 2, lambda a: a / 2), 'exp': (ca.exp, np.exp), 'rec': (lambda e: 1 / (3 + e**2), lambda a: 1 / (3 + a**2))}
BI = {'+': (lambda a, b: a + b, lambda a, b: a + b), '-': (lambda a, b: a - b, lambda a, b: a - b), '*': (lambda a, b: a * b, lambda a, b: a * b),
      '/': (lambda a, b: a / b, lambda a, b: a / b), 'fmax': (ca.fmax, np.maximum), 'fmin': (ca.fmin, np.minimum)}


class Ev:
    """casadi expression, values on the grid, mask of grid points away from every switching surface"""
    __slots__ = ('e', 'v', 'ok')

    def __init__(self, e, v, ok):
        self.e, self.v, self.ok = e, v, ok


def ev(t):
    """t: atom name or tuple (op, args...)"""
    if isinstance(t, str):
        e, f = ATOM[t]
        return Ev(e, f(GRID) + 0.0, np.ones(GRID.shape[1], bool))
    a = ev(t[1])
    if t[0] == 'sign':
        return Ev(ca.sign(a.e), np.sign(a.v), a.ok & (np.abs(a.v) > 1e-12))
    with np.errstate(all='ignore'):
        if len(t) == 2:
            f, g = UN[t[0]]
            return Ev(f(a.e), g(a.v), a.ok)
        b = ev(t[2])
        f, g = BI[t[0]]
        ok = a.ok & b.ok
        if t[0] in ('fmax', 'fmin'):
            ok = ok & (np.abs(a.v - b.v) > 1e-12)
        v = g(a.v, b.v)
        return Ev(f(a.e, b.e), v, ok & np.isfinite(v))


def text(t):
    if isinstance(t, str):
        return t
    if len(t) == 2:
        return f'{t[0]}({text(t[1])})'
    return f'({text(t[1])} {t[0]} {text(t[2])})' if t[0] in '+-*/' else f'{t[0]}({text(t[1])},{text(t[2])})'


def nonsmooth(q):
    A = ['x0', 'x0-u', 'p*x1-0.1'] + ([] if q else ['x0*x1', 'sin(x1)', '-x0', 'x0-1', 'x0-1.0000001'])
    M = [('x0', '2'), ('x1', 'x0'), ('u', 'sin(x1)')] + ([] if q else [('x0', '0'), ('0', 'x0'), ('x0*x1', 'p')])
    return [('sign', a) for a in A] + [(op, a, b) for op in ('fmax', 'fmin') for a, b in M]


def level2(N, S, un=UN, bi='+-*/'):
    for n in N:
        for u in un:
            yield (u, n)
        for s in S:
            for op in bi:
                yield (op, n, s)
                yield (op, s, n)
            yield ('fmax', n, s)


def pairs(A, B, bi='+-*/'):
    for a in A:
        for b in B:
            for op in bi:
                yield (op, a, b)


def scalars(q):
    """expressions for one equation"""
    N = nonsmooth(q)
    S = ['x1', '2', 'x0'] if q else ['x1', '2', 'x0', 'u', 'p', 'x0-u']
    L2 = list(level2(N, S)) + list(pairs(N, N)) + [('sign', n) for n in N] + [('fmin', a, b) for a in N[:4] for b in N[:4]]
    K = [('sign', 'k1'), ('sign', 'k2'), ('fmax', 'k1', '0'), ('fmax', 'k2', '0')]
    out = list(N) + L2 + list(pairs(K, K)) + list(level2(K, ['x1'], ('neg', 'sin', 'twice'))) + [('sin', t) for t in pairs(K[:2], K[:2])] + [(o, a, b) for o in ('+', '*') for a in pairs(K[:2], K[:2]) for b in (('sign', 'x0'), 'x1')]
    # three operations: every context around a selection / all of level two
    n3 = [N[0], N[1], (('fmax', 'x0', '2')), ('fmin', 'x1', 'x0')]
    base = L2
    s3 = ['x1'] if q else ['x1', '2']
    for t in base:
        for u in ('neg', 'sin', 'twice') if q else UN:
            out.append((u, t))
        for s in s3:
            out += [('+', t, s), ('-', s, t), ('*', s, t), ('*', t, s), ('/', t, '2')]
        for n in n3[:2] if q else n3:
            out += [('+', t, n), ('-', n, t), ('-', t, n), ('*', n, t), ('+', n, t)]
    if not q:
        for t in list(out):
            out += [('neg', t), ('+', t, ('sign', 'x0')), ('*', 'x1', t), ('-', ('fmax', 'x0', '2'), t)]
    return out


V1 = [('sign', 'x0'), ('*', 'u', ('sign', 'x0')), ('neg', ('sign', 'x0')), ('+', ('sign', 'x0'), ('sign', 'x0')), ('-', 'x1', ('fmax', 'x0', '2')), ('fmin', 'x0', '2'),
      ('*', ('sign', 'x0'), ('sign', 'x0-u')), ('+', ('sign', 'x0-1'), ('sign', 'x0-1.0000001')), 'x1', '0', '2', ('sin', ('sign', 'x0')), ('+', 'u', ('*', ('fmax', 'x0', '0'), 'x1')),
      ('-', ('sign', 'x0-u'), 'x0*x1'), ('fmax', 'x0', '2'), ('fmax', 'x1', 'x0'), ('neg', ('+', ('sign', 'x0'), 'x1')), ('-', ('-', 'x1', ('sign', 'x0')), ('fmin', 'x0', '2')),
      ('sign', '-x0'), ('+', ('sign', 'x0*1e6'), ('sign', 'x0/3')), ('*', '2', ('fmin', 'x1', 'x0')), ('sq', ('fmax', 'x0', '2')), ('+', ('fmax', 'x0', '2'), ('fmin', 'x0', '2')),
      ('/', ('sign', 'x0'), '2'), ('*', ('neg', ('sign', 'x0')), 'x1'), ('sign', ('sign', 'x0')), ('-', '0', ('fmax', 'x0', '0')), ('*', ('*', 'x1', 'u'), ('sign', 'x0')),
      ('*', 'x1', ('sign', 'k1')), ('*', ('sign', 'k2'), ('sign', 'x0-u')), ('sin', ('+', ('sign', 'k1'), ('sign', 'k2')))]


def vectors(q):
    for d in (2, 3):
        L = V1 if d == 2 else V1[:11] if q else V1[:20]
        yield from itertools.product(L, repeat=d)
    if not q:
        yield from itertools.product(V1[:7], repeat=4)


def has_p(t):
    return t == 'p' or (isinstance(t, str) and t.startswith('p*')) or (not isinstance(t, str) and any(has_p(a) for a in t[1:]))


def regions(S, C):
    """per grid point the region whose sign row matches"""
    S = np.array(ca.DM(S)) if not isinstance(S, np.ndarray) else S
    idx = np.full(C.shape[1], -1)
    for j, row in enumerate(S):
        m = np.all([(r == 0) | (r * c > 0) for r, c in zip(row, C)], axis=0)
        idx[m] = j
    return idx


def model_rhs(m):
    """values of the right-hand side of the model with the multipliers of the active region"""
    K = GRID.shape[1]
    args = [m.x, m.u, P]
    vals = [GRID[:2], GRID[2:3], GRID[3:4]]
    if m.F is not None:
        tot = 0
        if not (len(m.F) == len(m.c) == len(m.S)):
            raise ValueError('F, c and S of different length')
        f = ca.Function('f', args, list(m.c) + [ca.vec(F) for F in m.F])
        o = [np.array(q) for q in f.call([ca.DM(v) for v in vals])] if K == 1 else [np.array(q) for q in f.map(K).call([ca.DM(v) for v in vals])]
        n = len(m.c)
        for c, F, S, Fs in zip(o[:n], o[n:], m.S, m.F):
            idx = regions(S, c)
            nr, nc = Fs.shape
            F = F.reshape(nc, nr, K)
            if np.any(idx < 0):
                F = np.concatenate([F, np.full((1, nr, K), np.nan)])
            tot = tot + F[idx, :, np.arange(K)].T
        return tot
    c = ca.Function('c', args, [ca.vertcat(*m.c)])
    C = np.array(c.map(K)(*[ca.DM(v) for v in vals]))
    al = np.where(C > 0, 1.0, np.where(C < 0, 0.0, np.nan))
    f = ca.Function('f', args + [ca.vertcat(*m.alpha)], [ca.vertcat(*m.f_x)])
    return np.array(f.map(K)(*[ca.DM(v) for v in vals], ca.DM(al)))


def problem(m, pss, n):
    o = nosnoc.NosnocOpts()
    o.terminal_time, o.N_finite_elements, o.n_s = 1.0, 1, 1
    o.pss_mode = nosnoc.PssMode[pss]
    with env.quiet():
        s = nosnoc.NosnocSolver(o, m)
    if len(s.problem.ind_x[0][0][-1] if not isinstance(s.problem.ind_x[0][0][-1], (int, np.integer)) else s.problem.ind_x[0][0]) != n:
        raise ValueError('wrong number of states')


def one(terms, build):
    """message or None, accepted"""
    es = [ev(t) for t in terms]
    n = len(es)
    x = X if n == 2 else ca.vertcat(X, *[ca.SX.sym(f'y{i}') for i in range(n - 2)]) if n > 2 else X[0]
    u = U
    if n == 1:
        # the second state acts as an input
        u = ca.vertcat(U, X[1])
    p = P if any(has_p(t) for t in terms) else None
    x0 = 0.1 + np.arange(n)
    am = nosnoc.NosnocAutoModel(x=x, x0=x0, u=u, f_nonsmooth_ode=ca.vertcat(*[q.e for q in es]), **({'p': p} if p is not None else {}))
    ref = np.array([q.v for q in es])
    ok = np.all([q.ok for q in es], axis=0)
    try:
        m = am.reformulate()
    except Exception:
        return None, False
    if m.x is not x or not np.array_equal(m.x0, x0) or m.u.shape != u.shape:
        return 'state, initial state or controls are not those given', True
    for k in range(2 if build else 1):
        w = _rename(m, n)
        got = model_rhs(w)
        if got.shape != ref.shape:
            return f'right-hand side has shape {got.shape} instead of {ref.shape}', True
        d = np.where(ok, np.abs(got - ref) / (1 + np.abs(ref)), 0.0)
        if not np.all(np.isfinite(d[:, ok])) or d.max() > 1e-9:
            d = np.where(np.isfinite(d), d, 9e9)
            i, j = np.unravel_index(np.argmax(d), d.shape)
            return (f'equation {i} is {got[i, j]:.6g} instead of {ref[i, j]:.6g} at x=({GRID[0, j]},{GRID[1, j]}) u={GRID[2, j]} p={GRID[3, j]}'
                    + (' (second reformulation)' if k else '')), True
        if build and k == 0:
            try:
                m2 = am.reformulate()
            except Exception as e:
                return f'a second reformulation fails: {type(e).__name__}: {e}', True
            for pss in ('STEP', 'STEWART') if m.F is not None else ('STEP',):
                mm = m2 if pss == 'STEP' else am.reformulate()
                if p is not None:
                    mm.p_global_val = np.array([0.7])
                ctrl = ca.depends_on(ca.vertcat(*mm.c), mm.u)   # not supported by nosnoc: must be refused
                try:
                    problem(mm, pss, n)
                except Exception as e:
                    if ctrl:
                        continue
                    return f'no problem can be built in {pss} mode: {type(e).__name__}: {e}', True
    return None, True


class _rename:
    """view of a model whose state argument is the grid's (x0, x1)"""

    def __init__(self, m, n):
        self.x, self.u = X, U
        self.F, self.c, self.S, self.f_x, self.alpha = m.F, m.c, m.S, m.f_x, m.alpha


def task(it):
    terms, b = it
    out, acc, n = [], 0, 0
    for t in terms:
        n += 1
        try:
            msg, ok = one(t, b)
        except Exception as e:
            msg, ok = f'{type(e).__name__}: {e}', True
        acc += ok
        if msg:
            out.append((t, msg))
            if len(out) > 2:
                break
    return out, n, acc


def chunks(L, b, k=100):
    L = list(L)
    for i in range(0, len(L), k):
        yield L[i:i + k], b


def run(ck):
    ck.level = 'exploration'
    q = ck.quick
    sc = [(t,) for t in dict.fromkeys(scalars(q))]
    small = [(t,) for t in dict.fromkeys(nonsmooth(q) + list(level2(nonsmooth(q), ['x1', '2'])) + list(pairs(nonsmooth(q), nonsmooth(q)[:4])))]
    ve = list(vectors(q))
    plan = [('scalar, with problem', chunks(small, True, 30)), ('scalar', chunks([t for t in sc], False)),
            ('vector', chunks(ve, False)), ('vector, with problem', chunks([v for i, v in enumerate(ve) if not q or len(v) == 2 or i % 7 == 0], True, 30))]
    for name, items in plan:
        tot = dict(n=0, acc=0)

        def on(it, r):
            tot['n'] += r[1]
            tot['acc'] += r[2]
            for t, msg in r[0]:
                s = '[' + ', '.join(text(q) for q in t) + ']'
                ck.violation(s, f'{s}: {msg}', dict(kind='c20', terms=t, build=it[1]))
        pmap(ck, task, items, on, chunk=1)
        ck.evals += tot['n']
        ck.nontrivial += tot['acc']
        ck.part(name, expressions=tot['n'], accepted=tot['acc'], refused=tot['n'] - tot['acc'])
        if ck.full():
            return
    ck.sample(dict(expression=[text(q) for q in ve[len(ve) // 2]], grid_points=GRID.shape[1]))
    ck.sample(dict(expression=[text(sc[len(sc) // 2][0])]))
    ck.rules.append('All expressions of the listed grammar (sign, fmax, fmin over smooth atoms; unary and binary smooth contexts; products and nestings of nonsmooth terms) up to '
                    'three (thorough: four) operations around a nonsmooth term, all vectors of two and three (thorough: four) equations over 28 '
                    'representatives.  distinct_nontrivial counts the accepted ones; their right-hand side with the multipliers of the active region is compared with the '
                    'original at 64 points covering all sign combinations of x0, x1, u, p; refusals are allowed.')
    ck.assumptions.append('Smooth sub-expressions are identified by their values on the grid.')


def tup(t):
    return tuple(tup(q) for q in t) if isinstance(t, list) else t


def replay(data):
    msg, _ = one(tuple(tup(t) for t in data['terms']), data['build'])
    return [msg] if msg else []
