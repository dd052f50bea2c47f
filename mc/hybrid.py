"""C22: the FESD NLP against a hybrid automaton.

Part A enumerates runs of hybrid automata (exact event-driven execution of piecewise affine systems), every assignment of their
segments to finite elements, and replays each one on the real NLP without relaxation: it has to be feasible.
Part B enumerates every assignment of modes to Runge-Kutta stages (words), every split of the horizon out of a grid, and compares
the NLP with the automaton: the induced point is feasible exactly when every element stays in one mode of the automaton."""
import itertools
import numpy as np
import casadi as ca
from . import env, tableau
from .driver import pmap
from .models import Model, MODELS, E
from .ref import flat
from .space import MPCC, CROSS, REP, SCHEME, SE
from .trans import build, cfg_of, supported, with_timeout
from .transcheck import short, describe

TOL = 1e-9
BIGM = 1e5      # the disjunctions of the boolean mode are exact for operands up to this size
Z0 = 1e-11


# --- models ---------------------------------------------------------------------------------------
class HRamp(Model):
    """one switching function, rate given by control and stage parameter"""
    n_x, n_u, n_pt = 1, 1, 1
    x0 = [0.3]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]], F=lambda e: [[2.0 * e.u[0] + 2.0 * e.pt[0]], [e.u[0] + e.pt[0]]])]


class HSpiral(Model):
    """four regions, visited in a cycle"""
    n_x = 2
    x0 = [0.3, 0.2]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0], e.x[1]], S=[[1, 1], [-1, 1], [-1, -1], [1, -1]],
                 F=lambda e: [[-1.0 + 0 * e.x[0], 0.5 + 0 * e.x[0]], [-0.5 + 0 * e.x[0], -1.0 + 0 * e.x[0]],
                              [1.0 + 0 * e.x[0], -0.5 + 0 * e.x[0]], [0.5 + 0 * e.x[0], 1.0 + 0 * e.x[0]]])]


class HSlide(Model):
    """attracting surface; the stage parameter decides between sliding and crossing"""
    n_x, n_pt = 2, 1
    x0 = [0.3, 0.0]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]],
                 F=lambda e: [[e.pt[0] - 1.0, 2.0 + 0 * e.x[0]], [e.pt[0] + 1.0, -1.0 + 0 * e.x[0]]])]


class HTwo(Model):
    """two systems with their own switching functions"""
    n_x, n_pt = 2, 2
    x0 = [0.3, 0.2]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0]], S=[[-1], [1]], F=lambda e: [[e.pt[0], 0.0 * e.x[0]], [3.0 * e.pt[0], 0.0 * e.x[0]]]),
            dict(c=lambda e: [e.x[1] - 0.5 * e.x[0]], S=[[1], [-1]], F=lambda e: [[0.0 * e.x[0], e.pt[1] - 1.0], [0.0 * e.x[0], e.pt[1] + 0.25]])]


class HBounce(Model):
    """quadratic flow"""
    n_x = 2
    x0 = [0.3, 0.0]
    deg = 2
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]],
                 F=lambda e: [[e.x[1], -4.0 + 0 * e.x[0]], [e.x[1], 9.0 + 0 * e.x[0]]])]


class HIncl(Model):
    """general inclusion: sliding and crossing"""
    kind = 'inclusion'
    pss = ('STEP',)
    n_x, n_pt = 2, 1
    x0 = [0.3, 0.1]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0]], f=lambda e: [e.pt[0] + 1 - 2 * e.alpha[0][0]]),
            dict(c=lambda e: [e.x[1] - 0.35], f=lambda e: [1.5 * e.alpha[1][0] + 0.5 + 0.5 * e.alpha[0][0]])]


class HCare(Model):
    """don't-care entries"""
    pss = ('STEP',)
    n_x = 2
    x0 = [0.3, 0.2]
    deg = 1
    subs = [dict(c=lambda e: [e.x[0], e.x[1]], S=[[1, 0], [-1, 1], [-1, -1]],
                 F=lambda e: [[-1.0 + 0 * e.x[0], 0.25 + 0 * e.x[0]], [-0.5 + 0 * e.x[0], -1.0 + 0 * e.x[0]], [1.0 + 0 * e.x[0], -0.5 + 0 * e.x[0]]])]


class HG(Model):
    """three regions given by Stewart functions (Voronoi cells), constant fields with crossings and a sliding mode"""
    kind = 'stewart'
    pss = ('STEWART',)
    n_x = 2
    x0 = [0.3, 0.2]
    deg = 1
    subs = [dict(g=lambda e: [-e.x[0], -e.x[1], e.x[0] + e.x[1]],
                 F=lambda e: [[-1.0 + 0 * e.x[0], 0.7 + 0 * e.x[0]], [-0.6 + 0 * e.x[0], -0.9 + 0 * e.x[0]], [1.1 + 0 * e.x[0], 0.2 + 0 * e.x[0]]])]


class HG2(Model):
    """two systems given by Stewart functions"""
    kind = 'stewart'
    pss = ('STEWART',)
    n_x, n_pt = 2, 1
    x0 = [0.3, 0.2]
    deg = 1
    subs = [dict(g=lambda e: [e.x[0], 0.0 * e.x[0]], F=lambda e: [[e.pt[0] + 1.0, 0 * e.x[0]], [e.pt[0] - 1.0, 0 * e.x[0]]]),
            dict(g=lambda e: [e.x[1], -e.x[1]], F=lambda e: [[0 * e.x[0], 1.0 + 0 * e.x[0]], [0.0 * e.x[0], 2.0 + 0 * e.x[0]]])]


class HBig(HSlide):
    """HSlide with a switching function of several thousands"""
    subs = [dict(HSlide.subs[0], c=lambda e: [4096.0 * e.x[0]])]


class HGBig(HG):
    subs = [dict(HG.subs[0], g=lambda e: [4096.0 * v for v in HG.subs[0]['g'](e)])]


HM = {k.__name__: k() for k in (HRamp, HSpiral, HSlide, HTwo, HBounce, HIncl, HCare, HG, HG2, HBig, HGBig)}
MODELS.update(HM)


class Ambiguous(Exception):
    """the automaton is nondeterministic or degenerate here; the run is not part of the space"""


# --- automaton ------------------------------------------------------------------------------------
class Auto:
    """Modes are tuples with one entry per switch.  c-based models: switches are the switching functions, entries +1, -1.
    g-based models: switches are the systems, entries region numbers.  A sliding mode additionally has (switch, other entry, fraction)."""

    def __init__(self, m):
        self.m = m
        self.g = m.kind == 'stewart'
        self.n = m.n_f() if self.g else m.n_c()

    def env(self, x, u, pt):
        return E(x=list(x), u=list(u), z=[], pt=list(pt), pg=[], v=[])

    def values(self, x, inp):
        """per switch: switching function (c-based) or vector of indicator functions (g-based)"""
        e = self.env(x, *inp)
        if self.g:
            return [np.array([float(t) for t in s['g'](e)]) for s in self.m.subs]
        return [float(t) for s in self.m.subs for t in s['c'](e)]

    def guards(self, mode, x, inp):
        """{(switch, neighbour): value >= 0 inside the mode}"""
        v = self.values(x, inp)
        if self.g:
            return {(s, r): v[s][r] - v[s][mode[s]] for s in range(len(v)) for r in range(len(v[s])) if r != mode[s]}
        return {(r, -mode[r]): mode[r] * v[r] for r in range(len(v))}

    def mult(self, mode, slide):
        """theta lists per system (g-based) or alpha lists per system"""
        if self.g:
            out = []
            for s, n in enumerate(self.n):
                t = [0.0] * n
                t[mode[s]] = 1.0
                if slide and slide[0] == s:
                    t[mode[s]] = 1.0 - slide[2]
                    t[slide[1]] = slide[2]
                out.append(t)
            return out
        a = [1.0 if q > 0 else 0.0 for q in mode]
        if slide:
            a[slide[0]] = 1.0 - slide[2] if mode[slide[0]] > 0 else slide[2]
        out, o = [], 0
        for n in self.n:
            out.append(a[o:o + n])
            o += n
        return out

    def field(self, mode, slide, x, inp, sot=1.0):
        f = self.m.rhs(self.env(x, *inp), self.mult(mode, slide), 'STEWART' if self.g else 'STEP')
        return sot * np.array([float(t) for t in f])

    def flow(self, mode, slide, x, inp, sot):
        """velocity and acceleration; the flow is x + v t + a t^2 / 2"""
        v = self.field(mode, slide, x, inp, sot)
        a = self.field(mode, slide, x + v, inp, sot) - v
        return v, a

    def swap(self, mode, key):
        q = list(mode)
        q[key[0]] = key[1]
        return tuple(q)

    def drift(self, mode, x, inp, sot, key):
        """sign of the first nonzero time derivative of guard `key` of the mode `ref` along the field of `mode`"""
        ref, k = key
        v, a = self.flow(mode, None, x, inp, sot)
        g = lambda t: self.guards(ref, x + v * t + a * t * t / 2, inp)[k]
        g0, g1, g2 = g(0.0), g(1.0), g(2.0)
        d2 = (g2 - 2 * g1 + g0)
        d1 = g1 - g0 - d2 / 2
        if abs(d1) > 1e-9:
            return np.sign(d1), d1
        if abs(d2) > 1e-9:
            return np.sign(d2), d1
        raise Ambiguous('tangential')

    def enter(self, x, inp, sot):
        """mode and sliding data at a point, for the given inputs"""
        v = self.values(x, inp)
        if self.g:
            mode, ties = [], []
            for s, q in enumerate(v):
                m = int(np.argmin(q))
                mode.append(m)
                ties += [(s, r) for r in range(len(q)) if r != m and q[r] - q[m] < 1e-10]
        else:
            mode = [1 if q >= 0 else -1 for q in v]
            ties = [(r, -mode[r]) for r, q in enumerate(v) if abs(q) < 1e-10]
        mode = tuple(mode)
        if not ties:
            return mode, None
        if len(ties) > 1:
            raise Ambiguous('corner')
        k, = ties
        other = self.swap(mode, k)
        d0, s0 = self.drift(mode, x, inp, sot, (mode, k))
        d1, s1 = self.drift(other, x, inp, sot, (mode, k))
        if d0 > 0 and d1 > 0:
            return mode, None
        if d0 < 0 and d1 < 0:
            return other, None
        if d0 > 0 > d1:
            raise Ambiguous('repelling')
        if self.m.deg > 1 or abs(s0) < 1e-9 or abs(s1) < 1e-9:
            raise Ambiguous('sliding with an accelerated flow')
        return mode, (k[0], k[1], s0 / (s0 - s1))

    def run(self, x, stages):
        """stages: list of (inputs, sot, duration).  Per stage the list of segments (mode, slide, x, v, a, duration)."""
        x = np.array(x, dtype=float)
        out = []
        for inp, sot, T in stages:
            segs, left = [], T
            while left > 1e-12:
                mode, slide = self.enter(x, inp, sot)
                v, a = self.flow(mode, slide, x, inp, sot)
                t, fin = left, True
                for k in self.guards(mode, x, inp):
                    if slide and k == slide[:2]:
                        continue
                    g = lambda s: self.guards(mode, x + v * s + a * s * s / 2, inp)[k]
                    te = first_exit(g(0.0), g(1.0), g(2.0))
                    if te is not None and te < t:
                        t, fin = te, False
                if not fin and left - t < 1e-7:
                    if left - t > 1e-12:
                        raise Ambiguous('event close to a stage boundary')
                    t, fin = left, True
                if t < 1e-7:
                    raise Ambiguous('short segment')
                if len(segs) > 12:
                    raise Ambiguous('too many events')
                segs.append((mode, slide, x, v, a, t))
                x = x + v * t + a * t * t / 2
                left = 0.0 if fin else left - t
            out.append(segs)
        return out


def first_exit(g0, g1, g2):
    """smallest t > 0 after which the quadratic through (0,g0), (1,g1), (2,g2) is negative"""
    m = max(1.0, abs(g0), abs(g1), abs(g2))
    g0, g1, g2 = g0 / m, g1 / m, g2 / m
    c2 = (g2 - 2 * g1 + g0) / 2
    c1 = g1 - g0 - c2
    if abs(c2) < 1e-12:
        if c1 >= -1e-12:
            return None
        t = -g0 / c1
        return t if t > 1e-9 else None
    disc = c1 * c1 - 4 * c2 * g0
    if disc < 1e-12:
        if c2 > 0:
            return None
        if disc < 0:
            return None
    q = np.sqrt(max(disc, 0.0))
    for t in sorted([(-c1 - q) / (2 * c2), (-c1 + q) / (2 * c2)]):
        if t > 1e-9 and c1 + 2 * c2 * t < 0:
            return t
    return None


# --- the NLP --------------------------------------------------------------------------------------
class Nlp:
    """a built problem, ready to have exact points plugged in"""

    def __init__(self, c):
        self.c = c
        self.b = build(c)
        pr = self.pr = self.b.prob
        self.m = self.b.mspec
        self.step = c['pss'] == 'STEP'
        self.fun = self.b.fake.fg()
        with env.quiet():
            self.b.solver.solve()
        call = self.b.fake.calls[-1]
        self.lbg, self.ubg, self.lbw, self.ubw = call['lbg'], call['ubg'], call['lbx'], call['ubx']
        self.nw = len(self.lbw)
        self.npt = self.m.n_pt + self.m.n_pg
        self.A, self.bb, self.cc = (np.array(t, dtype=float) for t in tableau.rk(c['scheme'], c['n_s']))
        self.bools = flat(pr.ind_bool)
        if self.bools:
            J = ca.jacobian(self.b.fake.nlp['g'], self.b.fake.nlp['x']).sparsity()
            rows, cols = J.get_triplet()
            bs = set(self.bools)
            self.rows_of = {}
            for r, q in zip(rows, cols):
                if q in bs:
                    self.rows_of.setdefault(q, []).append(r)
            self.boolrows = sorted({r for v in self.rows_of.values() for r in v})

    def lam(self, vals):
        """canonical switching multipliers per system from the switch values: lists to be put into (lam, mu) or (lambda_n, lambda_p)"""
        if self.m.kind == 'stewart':
            return [(v - min(v), [-min(v)]) for v in vals]
        out, o = [], 0
        for s, sub in enumerate(self.m.subs):
            n = len(sub['S'][0]) if 'S' in sub else self.m.n_c()[s]
            cv = np.array(vals[o:o + n])
            o += n
            if self.step:
                out.append((np.maximum(-cv, 0), np.maximum(cv, 0)))
            else:
                g = -np.array(sub['S'], dtype=float) @ cv
                out.append((g - min(g), [-min(g)]))
        return out

    def theta(self, mult):
        """multipliers per system from theta (g-based) or alpha lists"""
        if self.m.kind == 'stewart' or self.step:
            return mult
        return [[np.prod([a if q > 0 else 1 - a for q, a in zip(row, al)]) for row in sub['S']] for sub, al in zip(self.m.subs, mult)]

    def parameters(self, x0, stages, lam0):
        p = []
        for inp, sot, T in stages:
            p += list(inp[1])
        l = [q for s in lam0 for q in s[0]]
        if self.step:
            l += [q for s in lam0 for q in s[1]]
        return np.array(p + [0.0, 0.0] + l + list(x0), dtype=float)

    def blank(self, stages):
        """w with everything set that does not belong to an element"""
        w = np.zeros(self.nw)
        pr = self.pr
        for k, (inp, sot, T) in enumerate(stages):
            w[pr.ind_u[k]] = inp[0]
            if self.c['sot'] == 'LOCAL':
                w[flat(pr.ind_sot)[k]] = sot
            elif self.c['sot'] == 'GLOBAL':
                w[flat(pr.ind_sot)[0]] = sot
        return w

    def put_lam(self, w, k, i, j, lam):
        pr = self.pr
        for s, (a, b) in enumerate(lam):
            if self.step:
                w[pr.ind_lambda_n[k][i][j][s]] = a
                w[pr.ind_lambda_p[k][i][j][s]] = b
            else:
                w[pr.ind_lam[k][i][j][s]] = a
                w[pr.ind_mu[k][i][j][s]] = b

    def n_lam(self, k, i):
        pr = self.pr
        return len(pr.ind_lambda_n[k][i] if self.step else pr.ind_lam[k][i])

    def put(self, w, k, i, h, X, V, xe, mults, lams):
        """one element; lams: multipliers at the stages and at the end point"""
        pr, n_s = self.pr, self.c['n_s']
        if self.c['fesd']:
            w[pr.ind_h[sum(self.c['Nfe'][:k]) + i]] = h
        if self.c['rep'] != 'DIFFERENTIAL':
            for j in range(n_s):
                w[pr.ind_x[k][i][j]] = X[j]
        w[pr.ind_x[k][i][-1]] = xe
        if self.c['rep'] != 'INTEGRAL':
            for j in range(n_s):
                w[pr.ind_v[k][i][j]] = V[j]
        ind = pr.ind_alpha if self.step else pr.ind_theta
        for j in range(n_s):
            for s, t in enumerate(self.theta(mults[j])):
                w[ind[k][i][j][s]] = t
        for j in range(self.n_lam(k, i)):
            self.put_lam(w, k, i, j, lams[j])

    def defect(self, w, p):
        """largest violation of a constraint or bound (relative to nothing), and where"""
        if self.bools:
            w = w.copy()
            w[self.bools] = 0.0
            g = self.fun(w, p)[1].full().flatten()
            w[self.bools] = 1.0
            g1 = self.fun(w, p)[1].full().flatten()
            viol0, viol1 = self.viol(g), self.viol(g1)
            # operands of the disjunctions: what remains of a row when its big M vanishes
            r = self.boolrows
            self.beyond = np.where(g1[r] > g[r], np.abs(g[r]), np.abs(g1[r])).max() > BIGM
            for q in self.bools:
                r = self.rows_of[q]
                w[q] = 0.0 if viol0[r].max() <= viol1[r].max() else 1.0
        g = self.fun(w, p)[1].full().flatten()
        v = self.viol(g)
        vb = np.maximum(self.lbw - w, w - self.ubw)
        if vb.max() > (v.max() if len(v) else 0):
            return float(vb.max()), f'bound of w[{int(vb.argmax())}]'
        q = int(v.argmax())
        return float(v.max()), f'constraint {q}'

    def viol(self, g):
        return np.where(np.isfinite(g), np.maximum(self.lbg - g, g - self.ubg), np.inf)


def text(nlp, where):
    if where.startswith('constraint'):
        return f'{where}: {str(nlp.b.fake.nlp["g"][int(where.split()[1])])[:160]}'
    q = int(where.split('[')[1][:-1])
    return f'{where} = {nlp.b.fake.nlp["x"][q]}'


# --- part A: runs ---------------------------------------------------------------------------------
def x_grid(name, q):
    if name == 'HRamp':
        return [[v] for v in ([-0.75, -0.5, -0.25, -0.1, 0.0, 0.1, 0.5, 1.0] if q else np.linspace(-2, 2, 17))]
    if name in ('HSlide', 'HIncl', 'HBig'):
        return [[a, b] for a in ([-0.5, -0.2, 0.0, 0.25, 0.5] if q else [-0.75, -0.5, -0.2, 0.0, 0.125, 0.25, 0.5, 0.9]) for b in ([0.1] if q else [-0.4, 0.1])]
    if name == 'HBounce':
        return [[a, b] for a in ([-0.3, 0.2, 0.0, 0.5] if q else [-0.5, -0.3, -0.1, 0.0, 0.1, 0.2, 0.5]) for b in ([-0.6, 0.35] if q else [-1.1, -0.6, 0.0, 0.35, 1.3])]
    v = [-0.31, 0.23, 0.5] if q else [-0.9, -0.5, -0.31, -0.12, 0.0, 0.23, 0.4, 0.5]
    return [[a, b] for a in v for b in [t * 1.07 for t in v]]


def inputs(name, q):
    """alphabet of one control stage: (u, pt)"""
    if name == 'HRamp':
        A = [(1.0, 0.0), (-1.5, 0.5), (0.25, 0.25)]
        return [([u], [t]) for u, t in (A if q else A + [(0.5, -2.0), (0.0, 0.75)])]
    if name in ('HSlide', 'HIncl', 'HBig'):
        return [([], [t]) for t in ([-0.5, 1.5] if q else [-0.5, 0.25, 1.5, -1.75])]
    if name == 'HTwo':
        return [([], t) for t in ([[0.5, 0.3], [-1.0, 0.3]] if q else [[0.5, 0.3], [-1.0, 0.3], [0.75, 2.0], [0.25, -0.8]])]
    if name == 'HG2':
        return [([], [t]) for t in ([-0.5, 1.5] if q else [-0.5, 0.25, 1.5, -1.75])]
    return [([], [])]


def durations(N, T, equi):
    if equi or N == 1:
        return [[T / N] * N]
    return [[T * s for s in w] for w in ([(0.5, 0.5), (0.625, 0.375)] if N == 2 else [(0.25, 0.375, 0.375), (0.4, 0.2, 0.4)])]


def sots(mode, N):
    if mode == 'NONE':
        return [[1.0] * N]
    if mode == 'GLOBAL':
        return [[0.75] * N, [1.5] * N]
    return [[0.75, 1.5, 1.0, 2.0][:N], [1.5] * N]


_runs = {}


def runs(c, q):
    """all runs of the automaton for the inputs of a configuration: (x0, stages, segments)"""
    name, N, T, equi, sot = c['model'], c['N'], c['T'], c['equi'] or not c['fesd'], c['sot']
    key = (name, N, T, equi, sot, q)
    if key not in _runs:
        au, out, bad = Auto(HM[name]), [], 0
        for x0 in x_grid(name, q):
            for word in itertools.product(inputs(name, q), repeat=N):
                for d in durations(N, T, equi):
                    for ss in sots(sot, N):
                        st = [(inp, s, t) for inp, s, t in zip(word, ss, d)]
                        try:
                            out.append((x0, st, au.run(x0, st)))
                        except Ambiguous:
                            bad += 1
        _runs[key] = (out, bad)
    return _runs[key]


def compositions(n, parts):
    """all ways to give n elements to `parts` segments, at least one each"""
    for cut in itertools.combinations(range(1, n), parts - 1):
        e = (0,) + cut + (n,)
        yield [b - a for a, b in zip(e, e[1:])]


def splits(k, dur, uneven):
    w = np.ones(k)
    if uneven and k > 1:
        w = 1.0 + np.arange(k)
    return dur * w / w.sum()


def allocations(c, segs, uneven):
    """per stage lists of (segment, offset, h)"""
    per = []
    for k, S in enumerate(segs):
        n = c['Nfe'][k]
        if len(S) > n:
            return
        opts = []
        for comp in compositions(n, len(S)):
            el = []
            for s, cnt in zip(S, comp):
                t = 0.0
                for h in splits(cnt, s[5], uneven):
                    el.append((s, t, h))
                    t += h
            hk = c['T'] / c['N'] / n
            if not c['fesd']:
                if max(abs(e[2] - hk) for e in el) > 1e-12:
                    continue
            elif max(e[2] for e in el) > (1 + c['gamma']) * hk + 1e-12 or min(e[2] for e in el) < (1 - c['gamma']) * hk - 1e-12:
                continue
            opts.append(el)
        per.append(opts)
    yield from itertools.product(*per)


def switch_words(au, x0, st, segs):
    return [[s[0] + ((s[1][0], s[1][1], round(s[1][2], 3)) if s[1] else ()) for s in S] for S in segs]


def replay_run(nlp, au, x0, st, alloc):
    c = nlp.c
    w = nlp.blank(st)
    p = nlp.parameters(x0, st, nlp.lam(au.values(x0, st[0][0])))
    for k, el in enumerate(alloc):
        inp = st[k][0]
        for i, ((mode, slide, xs, v, a, dur), t0, h) in enumerate(el):
            at = lambda t: xs + v * t + a * t * t / 2
            ts = t0 + nlp.cc * h
            X = [at(t) for t in ts]
            V = [v + a * t for t in ts]
            xe = at(t0 + h)
            mult = au.mult(mode, slide)
            lams = [nlp.lam(au.values(x, inp)) for x in X + [xe]]
            nlp.put(w, k, i, h, X, V, xe, [mult] * len(X), lams)
    return nlp.defect(w, p)


def hard(c):
    return c['se'] in ('DIRECT', 'DIRECT_COMPLEMENTARITY')


def task_a(item):
    c, q = item
    try:
        nlp = Nlp(c)
    except Exception as e:
        return dict(msg=[('build', f'{type(e).__name__}: {e}', None)], runs=0, alloc=0, seg=0, amb=0, switches=0, words=0, big=0)
    au = Auto(HM[c['model']])
    R, bad = runs(c, q)
    msg, na, nr, ns, sw, words, big = [], 0, 0, 0, 0, set(), 0
    for x0, st, segs in R:
        used = False
        for uneven in ([False] if hard(c) else [False, True]):
            for al in allocations(c, segs, uneven):
                used = True
                na += 1
                d, where = replay_run(nlp, au, x0, st, al)
                if not d < TOL and nlp.bools and nlp.beyond:
                    big += 1
                elif not d < TOL:
                    if not msg:
                        msg.append(('infeasible', f'run from {x0} with inputs {[s[0] for s in st]}, modes {switch_words(au, x0, st, segs)}, steps '
                                    f'{[[round(float(e[2]), 5) for e in el] for el in al]} violates {text(nlp, where)} by {d:.3g}',
                                    dict(x0=list(x0), stages=st)))
        nr += used
        if used:
            n = sum(len(S) for S in segs)
            ns += n
            sw += n > len(segs)
            words.add(str(switch_words(au, x0, st, segs)))
    return dict(msg=msg, runs=nr, alloc=na, seg=ns, amb=bad, switches=sw, words=len(words), big=big)


def space_a(q):
    seen = set()
    n = {1: [1, 2, 3], 2: [2, 3]}

    def emit(part, **axes):
        keys = list(axes)
        for vals in itertools.product(*axes.values()):
            kw = dict(zip(keys, vals))
            name, pss = kw.pop('mp')
            kw['model'], kw['pss'] = name, pss
            kw['N'], kw['Nfe'] = kw.pop('lay')
            kw.setdefault('gamma', 1.0)
            kw.update(T=1.5, el=(0.8, 9.0, 0.0))
            if kw.get('n_s', 2) < HM[name].deg:
                continue
            c = cfg_of(**kw)
            if supported(c) is not None:
                continue
            k = str(sorted(c.items()))
            if k not in seen:
                seen.add(k)
                yield part, c
    mps = [(k, s) for k in HM for s in HM[k].pss if not q or k not in ('HBig', 'HGBig')]
    yield from emit('discretisation', mp=mps, scheme=SCHEME, n_s=[1, 2, 3] if q else [1, 2, 3, 4], rep=REP, cross=CROSS,
                    lay=[(1, (3,)), (2, (2, 2))] if q else [(1, (2,)), (1, (4,)), (2, (2, 2)), (2, (1, 3)), (3, (2, 1, 2))])
    yield from emit('complementarity modes', mp=mps if not q else [('HRamp', 'STEWART'), ('HRamp', 'STEP'), ('HSpiral', 'STEWART'), ('HSlide', 'STEP'), ('HTwo', 'STEWART'), ('HIncl', 'STEP')],
                    scheme=SCHEME, mpcc=MPCC, cross=CROSS, lay=[(2, (2, 2))] if q else [(1, (3,)), (2, (2, 2)), (3, (1, 2, 1))])
    yield from emit('step equilibration', mp=[('HRamp', 'STEWART'), ('HSlide', 'STEP')] if q else mps, scheme=SCHEME, mpcc=MPCC, cross=CROSS[:1] if q else CROSS, se=SE,
                    lay=[(1, (3,))] if q else [(1, (3,)), (2, (3, 2))])
    yield from emit('grids', mp=[('HRamp', 'STEWART'), ('HRamp', 'STEP'), ('HSpiral', 'STEP'), ('HG', 'STEWART')], scheme=SCHEME, rep=REP,
                    equi=[True, False], sot=['NONE', 'LOCAL', 'GLOBAL'], lay=[(2, (2, 2)), (3, (1, 1, 2))] if q else [(1, (3,)), (2, (2, 2)), (3, (1, 1, 2)), (3, (2, 3, 2))])
    yield from emit('switch at a control stage boundary', mp=[('HRamp', 'STEWART'), ('HRamp', 'STEP'), ('HSlide', 'STEWART')], scheme=SCHEME, rep=REP, n_s=[1, 2],
                    mpcc=MPCC, cross=CROSS, lay=[(2, (1, 1))] if q else [(2, (1, 1)), (3, (1, 1, 1)), (2, (1, 2))])
    yield from emit('large switching functions', mp=[('HBig', 'STEWART'), ('HBig', 'STEP'), ('HGBig', 'STEWART')], scheme=SCHEME, rep=REP[:2] if q else REP, n_s=[2] if q else [1, 2, 3],
                    mpcc=MPCC[:2] if q else MPCC, lay=[(1, (3,)), (2, (2, 2))])
    yield from emit('fixed grid', mp=mps, scheme=SCHEME, fesd=[False], mpcc=MPCC[:3] if q else MPCC, lay=[(2, (2, 2)), (3, (2, 2, 2))])


# --- part B: words --------------------------------------------------------------------------------
def words_modes(name):
    """alphabet of a Runge-Kutta stage: (mode, slide)"""
    au = Auto(HM[name])
    if au.g:
        M = [(m, None) for m in itertools.product(*[range(n) for n in au.n])]
        if name == 'HG':
            M.append(((0, ), (0, 1, 0.5)))
        return M
    M = [(m, None) for m in itertools.product((1, -1), repeat=sum(au.n))]
    if sum(au.n) == 1:
        M.append(((1,), (0, -1, 0.5)))
    return M


def inside(au, mode, slide, vals):
    """True, False or None (too close to call): the mode is one of the modes of the automaton at a point with these switch values"""
    out = True
    if au.g:
        for s, v in enumerate(vals):
            act = [mode[s]] + ([slide[1]] if slide and slide[0] == s else [])
            for r in act:
                d = v[r] - min(v)
                if d > Z0:
                    if d < 1e-5:
                        return None
                    out = False
        return out
    for r, v in enumerate(vals):
        if slide and slide[0] == r:
            d = abs(v)
        else:
            d = -mode[r] * v
        if d > Z0:
            if d < 1e-5:
                return None
            out = False
    return out


def word_point(nlp, au, x0, st, hs, word):
    """(w, p, verdict of the automaton, per element data) of a word: modes of all stages of all elements"""
    c, n_s = nlp.c, nlp.c['n_s']
    w = nlp.blank(st)
    p = nlp.parameters(x0, st, nlp.lam(au.values(x0, st[0][0])))
    xp, verdict, q = np.array(x0, dtype=float), True, 0
    prev = au.values(x0, st[0][0])
    elems = []
    tot = sum(c['Nfe'])
    n = 0
    for k in range(c['N']):
        inp, sot, _ = st[k]
        for i in range(c['Nfe'][k]):
            h = hs[n]
            modes = word[n * n_s:(n + 1) * n_s]
            V = [au.field(md, sl, xp, inp, sot) for md, sl in modes]
            X = [xp + h * sum(nlp.A[j, r] * V[r] for r in range(n_s)) for j in range(n_s)]
            xe = xp + h * sum(nlp.bb[r] * V[r] for r in range(n_s))
            vals = [au.values(x, inp) for x in X]
            ve = au.values(xe, inp)
            nlp.put(w, k, i, h, X, V, xe, [au.mult(*md) for md in modes], [nlp.lam(v) for v in vals] + [nlp.lam(ve)])
            last = n == tot - 1
            pts = [prev] + vals + ([] if c['scheme'] == 'RADAU_IIA' or last else [ve])
            for md in dict.fromkeys(modes):
                for v in pts:
                    t = inside(au, md[0], md[1], v)
                    if t is None:
                        return None
                    verdict = verdict and t
            elems.append((k, i, modes, prev, vals, ve, pts))
            prev = ve if c['scheme'] == 'RADAU_IIA' or not last else None
            xp = xe
            n += 1
    return w, p, verdict, elems


def fb(x, y):
    return x + y - np.hypot(x, y)


def adversary(nlp, au, w, elems):
    """Other multipliers of the same word: wherever the bounds allow negative multipliers of active regions, choose them so that the
    Fischer-Burmeister terms of an element cancel.  Returns modified w's."""
    c = nlp.c
    if not c['mpcc'].startswith('FISCHER'):
        return
    n_s = c['n_s']
    for k, i, modes, prev, vals, ve, pts in elems:
        if len(set(modes)) != 1 or modes[0][1]:
            continue
        mode = modes[0][0]
        for s in range(len(nlp.m.subs)):
            for neg in range(n_s - 1):
                if nlp.step:
                    continue
                th = nlp.theta(au.mult(mode, None))[s]
                r = int(np.argmax(th))
                lam = [np.array(nlp.lam(v)[s][0]) for v in [prev] + vals]
                gap = [l[r] for l in lam]
                oth = [min(np.delete(l, r)) for l in lam]
                if gap[neg + 1] > 0 or oth[neg + 1] <= 1e-6 or max(gap) <= 1e-6:
                    continue
                tot = sum(fb(g, 1.0) for t, g in enumerate(gap) if t != neg + 1)
                lo = -oth[neg + 1]
                if tot + fb(lo, 1.0) > 0:
                    continue
                a, b = lo, 0.0
                for _ in range(200):
                    mid = (a + b) / 2
                    if tot + fb(mid, 1.0) > 0:
                        b = mid
                    else:
                        a = mid
                w2 = w.copy()
                ind = nlp.pr.ind_lam[k][i][neg][s]
                w2[ind] = w2[ind] + a
                w2[nlp.pr.ind_mu[k][i][neg][s]] = w2[nlp.pr.ind_mu[k][i][neg][s]] + a
                yield w2


def h_grid(c, q):
    """step sizes of all elements: multiples of T/8 (two elements) or T/6 (three) that sum up to the stage durations"""
    out = []
    for k in range(c['N']):
        n, Tk = c['Nfe'][k], c['T'] / c['N']
        m = {1: 1, 2: 4 if q else 8, 3: 4 if q else 6}[n]
        out.append([[Tk * a / m for a in comp] for comp in compositions(m, n)])
    for sel in itertools.product(*out):
        yield [h for part in sel for h in part]


def x_words(name):
    T = 1.5
    if HM[name].n_x == 1:
        return [[v] for v in (-0.375, -0.75, 0.0, 0.3, 0.75)]
    return {'HSpiral': [[0.375, 0.2], [-0.1, 0.75], [0.05, -0.3]], 'HSlide': [[0.0, 0.0], [0.5625, 0.1], [-0.5625, 0.2]],
            'HTwo': [[0.375, 0.7], [-0.375, 0.3]], 'HCare': [[0.375, 0.2], [0.1, -0.3]], 'HIncl': [[0.0, 0.1], [0.5625, 0.8]],
            'HG': [[0.375, 0.2], [0.3, 0.3], [-0.3, 0.2]], 'HG2': [[0.0, -0.75], [0.3, 0.4]]}[name]


def task_b(item):
    c, x0, word_inp, q = item
    res = dict(msg=[], words=0, feasible=0, runs=0, adv=0, close=0, two=0)
    try:
        nlp = Nlp(c)
    except Exception as e:
        res['msg'].append(('build', f'{type(e).__name__}: {e}', None))
        return res
    au = Auto(HM[c['model']])
    st = [(inp, 1.0, c['T'] / c['N']) for inp in word_inp]
    M = words_modes(c['model'])
    L = c['n_s'] * sum(c['Nfe'])
    for hs in h_grid(c, q):
        for word in itertools.product(M, repeat=L):
            pt = word_point(nlp, au, x0, st, hs, word)
            if pt is None:
                res['close'] += 1
                continue
            w, p, want, elems = pt
            res['words'] += 1
            d, where = nlp.defect(w, p)
            ok = d < 1e-8
            desc = f'x0={list(x0)}, inputs {[s[0] for s in st]}, steps {[round(h, 4) for h in hs]}, modes of the Runge-Kutta stages {[m[0] + (("sliding",) if m[1] else ()) for m in word]}'
            two = any(len(set(e[2])) > 1 for e in elems)
            if want:
                res['feasible'] += 1
                res['two'] += two
            if ok != want:
                res['msg'].append(('spurious' if ok else 'infeasible', (f'{desc}: feasible although it is not a run of the automaton' if ok else
                                   f'{desc}: a run of the automaton, but violates {text(nlp, where)} by {d:.3g}'), None))
                if len(res['msg']) > 2:
                    return res
            elif not want:
                for w2 in adversary(nlp, au, w, elems):
                    res['adv'] += 1
                    d, where = nlp.defect(w2, p)
                    if d < 1e-8:
                        res['msg'].append(('spurious', f'{desc}: feasible with multipliers of different signs although it is not a run of the automaton', None))
                        return res
    return res


def space_b(q):
    seen = set()

    def emit(models, lays, **axes):
        for name in models:
            for pss in HM[name].pss:
                for lay in lays:
                    for vals in itertools.product(*axes.values()):
                        kw = dict(zip(axes, vals))
                        c = cfg_of(model=name, pss=pss, N=lay[0], Nfe=lay[1], se='HEURISTIC_MEAN', gamma=1.0, T=1.5, el=(0.8, 9.0, 0.0), **kw)
                        if supported(c) is not None:
                            continue
                        k = str(sorted(c.items()))
                        if k in seen:
                            continue
                        seen.add(k)
                        for x0 in x_words(name):
                            for wi in itertools.product(inputs(name, True)[:2], repeat=lay[0]):
                                yield c, x0, wi, q
    two = ['HRamp', 'HSlide']
    rest = ['HSpiral', 'HTwo', 'HCare', 'HIncl', 'HG', 'HG2']
    yield from emit(two, [(1, (2,)), (2, (1, 1))], scheme=SCHEME, n_s=[2], cross=CROSS, mpcc=MPCC)
    yield from emit(two, [(1, (2,))], scheme=SCHEME, n_s=[1, 2], cross=CROSS, rep=REP)
    yield from emit(two, [(1, (3,)), (2, (1, 2))], scheme=SCHEME, n_s=[1], cross=CROSS, mpcc=MPCC)
    yield from emit(rest, [(1, (2,)), (2, (1, 1))], scheme=SCHEME, n_s=[1], cross=CROSS, mpcc=MPCC if not q else MPCC[:2] + ['FISCHER_BURMEISTER', 'ELASTIC_TWO_SIDED'])
    yield from emit(rest, [(1, (1,))], scheme=SCHEME, n_s=[2], cross=CROSS, rep=REP)
    if not q:
        yield from emit(two, [(1, (2,))], scheme=SCHEME, n_s=[3], cross=CROSS)
        yield from emit(rest, [(1, (2,))], scheme=SCHEME, n_s=[2], cross=CROSS)


def guarded(fn):
    def f(it):
        try:
            return with_timeout(240.0, fn, it)
        except Exception as e:
            return dict(msg=[('error', f'{type(e).__name__}: {e}', None)])
    return f


_ta, _tb = guarded(task_a), guarded(task_b)


def _task(it):
    return _ta(it[2:]) if it[0] == 'A' else _tb(it[2:])


def run(ck):
    ck.level = 'model_checking'
    q = ck.quick
    items = [('A', part, c, q) for part, c in space_a(q)] + [('B', 'words') + t for t in space_b(q)]
    cnt = {}

    def on(it, res):
        d = cnt.setdefault(it[1], {})
        d['problems'] = d.get('problems', 0) + 1
        for k, v in res.items():
            if k != 'msg':
                d[k] = d.get(k, 0) + v
        c = it[2]
        for kind, m, data in res['msg'][:1]:
            key = f'{kind}:{c["se"]}:{c["mpcc"]}' if c['se'] == 'HEURISTIC_DELTA_H_COMP' else f'{kind}:{it[1]}:{c["model"]}:{c["scheme"]}:{c["mpcc"]}:{c["cross"]}'
            ck.violation(key, f'[{describe(c)}] {m}', dict(kind='c22', item=list(it)))
        if res.get('alloc') or res.get('feasible'):
            ck.sample(dict(part=it[1], cfg=short(c), **{k: v for k, v in res.items() if k != 'msg'}))
        ck.states += res.get('seg', 0) + res.get('words', 0)
        ck.transitions += res.get('alloc', 0) + res.get('words', 0)
        ck.traces += res.get('alloc', 0) + res.get('words', 0)

    pmap(ck, _task, items, on, chunk=2)
    for k, d in cnt.items():
        ck.part(k, **d)
    ck.rules.append('Runs: every initial state of a grid x every input word of the control stages is executed by an exact event-driven automaton (crossing and sliding modes, '
                    'constant and quadratic flows); every assignment of the segments to finite elements within the step bounds is plugged into the unrelaxed NLP of every listed '
                    'configuration and has to be feasible (1e-9).  Words: every assignment of modes to all Runge-Kutta stages x every split of the horizon on a grid; the induced point '
                    'has to be feasible exactly when the automaton accepts it.  States: segments and words; transitions: replayed element allocations and words.')
    ck.assumptions.append('Boolean mode: runs with complementarity operands above its big M (1e5) are not required to be feasible (counted as big).')
    ck.assumptions.append('Runs with corners, tangential or repelling switches and points within 1e-5 of a surface are excluded (counted as ambiguous / close).')


def replay(data):
    it = data['item']
    c = dict(it[2])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    it = [it[0], it[1], c] + list(it[3:])
    return [m for _, m, _ in _task(it)['msg']]
