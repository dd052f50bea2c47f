"""C32: optimal control problems solved with the real NLP solver; whatever is reported as a success must be an exact Filippov trajectory
of the reported controls that satisfies the declared constraints, at the reported cost."""
import itertools
import numpy as np
import casadi as ca
from . import env
from .driver import pmap
from .hybrid import CROSS, MPCC, REP, SCHEME
from .models import Model, E, MODELS
from .results import vec
from .simulate import silent
from .trans import make_opts, cfg_of, supported, with_timeout
from .transcheck import describe, short, vkey

nosnoc = env.nosnoc
COMP = 1e-9
TOL = 1e-4          # biactive pairs may be off by the square root of the complementarity tolerance
GQ, GW = np.polynomial.legendre.leggauss(6)


# --- models: constant or accelerated flows in every region -------------------------------------------
class OGate(Model):
    """crossing: the second region is faster and costs the other state"""
    n_x, n_u = 2, 1
    deg = 1
    x0 = [0.4, 0.0]
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]], F=lambda e: [[e.u[0] - 0.6, 1.0 + 0 * e.u[0]], [2.0 * e.u[0] - 1.0, -0.5 + 0 * e.u[0]]])]


class OSlide(Model):
    """attracting surface that large controls can cross; parameters of every kind"""
    n_x, n_u, n_pt, n_pg = 2, 1, 1, 1
    deg = 1
    x0 = [0.3, 0.1]
    subs = [dict(c=lambda e: [e.x[0] - 0.1 * e.pg[0]], S=[[1], [-1]], F=lambda e: [[e.u[0] - 1.0, 2.0 * e.pt[0]], [e.u[0] + 1.0, -1.0 * e.pt[0]]])]


class OTwo(Model):
    """two systems with two and four regions"""
    n_x, n_u, n_pt = 3, 2, 1
    deg = 1
    x0 = [0.3, -0.2, 0.25]
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]], F=lambda e: [[e.u[0], 0 * e.u[0], 0 * e.u[0]], [0.5 * e.u[0] - 0.2 * e.pt[0], 0 * e.u[0], 0 * e.u[0]]]),
            dict(c=lambda e: [e.x[1], e.x[2]], S=[[1, 1], [1, -1], [-1, 1], [-1, -1]],
                 F=lambda e: [[0 * e.u[0], e.u[1] - 1.0, -0.5 + 0 * e.u[1]], [0 * e.u[0], e.u[1], 0.25 + 0 * e.u[1]],
                              [0 * e.u[0], e.u[1] + 1.0, -0.75 + 0 * e.u[1]], [0 * e.u[0], 0.5 * e.u[1], 0.5 + 0 * e.u[1]]])]


class OIncl(Model):
    """general inclusion"""
    kind = 'inclusion'
    pss = ('STEP',)
    n_x, n_u = 2, 1
    deg = 1
    x0 = [0.3, 0.1]
    subs = [dict(c=lambda e: [e.x[0]], f=lambda e: [e.u[0] + 1 - 2 * e.alpha[0][0]]),
            dict(c=lambda e: [e.x[1] - 0.2], f=lambda e: [0.8 * e.alpha[1][0] - 0.3 + 0.5 * e.alpha[0][0]])]


class OStew(Model):
    """three regions given by Stewart functions; a global variable scales the flow"""
    kind = 'stewart'
    pss = ('STEWART',)
    n_x, n_u, n_v = 2, 1, 1
    deg = 1
    x0 = [0.3, 0.2]
    subs = [dict(g=lambda e: [-e.x[0], -e.x[1], e.x[0] + e.x[1]],
                 F=lambda e: [[e.u[0] - e.v[0], 0.7 + 0 * e.u[0]], [-0.6 * e.v[0], e.u[0] - 0.9], [1.1 * e.v[0], 0.2 + e.u[0]]])]


class OAlg(Model):
    """accelerated flow through an algebraic state"""
    n_x, n_u, n_z, n_pg = 2, 1, 1, 1
    deg = 2
    x0 = [0.35, -0.4]
    z0 = [0.3]
    g_z = staticmethod(lambda e: [e.z[0] - e.x[1] - 0.5 * e.pg[0]])
    z_of = staticmethod(lambda e: [e.x[1] + 0.5 * e.pg[0]])
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]], F=lambda e: [[e.z[0], e.u[0]], [2.0 * e.z[0], e.u[0] - 0.5]])]


OM = {k.__name__: k() for k in (OGate, OSlide, OTwo, OIncl, OStew, OAlg)}
MODELS.update(OM)
HARD = ('term', 'path', 'xbound', 'vbound')


class Task:
    """costs and constraints of the problems: quadratic where the scheme integrates them exactly"""

    def __init__(self, m, feats):
        self.m, self.F = m, frozenset(feats)

    def f_q(self, e):
        t = 0.3 + sum((u * u for u in e.u), 0.0) * 0.5
        if 'xcost' in self.F:
            t = t + (1.0 if self.m.deg > 1 else e.x[0] - 0.2) * (e.x[0] - 0.2) + 0.4 * e.x[-1]
        for p in e.pt:
            t = t + 0.6 * p * e.u[0]
        for p in e.pg:
            t = t + 0.3 * p * e.x[-1]
        for v in e.v:
            t = t + 0.5 * (v - 1.2) * (v - 1.2)
        return t

    def f_T(self, e):
        t = (e.x[0] + 0.5) * (e.x[0] + 0.5)
        for v in e.v:
            t = t + 0.2 * v * e.x[-1]
        for p in e.pt:
            t = t + 0.7 * p * e.x[0]
        return t

    def path(self, e):
        """value in [-0.9, 0.45]"""
        return 0.5 * e.x[0] + 0.4 * e.u[0] + (0.1 * e.pt[0] if len(e.pt) else 0.0)

    PB = (-0.9, 0.45)

    def term(self, e):
        return e.x[0] + 0.25 + (0.1 * e.pg[0] if len(e.pg) else 0.0)

    def pairs(self, e):
        """complementarity pairs of the user, nonnegative under the bounds that come with them"""
        L = []
        if 'ucomp' in self.F:
            L.append((e.u[0] + 2.0, 1.75 - e.u[-1]))
        if 'xcomp' in self.F:
            L.append(((e.x[0] + 4.0) * (e.u[0] + 2.0), 1.75 - e.u[0]))
        return L

    def build(self):
        m, e, F, kw = self.m, self.m.e, self.F, {}
        n = m.n_u
        kw.update(lbu=np.full(n, -2.0), ubu=np.full(n, 1.75), u_guess=np.full(n, 0.2))
        if 'xbound' in F:
            kw.update(lbx=np.array([-0.45] + [-2.0] * (m.n_x - 1)), ubx=np.array([0.6] + [0.9] * (m.n_x - 1)))
        if m.n_v:
            kw.update(v_global_guess=np.ones(m.n_v), lbv_global=np.full(m.n_v, 0.5), ubv_global=np.full(m.n_v, 2.0))
        if 'cost' in F:
            kw['f_q'] = self.f_q(e)
        if 'mayer' in F:
            kw['f_terminal'] = self.f_T(e)
        if 'path' in F:
            kw.update(g_path=ca.vertcat(self.path(e)), lbg=np.array([self.PB[0]]), ubg=np.array([self.PB[1]]))
        if self.pairs(e):
            kw['g_path_comp'] = ca.vertcat(*[ca.horzcat(a, b) for a, b in self.pairs(e)])
        if 'term' in F:
            kw['g_terminal'] = ca.vertcat(self.term(e))
        return nosnoc.NosnocOcp(**kw)


# --- oracle -----------------------------------------------------------------------------------------
class Flow:
    """region fields of a model for fixed inputs"""

    def __init__(self, m, u, pt, pg, v, sot):
        self.m, self.inp, self.sot = m, (u, pt, pg, v), sot
        if m.kind == 'inclusion':
            self.modes = list(itertools.product(*[itertools.product((1, -1), repeat=n) for n in m.n_c()]))
        else:
            self.modes = list(itertools.product(*[range(n) for n in m.n_f()]))

    def e(self, x):
        u, pt, pg, v = self.inp
        e = E(x=list(x), u=list(u), z=[], pt=list(pt), pg=list(pg), v=list(v))
        if self.m.n_z:
            e.z = self.m.z_of(e)
        return e

    def inside(self, mode, x, tol):
        e = self.e(x)
        for s, r in zip(self.m.subs, mode):
            if self.m.kind == 'inclusion':
                ok = all(float(c) * q >= -tol for c, q in zip(s['c'](e), r))
            elif self.m.kind == 'stewart':
                g = [float(t) for t in s['g'](e)]
                ok = g[r] - min(g) <= tol
            else:
                ok = all(float(c) * q >= -tol for c, q in zip(s['c'](e), s['S'][r]))
            if not ok:
                return False
        return True

    def field(self, mode, x):
        e = self.e(x)
        if self.m.kind == 'inclusion':
            e.alpha = [[1.0 if q > 0 else 0.0 for q in r] for r in mode]
            f = [r for s in self.m.subs for r in s['f'](e)]
        else:
            f = [0.0] * self.m.n_x
            for s, r in zip(self.m.subs, mode):
                f = [a + b for a, b in zip(f, s['F'](e)[r])]
        return self.sot * np.array([float(t) for t in f])

    def step(self, x, y, h):
        """None if some Filippov solution leads from x to y in one mode or sliding mode, else the distance"""
        x, y = np.array(x), np.array(y)
        adm = [m for m in self.modes if self.inside(m, x, TOL) and self.inside(m, y, TOL)]
        if not adm:
            return 'no region contains both ends'
        if self.m.deg > 1:
            best = np.inf
            for m in adm:
                v = self.field(m, x)
                a = self.field(m, x + v) - v
                best = min(best, np.max(np.abs(x + v * h + a * h * h / 2 - y)))
            if best > TOL and len(adm) > 1:
                return 'ambiguous'
            return None if best <= TOL else f'{best:.1e} away from the flow of the region'
        D = np.array([self.field(m, x) * h for m in adm]).T
        d = hull(D, y - x)
        return None if d <= TOL else f'{d:.1e} away from the flow of the regions {adm}'


def hull(D, d):
    """distance (max norm) of d from the convex hull of the columns of D, up to combinations of three columns"""
    best = np.min(np.max(np.abs(D - d[:, None]), axis=0))
    for k in (2, 3, 4):
        if best <= TOL:
            return best
        for c in itertools.combinations(range(D.shape[1]), k):
            A = np.vstack([D[:, c], 1e3 * np.ones(k)])
            w = np.linalg.lstsq(A, np.append(d, 1e3), rcond=None)[0]
            if np.min(w) >= -1e-6:
                best = min(best, np.max(np.abs(D[:, c] @ w - d)))
    return best


def judge(c, feats, m, x0, pt, pg, r, s, sigma):
    """complaints about a successful result"""
    relax = sigma
    if c['mpcc'].startswith('ELASTIC'):
        relax = abs(float(np.array(r['w_sol'])[s.problem.ind_elastic[0]].item()))
    t = Task(m, feats)
    N, Nfe, T = c['N'], c['Nfe'], c['T']
    X = np.array([np.array(v, dtype=float).flatten() for v in r['x_traj']])
    U = np.array([np.array(v, dtype=float).flatten() for v in r['u_traj']])
    tg, tu = np.array(r['t_grid'], dtype=float), np.array(r['t_grid_u'], dtype=float)
    v = np.array(r['v_global'], dtype=float).flatten()
    n = sum(Nfe)
    if X.shape != (n + 1, m.n_x) or U.shape != (N, m.n_u) or tg.shape != (n + 1,) or tu.shape != (N + 1,):
        return [f'shapes: {X.shape} states, {U.shape} controls, {tg.shape} times, {tu.shape} control times'], 0, 0
    if np.max(np.abs(X[0] - x0)) > 1e-12:
        return [f'the trajectory starts at {X[0].tolist()}'], 0, 0
    if abs(tg[-1] - T) > 1e-6:
        return [f'the time grid ends at {tg[-1]}, requested {T}'], 0, 0
    if c['equi'] and np.max(np.abs(tu - np.arange(N + 1) * T / N)) > 1e-6:
        return [f'the control grid is {tu.tolist()}'], 0, 0
    sot = np.ones(N)
    if c['sot'] != 'NONE':
        sot = np.array([float(q) for q in np.array(r['sot'], dtype=float).flatten()])
        sot = np.full(N, sot[0]) if c['sot'] == 'GLOBAL' else sot
        if np.min(sot) < c['sot_b'][0] - TOL or np.max(sot) > c['sot_b'][1] + TOL:
            return [f'speed of time {sot.tolist()} is out of bounds'], 0, 0
    msg, cost, switches, amb = [], 0.0, 0, 0
    i = 0
    for k in range(N):
        fl = Flow(m, U[k], pt[k], pg, v, sot[k])
        if np.min(U[k]) < -2.0 - TOL or np.max(U[k]) > 1.75 + TOL:
            msg.append(f'control {U[k].tolist()} of stage {k} is out of bounds')
        for j in range(Nfe[k]):
            h = tg[i + 1] - tg[i]
            nom = T / N / Nfe[k]
            if c['fesd'] and not (nom * (1 - c['gamma']) - 1e-6 <= h <= nom * (1 + c['gamma']) + 1e-6):
                msg.append(f'element {i} has length {h}, nominal {nom}')
            d = fl.step(X[i], X[i + 1], h)
            if d == 'ambiguous':
                amb += 1
                return [], switches, amb
            if d and c['scheme'] == 'GAUSS_LEGENDRE' and i == n - 1:     # finding of C23: switches after the last stage of the horizon are not seen
                return [], switches, amb + 1
            if d:
                msg.append(f'element {i} from {X[i].tolist()} (t={tg[i]:.6g}) to {X[i + 1].tolist()} (t={tg[i + 1]:.6g}) with u={U[k].tolist()}: {d}')
            elif [q for q in fl.modes if fl.inside(q, X[i + 1], 0)] != [q for q in fl.modes if fl.inside(q, X[i], 0)]:
                switches += 1
            # running cost along the element
            for q, w in zip(GQ, GW):
                a = (q + 1) / 2
                x = X[i] + (X[i + 1] - X[i]) * a
                if m.deg > 1:
                    md = min((z for z in fl.modes if fl.inside(z, X[i], TOL) and fl.inside(z, X[i + 1], TOL)),
                             key=lambda z: np.max(np.abs(X[i] + fl.field(z, X[i]) * h + (fl.field(z, X[i] + fl.field(z, X[i])) - fl.field(z, X[i])) * h * h / 2 - X[i + 1])), default=None)
                    if md is None:
                        continue
                    vv = fl.field(md, X[i])
                    aa = fl.field(md, X[i] + vv) - vv
                    x = X[i] + vv * h * a + aa * (h * a)**2 / 2
                if 'cost' in feats:
                    cost += sot[k] * h * w / 2 * float(t.f_q(fl.e(x)))
            last = j == Nfe[k] - 1
            if 'path' in feats and (last or c['path_fe']):
                g = float(t.path(fl.e(X[i + 1])))
                if not t.PB[0] - TOL <= g <= t.PB[1] + TOL:
                    msg.append(f'path constraint {g} at the end of element {i}, stage {k}')
            if c['scheme'] != 'GAUSS_LEGENDRE' and not c['mpcc'].startswith('FISCHER'):
                e = fl.e(X[i + 1])
                for a, b in t.pairs(e):
                    if float(a) < -TOL or float(b) < -TOL or float(a) * float(b) > relax * 1.05 + 1e-6:
                        msg.append(f'pair of the user is ({float(a)}, {float(b)}) at the end of element {i}, relaxation {relax}')
            if 'xbound' in feats:
                lo, hi = np.array([-0.45] + [-2.0] * (m.n_x - 1)), np.array([0.6] + [0.9] * (m.n_x - 1))
                if np.any(X[i + 1] < lo - TOL) or np.any(X[i + 1] > hi + TOL):
                    msg.append(f'state {X[i + 1].tolist()} at the end of element {i} is out of bounds')
            i += 1
    fl = Flow(m, [0.0] * m.n_u, pt[N - 1], pg, v, 1.0)
    if 'mayer' in feats:
        cost += float(t.f_T(fl.e(X[-1])))
    if 'term' in feats and abs(float(t.term(fl.e(X[-1])))) > TOL:
        msg.append(f'terminal constraint is {float(t.term(fl.e(X[-1])))}')
    if np.any(v < 0.5 - TOL) or np.any(v > 2.0 + TOL):
        msg.append(f'global variable {v.tolist()} is out of bounds')
    # regulariser of the step sizes
    h, pen = np.diff(tg), 0.0
    if c['fesd']:
        if c['se'] == 'HEURISTIC_MEAN':
            pen = c['rho'] * sum((h[i] - T / N / Nfe[k])**2 for k in range(N) for i in range(sum(Nfe[:k]), sum(Nfe[:k + 1])))
        else:
            pen = c['rho'] * sum((h[i + 1] - h[i])**2 for k in range(N) for i in range(sum(Nfe[:k]), sum(Nfe[:k + 1]) - 1))
    rep = float(r['cost_val'])
    if c['mpcc'].startswith('ELASTIC'):     # the elastic variable is charged with the last value of sigma
        el = float(np.array(r['w_sol'])[s.problem.ind_elastic[0]].item())
        rep = rep - el / sigma if c['direct'] and sigma > 0 else (rep - el) / sigma if sigma > 1e-3 else None
    if rep is not None and not msg and abs(rep - cost - pen) > 1e-4 * max(1.0, abs(cost)):
        msg.append(f'the reported cost is {rep}, the trajectory costs {cost} and the step sizes {pen}')
    return msg, switches, amb


ZERO = dict(solves=0, ok=0, switches=0, amb=0)


def task(it):
    part, c, feats, x0s = it
    res = dict(ZERO, msg=[])
    m = OM[c['model']]
    with silent(), env.quiet(), env.real_nlpsol():
        m.x0, keep = list(x0s[0]), m.x0
        try:
            model = m.build(c['N'])
        finally:
            m.x0 = keep
        o = make_opts(c)
        o.comp_tol, o.sigma_0, o.max_iter_homotopy, o.print_level = COMP, 1.0, 0, 0
        o.opts_casadi_nlp['print_time'] = 0
        o.opts_casadi_nlp['ipopt'].update(print_level=0, max_iter=500, sb='yes')
        o.max_iter_homotopy = 0
        s = nosnoc.NosnocSolver(o, model, Task(m, feats).build())
        out = []
        pt, pg = m.pt_val(c['N']), m.pg_val()
        for n, x0 in enumerate(x0s):
            if n:       # another problem on the same solver: start, parameters
                s.set('x0', np.array(x0, dtype=float))
                if m.n_pt:
                    pt = pt[::-1] + 0.1 * n
                    s.set('p_time_var', pt.copy())
                if m.n_pg:
                    pg = pg * 0.5
                    s.set('p_global', pg.copy())
            r = s.solve()
            sig = float(s.p_val[s.model.p_val_ctrl_stages.size])
            out.append((x0, pt, pg, r, float(s.problem.comp_res(r['w_sol'], s.p_val)), sig))
    for n, (x0, pt, pg, r, cr, sig) in enumerate(out):
        res['solves'] += 1
        if r['status'] != nosnoc.Status.SUCCESS or not cr <= 10 * COMP:
            continue
        msg, sw, amb = judge(c, feats, m, np.array(x0, dtype=float), pt, pg, r, s, sig)
        res['amb'] += amb
        res['ok'] += not amb
        res['switches'] += sw
        if msg:
            res['msg'].append(f'solve {n}, x0={list(x0)}, {sorted(feats)}: ' + '; '.join(msg[:2]))
            break
    return res


def _task(it):
    try:
        return with_timeout(150.0, task, it)
    except Exception as e:
        return dict(ZERO, msg=[f'{type(e).__name__}: {e}'])


def starts(m, q):
    a = np.array(m.x0)
    L = [[a, a * 0.5 - 0.1], [-a, a]]
    return L[:1] if q else L + [[a + 0.3, a * 0.0 + 0.05], [a - 0.45, -a * 0.7]]


def plans(q):
    seen = set()
    feats = [('cost',), ('cost', 'term'), ('cost', 'mayer', 'path'), ('cost', 'xcost', 'xbound', 'mayer'), ('cost', 'term', 'path', 'xbound')]

    def emit(part, names, **axes):
        for name in names:
            m = OM[name]
            for pss in m.pss:
                for vals in itertools.product(*axes.values()):
                    kw = dict(zip(axes, vals))
                    F = kw.pop('F')
                    if 'lay' in kw:
                        kw['N'], kw['Nfe'] = kw.pop('lay')
                    d = dict(model=name, pss=pss, N=2, Nfe=(2, 2), T=1.0, gamma=1.0, se='HEURISTIC_MEAN', rho=0.1, n_s=2, sot_b=(0.5, 2.0))
                    d.update(kw)
                    if m.deg > 1 and (d['n_s'] == 1 or d['scheme' if 'scheme' in d else 'n_s'] == 1):
                        continue
                    # quadratic costs along the element
                    if m.deg > 1 and 'xcost' in F and d['n_s'] < 2:
                        continue
                    if d['n_s'] == 1 and ('xcost' in F or m.n_pg):
                        continue
                    c = cfg_of(**d)
                    if supported(c) is not None:
                        continue
                    for x0s in starts(m, q):
                        k = str((sorted(c.items()), F, [list(x) for x in x0s]))
                        if k not in seen:
                            seen.add(k)
                            yield part, c, F, x0s
    N = tuple(OM)
    yield from emit('schemes', N, F=feats, scheme=SCHEME, rep=REP, n_s=[2] if q else [1, 2, 3])
    yield from emit('layouts', N if not q else ('OGate', 'OSlide', 'OStew'), F=feats[1:4], lay=[(1, (3,)), (2, (3, 1)), (2, (1, 3)), (3, (2, 1, 2)), (3, (2, 2, 2))], equi=[True, False],
                    path_fe=[False, True])
    yield from emit('modes', ('OGate', 'OSlide') if q else N, F=feats[1:4], mpcc=[k for k in MPCC if k != 'BOOLEAN'], cross=CROSS, el=[(1.0, 10.0, 0.0)])
    yield from emit('elastic', ('OGate', 'OSlide', 'OTwo') if q else N, F=feats[1:4], mpcc=[k for k in MPCC if k.startswith('ELASTIC')], direct=[True, False], el=[(1.0, 10.0, 0.0)],
                    lay=[(2, (2, 2)), (2, (1, 2))])
    yield from emit('pairs', ('OGate', 'OSlide', 'OTwo') if q else N, F=[('cost', 'ucomp'), ('cost', 'mayer', 'xcomp'), ('mayer', 'ucomp')],
                    el=[(1.0, 10.0, 0.0)],
                    mpcc=[k for k in MPCC if k != 'BOOLEAN'], cross=CROSS[:1] if q else CROSS, lay=[(2, (2, 2)), (2, (1, 2))])
    yield from emit('speed of time', ('OGate', 'OSlide', 'OAlg') if q else N, F=[feats[1], feats[2], feats[4]], sot=['LOCAL', 'GLOBAL'], equi=[True, False], scheme=SCHEME)
    yield from emit('solver options', ('OGate', 'OSlide', 'OTwo') if q else N, F=feats[1:4], init=['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL'], fix=[False, True], polish=[False, True],
                    se=['HEURISTIC_MEAN', 'HEURISTIC_DELTA'])


def run(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, r):
        d = cnt.setdefault(it[0], dict(ZERO, problems=0))
        d['problems'] += 1
        for k in ZERO:
            d[k] += r[k]
        ck.evals += r['solves']
        ck.nontrivial += r['ok']
        c = it[1]
        if r['msg']:
            ck.violation(vkey('C32', r['msg'][0].split(': ', 2)[-1]), f'[{it[0]}: {describe(c)}] {r["msg"][0]}', dict(kind='c32', item=list(it)))
        elif r['ok'] and r['switches']:
            ck.sample(dict(part=it[0], cfg=short(c), features=list(it[2]), starts=[list(x) for x in it[3]], switches=r['switches']))
    pmap(ck, _task, list(plans(ck.quick)), on, chunk=1)
    for k, d in cnt.items():
        ck.part(k, **d)
    ck.rules.append('Every listed optimal control problem (model x features x configuration x starts; the second start is solved on the same solver with other '
                    'parameters) is solved with the real IPOPT; a result that reports success with a complementarity residual below tolerance is '
                    'judged element by element: the end points lie in one region (or on its surfaces) and are connected by its flow or a sliding mode for the reported '
                    'control; bounds, path and terminal constraints hold; the reported cost is the exact cost of that trajectory.')
    ck.assumptions.append('Flows and running costs that the schemes integrate exactly. Solves without success are not judged; elements of accelerated flows that start and end on a surface, and switches in the last element of a Gauss-Legendre horizon (known finding of C23), are not judged (amb).')


def replay(data):
    it = list(data['item'])
    c = dict(it[1])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return _task((it[0], c, tuple(it[2]), it[3]))['msg']
