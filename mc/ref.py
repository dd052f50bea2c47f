"""Reference transcription: what the NLP has to be, computed numerically at witness points.

Written from the problem statement (docstrings, README, the FESD papers), not from problem.py:
rows are generated one by one as arrays of K witness values, with bounds and the property they
belong to.  Only the index maps `ind_*` of the problem are used to find a quantity in w (their
correctness is the subject of C14), and the documented parameter layout."""
import numpy as np
from . import tableau
from .models import E

INF = np.inf
BIGM = 1e5


class Row:
    __slots__ = ('tag', 'val', 'lb', 'ub', 'what', 'alts')

    def __init__(self, tag, val, lb, ub, what, alts=()):
        self.tag, self.val, self.lb, self.ub, self.what, self.alts = tag, val, lb, ub, what, alts


def default_cfg():
    return dict(model='Plain', ocp=None, pss='STEWART', rep='INTEGRAL', scheme='RADAU_IIA', n_s=2, fesd=True,
                cross='SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA', mpcc='SCHOLTES_INEQ', se='HEURISTIC_DELTA', N=1,
                Nfe=(2,), equi=True, path_fe=False, path_stg=False, sot='NONE', tf=False, direct=True, lsq=False,
                gamma=0.8, rho=1.3, T=1.7, sigma0=0.9, se_sigma=0.35, sot_b=(0.5, 7.0), el=(0.8, 9.0, 0.05),
                fb=(1.2, 0.3), tf_tol=2e-3, init='ALL_XCURRENT_W0_START',
                fix=False, polish=False)


class Ref:

    def __init__(self, cfg, model, ocp, prob, W, P):
        self.c, self.m, self.o, self.pr, self.W, self.P = cfg, model, ocp, prob, W, P
        self.rows = []
        self.pen = 0.0      # step equilibration cost
        self.run = 0.0      # running cost
        c = cfg
        self.N, self.Nfe = c['N'], list(c['Nfe'])
        self.step = c['pss'] == 'STEP'
        self.nsys = len(model.subs)
        self.radau = c['scheme'] == 'RADAU_IIA'
        self.nf = model.n_f() if model.kind != 'inclusion' else None
        self.nc = model.n_c()
        self.nlam = 2 * sum(self.nc) if self.step else sum(self.nf)
        # parameter layout
        npar = model.n_pt + model.n_pg
        self.npar = npar
        o = npar * self.N
        self.sigma, self.tau = P[o], P[o + 1]
        self.lam00 = P[o + 2:o + 2 + self.nlam]
        self.x0 = P[o + 2 + self.nlam:o + 2 + self.nlam + model.n_x]
        if len(P) != o + 2 + self.nlam + model.n_x:
            raise ValueError(f'parameter vector has length {len(P)}, expected {o + 2 + self.nlam + model.n_x}')
        self.v = self.w(flat(prob.ind_v_global))
        self.s = self.w(flat(prob.ind_elastic))

    def w(self, ind):
        return [self.W[i] for i in ind]

    def par(self, k):
        p = self.P[k * self.npar:(k + 1) * self.npar]
        return list(p[:self.m.n_pt]), list(p[self.m.n_pt:])

    def u(self, k):
        return self.w(self.pr.ind_u[k])

    def hval(self, k, i):
        if self.c['fesd']:
            return self.W[self.hind(k, i)]
        return np.full(self.W.shape[1], self.c['T'] / self.N / self.Nfe[k])

    def hind(self, k, i):
        return self.pr.ind_h[sum(self.Nfe[:k]) + i]

    def env(self, k, x, z):
        pt, pg = self.par(k)
        return E(x=x, u=self.u(k), z=z, pt=pt, pg=pg, v=self.v)

    def xend(self, k, i):
        """state at the end of element i of stage k; (k, -1): end of the previous stage"""
        if i < 0:
            if k == 0:
                return list(self.x0)
            return self.xend(k - 1, self.Nfe[k - 1] - 1)
        return self.w(self.pr.ind_x[k][i][-1])

    def prevx(self, k, i):
        return self.xend(k, i - 1)

    def boundary(self, k, i):
        """does the element own multipliers at its right end besides the stages?"""
        return self.c['fesd'] and not self.radau and not (k == self.N - 1 and i == self.Nfe[k] - 1)

    # multipliers -------------------------------------------------------------------------
    def lam_sys(self, k, i, j, s):
        pr = self.pr
        if self.step:
            return self.w(pr.ind_lambda_n[k][i][j][s]), self.w(pr.ind_lambda_p[k][i][j][s])
        return self.w(pr.ind_lam[k][i][j][s])

    def Lambda(self, k, i, j):
        """all switching multipliers at stage j, order: (lambda) or (lambda_n of all, lambda_p of all)"""
        if self.step:
            ln = [x for s in range(self.nsys) for x in self.lam_sys(k, i, j, s)[0]]
            lp = [x for s in range(self.nsys) for x in self.lam_sys(k, i, j, s)[1]]
            return ln + lp
        return [x for s in range(self.nsys) for x in self.lam_sys(k, i, j, s)]

    def Theta(self, k, i, j):
        if self.step:
            a = [x for s in range(self.nsys) for x in self.w(self.pr.ind_alpha[k][i][j][s])]
            return a + [1 - x for x in a]
        return [x for s in range(self.nsys) for x in self.w(self.pr.ind_theta[k][i][j][s])]

    def last_lam_index(self, k, i):
        return self.c['n_s'] if self.boundary(k, i) else self.c['n_s'] - 1

    def Lambda_prev_end(self, k, i):
        if i > 0:
            return self.Lambda(k, i - 1, self.last_lam_index(k, i - 1))
        if k > 0:
            return self.Lambda(k - 1, self.Nfe[k - 1] - 1, self.last_lam_index(k - 1, self.Nfe[k - 1] - 1))
        return list(self.lam00)

    def n_lam_stages(self, k, i):
        return self.last_lam_index(k, i) + 1

    # helpers -----------------------------------------------------------------------------
    def add(self, tag, val, lb, ub, what, alts=()):
        self.rows.append(Row(tag, np.asarray(val, dtype=float) + np.zeros(self.W.shape[1]), lb, ub, what, alts))

    def eq(self, tag, val, what, alts=()):
        self.add(tag, val, 0.0, 0.0, what, alts)

    def X(self, k, i):
        """stage states"""
        c = self.c
        n_s = c['n_s']
        if c['rep'] == 'DIFFERENTIAL':
            A, b, _ = tableau.rk(c['scheme'], n_s)
            xp, h = self.prevx(k, i), self.hval(k, i)
            V = [self.w(self.pr.ind_v[k][i][j]) for j in range(n_s)]
            return [[xp[d] + h * sum(A[j, r] * V[r][d] for r in range(n_s)) for d in range(self.m.n_x)] for j in range(n_s)]
        return [self.w(self.pr.ind_x[k][i][j]) for j in range(n_s)]

    def sot(self, k):
        if self.c['sot'] == 'NONE':
            return 1.0
        ind = self.pr.ind_sot
        return self.W[flat(ind)[0 if self.c['sot'] == 'GLOBAL' else k]]

    def z(self, k, i, j):
        return self.w(self.pr.ind_z[k][i][j])

    def mults(self, k, i, j):
        ind = self.pr.ind_alpha if self.step else self.pr.ind_theta
        return [self.w(ind[k][i][j][s]) for s in range(self.nsys)]

    # the NLP -----------------------------------------------------------------------------
    def build(self):
        c, m, o = self.c, self.m, self.o
        for k in range(self.N):
            for i in range(self.Nfe[k]):
                self.dynamics(k, i)
                self.complementarity(k, i)
                self.stepeq(k, i)
            if o is not None:
                e = self.env(k, None, None)
                for a, b in ctrl_pairs(o, e, 'ctrl'):
                    self.comp(('C08', 'C03'), [a], b, f'user pair of control stage {k}')
            xe = self.xend(k, self.Nfe[k] - 1)
            if c['fesd'] and c['equi']:
                self.eq(('C04',), sum(self.hval(k, i) for i in range(self.Nfe[k])) - c['T'] / self.N, f'sum of steps of stage {k}')
            if c['tf'] and c['equi']:
                t0 = m.t_var(E(x=list(self.x0)))
                self.add(('C26',), m.t_var(E(x=xe)) - (c['T'] / self.N * (k + 1) + t0), -c['tf_tol'], c['tf_tol'],
                         f'clock at end of stage {k}')
        if c['fesd'] and not c['equi']:
            self.eq(('C04',), sum(self.hval(k, i) for k in range(self.N) for i in range(self.Nfe[k])) - c['T'], 'sum of all steps')
        f = self.run
        if o is not None:
            pt, pg = self.par(0)
            for a, b in ctrl_pairs(o, E(x=None, u=None, z=None, pt=pt, pg=pg, v=self.v), 'glob'):
                self.comp(('C08', 'C03'), [a], b, 'global user pair')
            xT = self.xend(self.N - 1, self.Nfe[-1] - 1)
            e = self.env(self.N - 1, xT, None)
            if 'term' in o.feats:
                for r, g in enumerate(o.g_term(e)):
                    self.eq(('C05',), g, f'terminal constraint {r}')
            if 'cost' in o.feats:
                f = f + o.f_T(e)
        f = f + self.pen
        if c['mpcc'].startswith('ELASTIC'):
            f = f + self.s[0] / self.sigma if c['direct'] else self.sigma * f + self.s[0]
        self.f = f + np.zeros(self.W.shape[1])
        return self

    def switching(self, k, i, j, x, z, what, tag=('C02',)):
        """stationarity of the switching functions at one point, multipliers of index j"""
        e = self.env(k, x, z)
        for s in range(self.nsys):
            if self.step:
                ln, lp = self.lam_sys(k, i, j, s)
                cv = self.m.subs[s]['c'](e)
                for r in range(len(cv)):
                    self.eq(tag, cv[r] - lp[r] + ln[r], f'{what}, system {s}, c[{r}]')
            else:
                lam = self.lam_sys(k, i, j, s)
                mu = self.w(self.pr.ind_mu[k][i][j][s])[0]
                g = self.m.switch_values(e, s, c_pss(self.c))
                for r in range(len(g)):
                    self.eq(tag, g[r] - lam[r] + mu, f'{what}, system {s}, g[{r}]')

    def dynamics(self, k, i):
        c, m, o = self.c, self.m, self.o
        n_s = c['n_s']
        h, sot, xp, xe, X = self.hval(k, i), self.sot(k), self.prevx(k, i), self.xend(k, i), self.X(k, i)
        A, b, _ = tableau.rk(c['scheme'], n_s)
        C, Dv = tableau.integral(c['scheme'], n_s)
        tag = ('C01',) if c['sot'] == 'NONE' else ('C01', 'C26')
        for j in range(n_s):
            e = self.env(k, X[j], self.z(k, i, j))
            f = [sot * fi for fi in m.rhs(e, self.mults(k, i, j), c['pss'])]
            wh = f'stage {k} element {i} rk {j}'
            if c['rep'] == 'INTEGRAL':
                for d in range(m.n_x):
                    xd = C[0, j + 1] * xp[d] + sum(C[r + 1, j + 1] * X[r][d] for r in range(n_s))
                    self.eq(tag, h * f[d] - xd, f'collocation {wh} x[{d}]')
            else:
                V = self.w(self.pr.ind_v[k][i][j])
                for d in range(m.n_x):
                    self.eq(tag, f[d] - V[d], f'derivative {wh} x[{d}]')
                if c['rep'] == 'DIFFERENTIAL_LIFT_X':
                    for d in range(m.n_x):
                        t = xp[d] + h * sum(A[j, r] * self.w(self.pr.ind_v[k][i][r])[d] for r in range(n_s))
                        self.eq(tag, X[j][d] - t, f'lifting {wh} x[{d}]')
            # algebraic
            self.switching(k, i, j, X[j], self.z(k, i, j), f'switching {wh}')
            if not self.step:
                for s, th in enumerate(self.mults(k, i, j)):
                    self.eq(('C02',), sum(th) - 1, f'convex sum {wh} system {s}')
            if m.g_z is not None:
                for r, g in enumerate(m.g_z(e)):
                    self.eq(('C02',), g, f'g_z[{r}] {wh}')
            # running cost
            if o is not None and 'cost' in o.feats:
                self.run = self.run + b[j] * h * sot * o.f_q(e)
            elif o is not None and 'constcost' in o.feats:
                self.run = self.run + b[j] * h * sot * 1.0
            # complementarity pairs of the user
            if o is not None:
                for a, bb in ctrl_pairs(o, e, 'rk'):
                    self.comp(('C08', 'C03'), [a], bb, f'user pair {wh}')
        # end point
        if c['rep'] == 'INTEGRAL':
            end = [Dv[0] * xp[d] + sum(Dv[r + 1] * X[r][d] for r in range(n_s)) for d in range(m.n_x)]
        else:
            end = [xp[d] + h * sum(b[r] * self.w(self.pr.ind_v[k][i][r])[d] for r in range(n_s)) for d in range(m.n_x)]
        if not self.radau or c['rep'] == 'DIFFERENTIAL':
            for d in range(m.n_x):
                self.eq(tag, end[d] - xe[d], f'end point stage {k} element {i} x[{d}]')
        if self.boundary(k, i):
            self.switching(k, i, n_s, xe, self.z(k, i, n_s - 1), f'boundary switching stage {k} element {i}')
        # path constraints
        if o is not None and ('path' in o.feats or 'path_eq' in o.feats):
            lb, ub = o.path_bounds()
            at_end = i == self.Nfe[k] - 1 or c['path_fe']
            if at_end:
                # x(end) and the last stage value coincide for stiffly accurate schemes
                vals = [o.g_path(self.env(k, x, None)) for x in [xe] + ([X[-1]] if self.radau else [])]
                for r in range(len(lb)):
                    self.add(('C05',), vals[0][r], lb[r], ub[r], f'path constraint {r} at end of stage {k} element {i}',
                             alts=tuple(v[r] for v in vals[1:]))
            if c['path_stg']:
                for j in range(n_s - (1 if self.radau and at_end else 0)):
                    xs = [X[j]] + ([xe] if self.radau and j == n_s - 1 else [])
                    vals = [o.g_path(self.env(k, x, None)) for x in xs]
                    for r in range(len(lb)):
                        self.add(('C05',), vals[0][r], lb[r], ub[r], f'path constraint {r} at stage {k} element {i} rk {j}',
                                 alts=tuple(v[r] for v in vals[1:]))

    # complementarities -------------------------------------------------------------------
    def comp(self, tag, xs, y, what):
        """one scalar complementarity (sum or list of x) against y"""
        c, sg, tau = self.c, self.sigma, self.tau
        md = c['mpcc']
        sx = sum(xs)
        if md == 'SCHOLTES_INEQ':
            self.add(tag, sx * y - sg, -INF, 0., what)
        elif md == 'SCHOLTES_EQ':
            self.eq(tag, sx * y - sg, what)
        elif md == 'ELASTIC_INEQ':
            self.add(tag, sx * y - self.s[0], -INF, 0., what)
        elif md == 'ELASTIC_EQ':
            self.eq(tag, sx * y - self.s[0], what)
        elif md == 'ELASTIC_TWO_SIDED':
            self.add(tag, sx * y - self.s[0], -INF, 0., what + ' (upper)')
            self.add(tag, sx * y + self.s[0], 0., INF, what + ' (lower)')
        elif md == 'FISCHER_BURMEISTER':
            self.eq(tag, sum(x + y - np.sqrt(x**2 + y**2 + sg**2) for x in xs), what)
        elif md == 'FISCHER_BURMEISTER_IP_AUG':
            x, = xs
            fb = x + y - np.sqrt(x**2 + y**2 + sg**2)
            w1, w2 = c['fb']
            self.eq(tag, fb, what + ' (FB)')
            self.eq(tag, w1 * (x - sg) * np.sqrt(tau), what + ' (aug x)')
            self.eq(tag, w1 * (y - sg) * np.sqrt(tau), what + ' (aug y)')
            self.eq(tag, w2 * fb * np.sqrt(1 + (x - y)**2), what + ' (aug 2)')
        elif md == 'BOOLEAN':
            z = self.boolval
            # symmetric in x and y once z is replaced by 1 - z, so the witness value is 0.5
            self.add(tag, BIGM * z - y, 0., INF, what + ' (y up)')
            self.add(tag, y + BIGM * z, 0., INF, what + ' (y low)')
            self.add(tag, BIGM * (1 - z) - sx, 0., INF, what + ' (x up)')
            self.add(tag, sx + BIGM * (1 - z), 0., INF, what + ' (x low)')
            self.nbool += 1
        else:
            raise ValueError(md)

    boolval = 0.5
    nbool = 0

    def complementarity(self, k, i):
        c = self.c
        n_s = c['n_s']
        t = ('C03',)
        wh = f'stage {k} element {i}'
        if not c['fesd']:
            for j in range(n_s):
                L, T = self.Lambda(k, i, j), self.Theta(k, i, j)
                for r in range(len(T)):
                    self.comp(t, [L[r]], T[r], f'complementarity {wh} rk {j} pair {r}')
        elif c['cross'].startswith('COMPLEMENT'):
            for j in range(n_s):
                T = self.Theta(k, i, j)
                Ls = [('prev', self.Lambda_prev_end(k, i))] + [(jj, self.Lambda(k, i, jj)) for jj in range(self.n_lam_stages(k, i))]
                for nm, L in Ls:
                    for r in range(len(T)):
                        self.comp(t, [T[r]], L[r], f'cross complementarity {wh} rk {j} with lambda {nm} pair {r}')
        else:
            Ls = [self.Lambda(k, i, jj) for jj in range(self.n_lam_stages(k, i))] + [self.Lambda_prev_end(k, i)]
            for j in range(n_s):
                T = self.Theta(k, i, j)
                for r in range(len(T)):
                    self.comp(t, [L[r] for L in Ls], T[r], f'summed cross complementarity {wh} rk {j} pair {r}')

    def comp_residual(self):
        """largest product over all cross complementarity pairs"""
        c = self.c
        prods = []
        for k in range(self.N):
            for i in range(self.Nfe[k]):
                for j in range(c['n_s']):
                    T = self.Theta(k, i, j)
                    Ls = [self.Lambda(k, i, j)]
                    if c['fesd']:
                        Ls = [self.Lambda(k, i, jj) for jj in range(self.n_lam_stages(k, i))] + [self.Lambda_prev_end(k, i)]
                    prods += [T[r] * L[r] for L in Ls for r in range(len(T))]
        return np.max(np.array(prods), axis=0)

    # step equilibration ------------------------------------------------------------------
    def sumLambda(self, k, i):
        Ls = [self.Lambda(k, i, jj) for jj in range(self.n_lam_stages(k, i))] + [self.Lambda_prev_end(k, i)]
        return [sum(col) for col in zip(*Ls)]

    def sumTheta(self, k, i):
        return [sum(col) for col in zip(*[self.Theta(k, i, j) for j in range(self.c['n_s'])])]

    def stepeq(self, k, i):
        c = self.c
        if not c['fesd']:
            return
        h, se = self.hval(k, i), c['se']
        if se == 'HEURISTIC_MEAN':
            self.pen = self.pen + c['rho'] * (h - c['T'] / self.N / self.Nfe[k])**2
            return
        if i == 0:
            return
        dh = h - self.hval(k, i - 1)
        if se == 'HEURISTIC_DELTA':
            self.pen = self.pen + c['rho'] * dh**2
            return
        nu = 1.0
        for a, b, p, q in zip(self.sumLambda(k, i - 1), self.sumLambda(k, i), self.sumTheta(k, i - 1), self.sumTheta(k, i)):
            nu = nu * (a * b + p * q)
        wh = f'step equilibration stage {k} elements {i - 1},{i}'
        if se == 'L2_RELAXED_SCALED':
            self.pen = self.pen + c['rho'] * np.tanh(nu / c['se_sigma']) * dh**2
        elif se == 'L2_RELAXED':
            self.pen = self.pen + c['rho'] * nu * dh**2
        elif se == 'DIRECT':
            self.eq(('C07',), nu * dh, wh)
        elif se == 'DIRECT_COMPLEMENTARITY':
            # dh can be negative, a complementarity needs nonnegative arguments
            self.comp(('C07',), [nu], dh**2, wh)
        elif se == 'HEURISTIC_DELTA_H_COMP':
            # known finding C07-1: the relaxed complementarity of dh with the constant zero
            self.comp(('C07',), [0.0 * nu], dh, wh)
        else:
            raise ValueError(se)

    # bounds and initial guess ------------------------------------------------------------
    def bounds(self):
        """index -> (lb, ub, w0, tag, what)"""
        c, m, o, pr = self.c, self.m, self.o, self.pr
        B = {}

        def put(ind, lb, ub, w0, tag, what):
            ind = list(ind)
            for n, q in enumerate(ind):
                g = lambda a: a[n] if isinstance(a, (list, tuple, np.ndarray)) else a
                B.setdefault(q, []).append((g(lb), g(ub), g(w0), tag, f'{what}[{n}]'))

        from .models import Ocp
        oo = o if o is not None else Ocp(m, ())
        # multipliers of Fischer-Burmeister functions that are summed up have to be nonnegative, or the terms could cancel
        dual = -INF if c['mpcc'].startswith('FISCHER') and not (c['fesd'] and c['cross'].startswith('SUM')) else 0.0
        put(flat(pr.ind_v_global), oo.lbv, oo.ubv, oo.v_guess, 'C05', 'v_global')
        if c['mpcc'].startswith('ELASTIC'):
            put(flat(pr.ind_elastic), c['el'][2], c['el'][1], c['el'][0], 'C05', 's_elastic')
        put(flat(pr.ind_sot), c['sot_b'][0], c['sot_b'][1], 1.0, 'C26', 'sot')
        for k in range(self.N):
            put(pr.ind_u[k], oo.lbu, oo.ubu, oo.u_guess, 'C05', f'u {k}')
            hk = c['T'] / self.N / self.Nfe[k]
            for i in range(self.Nfe[k]):
                wh = f'stage {k} element {i}'
                if c['fesd']:
                    put([self.hind(k, i)], (1 - c['gamma']) * hk, (1 + c['gamma']) * hk, hk, 'C04', f'h {wh}')
                for j, ind in enumerate(pr.ind_x[k][i]):
                    put(ind, oo.lbx, oo.ubx, m.x0, 'C05', f'x {wh} {j}')
                for j, ind in enumerate(pr.ind_v[k][i]):
                    put(ind, -INF, INF, 0.0, 'C05', f'v {wh} {j}')
                for j, ind in enumerate(pr.ind_z[k][i]):
                    n = m.n_z
                    put(ind, [-INF] * n if m.lbz is None else m.lbz, [INF] * n if m.ubz is None else m.ubz,
                        [0.0] * n if m.z0 is None else m.z0, 'C05', f'z {wh} {j}')
                for nm, arr, ub, w0, lb in (('theta', pr.ind_theta, INF, 'nf', dual), ('lambda', pr.ind_lam, INF, 'nf', dual),
                                            ('mu', pr.ind_mu, INF, 1.0, -INF), ('alpha', pr.ind_alpha, 1.0, 0.5, dual),
                                            ('lambda_n', pr.ind_lambda_n, INF, 0.5, dual),
                                            ('lambda_p', pr.ind_lambda_p, INF, 0.5, dual)):
                    for j, per in enumerate(arr[k][i]):
                        for s, ind in enumerate(per):
                            g = c['sigma0'] / self.nf[s] if w0 == 'nf' and len(ind) else w0
                            put(ind, lb, ub, g, 'C05', f'{nm} {wh} {j} system {s}')
        for q in flat(pr.ind_bool):
            B.setdefault(q, []).append((0.0, 1.0, 0.5, 'C05', 'bool'))
        return B


def c_pss(c):
    return c['pss']


def ctrl_pairs(o, e, kind):
    """pairs of one kind, evaluated in e (entries not available are None and must not be needed)"""
    o2 = _only(o, kind)
    return o2.comps(e)[kind] if o2.feats else []


_cache = {}


def _only(o, kind):
    from .models import Ocp
    feats = frozenset(f for f in o.feats if f == 'comp_' + kind or f.startswith('pair:') and Ocp.pair_level(f) == kind)
    key = (id(o.m), feats)
    if key not in _cache:
        _cache[key] = Ocp(o.m, feats)
    return _cache[key]


def flat(L):
    if isinstance(L, list):
        return [a for i in L for a in flat(i)]
    return [int(L)]
