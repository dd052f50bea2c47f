"""Family of small models.  Every expression is given once, as a function that works on casadi
symbols (to build the NosnocModel) and on numpy arrays of witness values (for the reference)."""
import itertools
import numpy as np
import casadi as ca
from . import env
nosnoc = env.nosnoc


class Model:
    """n_*: dimensions.  subs: list of subsystems (dicts).  All functions take a dict-like `e` with
    lists x,u,z,pt,pg,v (and alpha for general inclusions)."""
    n_u = n_z = n_pt = n_pg = n_v = 0
    kind = 'filippov'  # 'stewart' (g_Stewart), 'inclusion' (general inclusion)
    t_var = None
    g_z = None
    z0 = lbz = ubz = None
    pss = ('STEWART', 'STEP')

    def n_f(self):
        return [len(s['F'](E.ones(self))) for s in self.subs]

    def n_c(self):
        return [len(s['c'](E.ones(self))) if 'c' in s else 0 for s in self.subs]

    def pt_val(self, N):
        return np.array([[0.3 + 0.17 * k + 0.05 * i for i in range(self.n_pt)] for k in range(N)]).reshape(N, self.n_pt)

    def pg_val(self):
        return np.array([0.61 + 0.13 * i for i in range(self.n_pg)])

    def build(self, N_stages=1, **over):
        s = lambda n, d: ca.SX.sym(n, d)
        sy = E(x=s('x', self.n_x), u=s('u', self.n_u), z=s('z', self.n_z), pt=s('pt', self.n_pt),
               pg=s('pg', self.n_pg), v=s('v', self.n_v))
        e = E(**{k: [q[i] for i in range(q.shape[0])] for k, q in sy.__dict__.items()})
        self.sy = sy
        kw = dict(x=sy.x, x0=np.array(self.x0, dtype=float))
        if self.n_u:
            kw['u'] = sy.u
        if self.n_z:
            kw['z'] = sy.z
            kw['g_z'] = ca.vertcat(*self.g_z(e))
            for k in ('z0', 'lbz', 'ubz'):
                if getattr(self, k) is not None:
                    kw[k] = np.array(getattr(self, k), dtype=float)
        if self.n_pt:
            kw['p_time_var'] = sy.pt
            kw['p_time_var_val'] = self.pt_val(N_stages)
        if self.n_pg:
            kw['p_global'] = sy.pg
            kw['p_global_val'] = self.pg_val()
        if self.n_v:
            kw['v_global'] = sy.v
        if self.t_var is not None:
            kw['t_var'] = self.t_var(e)
        cols = lambda f: ca.horzcat(*[ca.vertcat(*c) for c in f(e)])
        if self.kind == 'filippov':
            kw['F'] = [cols(s['F']) for s in self.subs]
            kw['c'] = [ca.vertcat(*s['c'](e)) for s in self.subs]
            kw['S'] = [np.array(s['S']) for s in self.subs]
        elif self.kind == 'stewart':
            kw['F'] = [cols(s['F']) for s in self.subs]
            kw['g_Stewart'] = [ca.vertcat(*s['g'](e)) for s in self.subs]
        else:
            nc = self.n_c()
            kw['c'] = [ca.vertcat(*s['c'](e)) for s in self.subs]
            kw['alpha'] = [ca.SX.sym(f'alpha{i}', n) for i, n in enumerate(nc)]
            e.alpha = [[a[i] for i in range(a.shape[0])] for a in kw['alpha']]
            kw['f_x'] = [ca.vertcat(*s['f'](e)) for s in self.subs]
        kw.update(over)
        self.e = e
        return nosnoc.NosnocModel(**kw)

    # --- reference semantics -------------------------------------------------------------
    def switch_values(self, e, ij, pss):
        """Stewart indicator functions of subsystem ij."""
        s = self.subs[ij]
        if self.kind == 'stewart':
            return s['g'](e)
        c = s['c'](e)
        return [-sum(sij * cj for sij, cj in zip(row, c)) for row in s['S']]

    def rhs(self, e, mult, pss):
        """mult: per subsystem list of thetas (Stewart) or alphas (Step)."""
        tot = [0.0] * self.n_x
        if self.kind == 'inclusion':
            e.alpha = mult
            return [r for s in self.subs for r in s['f'](e)]
        for s, m in zip(self.subs, mult):
            F = s['F'](e)
            if pss == 'STEWART':
                wgt = m
            else:
                wgt = []
                for row in s['S']:
                    t = 1.0
                    for k, sk in enumerate(row):
                        if sk == 1:
                            t = t * m[k]
                        elif sk == -1:
                            t = t * (1 - m[k])
                    wgt.append(t)
            for col, th in zip(F, wgt):
                tot = [a + b * th for a, b in zip(tot, col)]
        return tot


class E:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    @staticmethod
    def ones(m):
        return E(x=[1.] * m.n_x, u=[1.] * m.n_u, z=[1.] * m.n_z, pt=[1.] * m.n_pt, pg=[1.] * m.n_pg, v=[1.] * m.n_v,
                 alpha=[[1.] * 4] * 4)


class Plain(Model):
    """one system, two regions, no inputs"""
    n_x = 2
    x0 = [0.7, -0.4]
    subs = [dict(c=lambda e: [e.x[0] - 0.3], S=[[1], [-1]],
                 F=lambda e: [[1 + e.x[1], 2.0 + 0 * e.x[0]], [-1.5 + 0 * e.x[0], e.x[0] * e.x[1]]])]


class Const(Model):
    """one state, two regions, constant vector fields"""
    n_x = 1
    x0 = [-0.5]
    subs = [dict(c=lambda e: [e.x[0]], S=[[-1], [1]], F=lambda e: [[3.0 + 0 * e.x[0]], [1.0 + 0 * e.x[0]]])]


class Full(Model):
    """one system with controls, time-varying and global parameters, global variable, algebraic state"""
    n_x, n_u, n_z, n_pt, n_pg, n_v = 2, 2, 1, 1, 2, 1
    x0 = [0.2, 0.9]
    z0, lbz, ubz = [0.4], [-3.0], [5.0]
    subs = [dict(c=lambda e: [e.x[1] - e.pt[0] * e.x[0] + 0.2 * e.pg[0]], S=[[1], [-1]],
                 F=lambda e: [[e.x[1] * e.u[0] + e.z[0], e.pg[1] + e.pt[0] * e.u[1]],
                              [e.v[0] * e.x[0] + e.pt[0], e.z[0] * e.x[1] - e.pg[0] * e.u[0]]])]

    @staticmethod
    def g_z(e):
        return [e.z[0] - e.x[0] * e.u[1] - e.pg[0] * e.pt[0]]


class TwoSys(Model):
    """two systems with different numbers of regions and don't-care entries"""
    n_x, n_u, n_pg = 3, 1, 1
    x0 = [0.4, -0.3, 0.6]
    subs = [dict(c=lambda e: [e.x[0] * e.pg[0] - 0.1], S=[[1], [-1]],
                 F=lambda e: [[1 + e.u[0], e.x[0], 0.5 * e.x[2]], [e.x[1], -1.0 + 0 * e.x[0], e.u[0] * e.x[0]]]),
            dict(c=lambda e: [e.x[1] + 0.2, e.x[2] - e.x[0]], S=[[1, 0], [-1, 1], [-1, -1]],
                 F=lambda e: [[e.x[2], 2 * e.u[0], e.pg[0] * e.x[0]], [0.3 * e.x[0], e.x[1] * e.x[2], 1.0 + 0 * e.x[0]],
                              [-1.0 + 0 * e.x[0], e.u[0] * e.x[1], 0.7 * e.x[2]]])]


class Four(Model):
    """one system, two switching functions, four regions, time-varying parameter only"""
    n_x, n_pt = 2, 2
    x0 = [-0.2, 0.5]
    subs = [dict(c=lambda e: [e.x[0] + 0.1 * e.pt[1], e.x[1] * 1.5 - e.pt[0]], S=[[1, 1], [1, -1], [-1, 1], [-1, -1]],
                 F=lambda e: [[1 + e.x[1], e.pt[0] * e.x[0]], [e.x[0] * e.x[1], -2.0 + 0 * e.x[0]],
                              [e.pt[1] * e.x[1], 0.4 * e.x[0]], [-1.3 * e.x[0], e.x[0] + e.x[1]]])]


class GStewart(Model):
    """regions given by Stewart functions"""
    kind = 'stewart'
    pss = ('STEWART',)
    n_x, n_u, n_pg = 2, 1, 1
    x0 = [0.3, 0.8]
    subs = [dict(g=lambda e: [e.x[0], e.x[1] * e.pg[0], 0.5 - e.x[0] * e.x[1]],
                 F=lambda e: [[1 + e.u[0], e.x[0]], [-e.x[1], 0.5 * e.u[0]], [e.x[0] * e.x[1], -1.0 + 0 * e.x[0]]])]


class GStewart2(Model):
    """two systems given by Stewart functions, 3 and 2 regions"""
    kind = 'stewart'
    pss = ('STEWART',)
    n_x, n_v = 2, 1
    x0 = [0.3, 0.8]
    subs = [dict(g=lambda e: [e.x[0], 0.3 * e.x[1], 0.5 - e.x[0] * e.x[1]],
                 F=lambda e: [[1 + e.v[0], e.x[0]], [-e.x[1], 0.5 + 0 * e.x[0]], [e.x[0] * e.x[1], -1.0 + 0 * e.x[0]]]),
            dict(g=lambda e: [e.x[1], -0.4 * e.x[0]], F=lambda e: [[e.x[1], e.v[0]], [0.2 * e.x[0], -e.x[1] * e.x[0]]])]


class Incl(Model):
    """general inclusion, two switching functions entering nonlinearly"""
    kind = 'inclusion'
    pss = ('STEP',)
    n_x, n_u, n_pg = 2, 1, 1
    x0 = [0.5, -0.6]
    subs = [dict(c=lambda e: [e.x[0] - 0.1 * e.pg[0], e.x[1] + e.x[0]],
                 f=lambda e: [e.alpha[0][0] * e.alpha[0][1] * e.u[0] + e.x[1],
                              (1 - e.alpha[0][0]) * e.x[0] + 2 * e.alpha[0][1] - 1])]


class Incl2(Model):
    """general inclusion in two blocks"""
    kind = 'inclusion'
    pss = ('STEP',)
    n_x, n_pt = 3, 1
    x0 = [0.5, -0.6, 0.2]
    subs = [dict(c=lambda e: [e.x[0] - e.pt[0]], f=lambda e: [e.alpha[0][0] * e.x[1] - 1]),
            dict(c=lambda e: [e.x[1], e.x[2] + 0.3 * e.x[0]],
                 f=lambda e: [e.alpha[1][0] * e.x[2] + e.alpha[0][0], e.alpha[1][0] * e.alpha[1][1] - e.pt[0] * e.x[0]])]


class Clock(Model):
    """control, clock state, time-varying parameter"""
    n_x, n_u, n_pt = 3, 1, 1
    x0 = [0.4, -0.7, 0.25]
    subs = [dict(c=lambda e: [e.x[0] + 0.4 * e.x[1]], S=[[1], [-1]],
                 F=lambda e: [[e.u[0] * e.x[1], -1.0 + e.pt[0], 1.0 + 0 * e.x[0]], [e.x[0] * e.x[1], 2.0 + 0 * e.x[0], 0.0 * e.x[0]]])]

    @staticmethod
    def t_var(e):
        return e.x[2]


class ThreeSys(Model):
    """three systems: 2, 3 and 2 regions"""
    n_x = 3
    x0 = [0.4, -0.3, 0.6]
    subs = [dict(c=lambda e: [e.x[0]], S=[[1], [-1]],
                 F=lambda e: [[1 + e.x[1], e.x[0], 0.5 * e.x[2]], [e.x[1], -1.0 + 0 * e.x[0], e.x[0]]]),
            dict(c=lambda e: [e.x[1] + 0.2, e.x[2] - e.x[0]], S=[[1, 0], [-1, 1], [-1, -1]],
                 F=lambda e: [[e.x[2], 2 * e.x[0], e.x[0]], [0.3 * e.x[0], e.x[1] * e.x[2], 1.0 + 0 * e.x[0]],
                              [-1.0 + 0 * e.x[0], e.x[1], 0.7 * e.x[2]]]),
            dict(c=lambda e: [e.x[2]], S=[[-1], [1]],
                 F=lambda e: [[e.x[1], 0.0 * e.x[0], e.x[2]], [-e.x[0], e.x[1] * e.x[1], 1 + 0 * e.x[0]]])]


class TwoSysD(TwoSys):
    """TwoSys with a switching matrix without don't-care entries (Stewart mode refuses zeros): 2 and 4 regions"""
    subs = [TwoSys.subs[0],
            dict(c=TwoSys.subs[1]['c'], S=[[1, 1], [-1, 1], [-1, -1], [1, -1]],
                 F=lambda e: TwoSys.subs[1]['F'](e) + [[0.2 + e.x[1], e.x[0], -0.6 * e.x[1] * e.x[2]]])]


class ThreeSysD(ThreeSys):
    """2, 4 and 2 regions"""
    subs = [ThreeSys.subs[0],
            dict(c=ThreeSys.subs[1]['c'], S=[[1, 1], [-1, 1], [-1, -1], [1, -1]],
                 F=lambda e: ThreeSys.subs[1]['F'](e) + [[0.2 + e.x[1], e.x[0], -0.6 * e.x[1] * e.x[2]]]),
            ThreeSys.subs[2]]


class SimZ(Model):
    """no controls, algebraic state, global parameters, two systems"""
    n_x, n_z, n_pg = 2, 1, 2
    x0 = [0.6, -0.8]
    z0 = [0.3]
    subs = [dict(c=lambda e: [e.x[0] - 0.1 * e.pg[1]], S=[[1], [-1]],
                 F=lambda e: [[1 + e.z[0], e.x[0]], [e.x[1] * e.pg[0], -1.0 + 0 * e.x[0]]]),
            dict(c=lambda e: [e.x[1] * e.pg[0] + 0.05], S=[[-1], [1]],
                 F=lambda e: [[e.x[1], e.z[0]], [0.2 * e.x[0], -e.x[1] * e.x[0]]])]

    @staticmethod
    def g_z(e):
        return [e.z[0] - e.x[0] * e.x[1] + e.pg[1]]


class ZSwitch(Model):
    """switching function of an algebraic state: the initial multipliers need a consistent z"""
    n_x, n_z, n_pt, n_pg = 2, 1, 1, 1
    x0 = [0.6, -0.8]
    z0 = [0.3]
    subs = [dict(c=lambda e: [e.z[0] + 0.2 * e.pt[0]], S=[[1], [-1]],
                 F=lambda e: [[1 + e.z[0], e.x[0]], [e.x[1], -1.0 + 0 * e.x[0]]])]

    @staticmethod
    def g_z(e):
        return [2.0 * e.z[0] - e.x[0] + 0.5 * e.x[1] - 0.3 * e.pg[0]]


def _signs(n):
    return [list(s) for s in itertools.product([1, -1], repeat=n)]


class Big(Model):
    """five systems (2, 8, 2, 4 and 2 regions), several of everything"""
    n_x, n_u, n_z, n_pt, n_pg, n_v = 5, 4, 4, 4, 4, 4
    x0 = [0.4, -0.3, 0.6, -0.7, 0.5]
    z0 = [0.2, -0.1, 0.3, 0.15]
    subs = [dict(c=lambda e: [e.x[0] - 0.1 * e.pt[3]], S=[[-1], [1]],
                 F=lambda e: [[1 + e.x[1], e.u[0], 0.5 * e.x[2], e.z[3], e.v[3]], [e.x[1], -1.0 + e.pg[3], e.x[0], e.u[3], e.z[0]]]),
            dict(c=lambda e: [e.x[1] + 0.2, e.x[2] - e.x[0], e.x[4] * e.pg[2] - 0.3], S=_signs(3),
                 F=lambda e: [[0.3 * k + e.x[k % 5], e.u[k % 4] * (1 + k), e.z[(k + 1) % 4] - 0.2 * k, e.pt[k % 4] + e.x[(k + 2) % 5], 0.1 * k * e.v[k % 4]] for k in range(8)]),
            dict(c=lambda e: [e.x[2] + 0.1 * e.pg[0]], S=[[-1], [1]],
                 F=lambda e: [[e.x[1], 0.0 * e.x[0], e.x[2], 1.0 + e.z[1], e.u[2]], [-e.x[0], e.x[1] * e.x[1], 1 + e.v[1], e.x[3], e.pt[1]]]),
            dict(c=lambda e: [e.x[3], e.x[4] + e.x[0] * e.x[1]], S=_signs(2)[::-1],
                 F=lambda e: [[0.7 * k - e.x[(k + 3) % 5], e.v[(k + 1) % 4], e.z[k % 4], e.u[(k + 1) % 4] * e.x[k], 1.0 + 0.2 * k] for k in range(4)]),
            dict(c=lambda e: [e.x[4] - 0.2 * e.pt[0]], S=[[1], [-1]],
                 F=lambda e: [[0.1 + 0 * e.x[0], e.x[4], e.pg[1], e.x[0], e.u[1]], [e.x[2], e.z[2], e.v[2], -e.x[3], e.x[1]]])]

    @staticmethod
    def g_z(e):
        return [e.z[i] * (1.5 + 0.2 * i) - e.x[i] * e.x[(i + 1) % 5] + e.pg[i] - 0.1 * e.u[i] * e.pt[3 - i] for i in range(4)]


class BigSim(Model):
    """simulation (no controls) with four systems (2, 4, 2 and 2 regions), four parameters"""
    n_x, n_z, n_pg = 4, 2, 4
    x0 = [0.45, -0.35, 0.65, -0.2]
    z0 = [0.3, -0.15]
    subs = [dict(c=lambda e: [e.x[0] - 0.1 * e.pg[3]], S=[[1], [-1]],
                 F=lambda e: [[1 + e.z[0], e.x[0], e.pg[2], e.x[3]], [e.x[1] * e.pg[0], -1.0 + 0 * e.x[0], e.x[2], e.z[1]]]),
            dict(c=lambda e: [e.x[1] + 0.1, e.x[2] * e.pg[1] - 0.05], S=_signs(2),
                 F=lambda e: [[0.3 * k - e.x[k], e.z[k % 2], e.x[(k + 1) % 4] * e.pg[k], 1.0 - k] for k in range(4)]),
            dict(c=lambda e: [e.x[3] + 0.05], S=[[-1], [1]],
                 F=lambda e: [[e.x[1], e.z[0], 0.2 + e.x[2], e.pg[3]], [0.2 * e.x[0], -e.x[1] * e.x[0], e.x[3], 1 + e.z[1]]]),
            dict(c=lambda e: [e.x[2] - e.x[0] * e.pg[0]], S=[[1], [-1]],
                 F=lambda e: [[0.1 * e.x[3], e.pg[1], e.z[0], -1 + e.x[0]], [e.x[2], 0.4 + e.x[1], e.x[0], e.pg[2]]])]

    @staticmethod
    def g_z(e):
        return [e.z[0] - e.x[0] * e.x[1] + e.pg[1], 1.3 * e.z[1] - e.x[2] + 0.2 * e.pg[3] * e.x[3]]


class BigG(Model):
    """indicator functions: systems with 5, 2, 3 and 6 regions"""
    kind, pss = 'stewart', ('STEWART',)
    n_x, n_u, n_pt, n_pg = 4, 3, 3, 3
    x0 = [0.45, -0.35, 0.65, -0.2]
    subs = [dict(g=lambda e, n=n, s=s: [0.1 * k * e.pt[k % 3] + (1 + 0.3 * k) * e.x[(k + s) % 4] - (k - 1) * e.pg[s % 3] for k in range(n)],
                 F=lambda e, n=n, s=s: [[0.2 * k + e.x[(k + s) % 4], e.u[k % 3] - s, (k - 2) * e.x[s], e.pg[(k + s) % 3] * e.x[k % 4]] for k in range(n)])
            for s, n in enumerate((5, 2, 3, 6))]


MODELS = {c.__name__: c() for c in (Big, BigSim, BigG, Plain, Const, Full, TwoSys, Four, GStewart, GStewart2, Incl, Incl2, Clock, ThreeSys, SimZ, ZSwitch, TwoSysD, ThreeSysD)}
# what takes the place of a model with don't-care entries in Stewart mode
DENSE = {'TwoSys': 'TwoSysD', 'ThreeSys': 'ThreeSysD'}


# ---------------------------------------------------------------------------------------------
class Ocp:
    """An OCP description: set of features out of
    bounds, guess, cost, path, path_eq, term, comp_rk, comp_ctrl, comp_glob, bare (the plainest possible expressions),
    pair:a,b (one complementarity pair whose factors depend on one kind of symbol each)"""

    def __init__(self, model, feats):
        self.m, self.feats = model, frozenset(feats)
        m, F = model, self.feats
        if 'bounds' in F:
            self.lbx = [-4.0 - i for i in range(m.n_x)]
            self.ubx = [6.0 + i for i in range(m.n_x)]
            self.lbu = [-2.0 - i for i in range(m.n_u)]
            self.ubu = [2.5 + i for i in range(m.n_u)]
            self.lbv = [-1.0 - i for i in range(m.n_v)]
            self.ubv = [1.5 + i for i in range(m.n_v)]
        else:
            inf = np.inf
            self.lbx, self.ubx = [-inf] * m.n_x, [inf] * m.n_x
            self.lbu, self.ubu = [-inf] * m.n_u, [inf] * m.n_u
            self.lbv, self.ubv = [-inf] * m.n_v, [inf] * m.n_v
        if 'guess' in F:
            self.u_guess = [0.11 + 0.2 * i for i in range(m.n_u)]
            self.v_guess = [0.27 + 0.2 * i for i in range(m.n_v)]
        else:
            self.u_guess, self.v_guess = [0.0] * m.n_u, [0.0] * m.n_v

    @staticmethod
    def mix(e, a, b):
        """small polynomial in everything but x and z; a, b: coefficients making terms distinct"""
        t = 0.0
        for i, ui in enumerate(e.u):
            t = t + (a + i) * ui
        for i, pi in enumerate(e.pt):
            t = t + (b + i) * pi * (e.u[0] if len(e.u) else 1.0)
        return t + Ocp.mixp(e, a, b)

    @staticmethod
    def mixp(e, a, b):
        t = 0.0
        for i, pi in enumerate(e.pg):
            t = t + (0.3 * a + i) * pi
        for i, vi in enumerate(e.v):
            t = t + (0.7 * b + i) * vi
        return t

    # list-valued / scalar-valued expressions
    def f_q(self, e):
        if 'bare' in self.feats:
            return e.x[-1]
        return 1.3 + e.x[0] * e.x[0] + 0.4 * e.x[-1] + self.mix(e, 0.8, 1.1) * (1 + e.x[0])

    def f_T(self, e):
        if 'bare' in self.feats:
            return e.x[0]
        t = 2.1 * e.x[0] * e.x[-1]
        for i, pi in enumerate(e.pt):
            t = t + (0.9 + i) * pi
        return t + self.mixp(e, 1.7, 0.6) * e.x[0]

    def g_path(self, e):
        if 'bare' in self.feats:
            return self.bare(e, ('x', 'u', 'pt', 'v'))
        return [e.x[0] + self.mix(e, 1.2, 0.5), e.x[-1] * e.x[0] - 0.3 * self.mix(e, 0.6, 2.0)]

    @staticmethod
    def bare(e, kinds):
        """rows that are a single symbol"""
        return [getattr(e, k)[-1] for k in kinds if len(getattr(e, k))]

    def path_bounds(self):
        if 'bare' in self.feats:
            n = len(self.bare(E.ones(self.m), ('x', 'u', 'pt', 'v')))
            return ([0.0] * n, [0.0] * n) if 'path_eq' in self.feats else ([-0.7 - i for i in range(n)], [2.3 + i for i in range(n)])
        if 'path_eq' in self.feats:
            return [0.0, 0.0], [0.0, 0.0]
        return [-np.inf, -0.7], [1.9, 2.3]

    def g_term(self, e):
        if 'bare' in self.feats:
            return self.bare(e, ('x', 'v', 'pt'))
        t = 0.0
        for i, pi in enumerate(e.pt):
            t = t + (1.9 + i) * pi
        return [e.x[0] * 1.4 - 0.2 + t, e.x[-1] * e.x[0] + self.mixp(e, 0.4, 0.9)]

    def comps(self, e):
        """dict kind -> list of pairs"""
        m, F, out = self.m, self.feats, {'rk': [], 'ctrl': [], 'glob': []}
        if 'comp_rk' in F:
            out['rk'].append((e.x[0] + 0.2 * self.mix(e, 1., 1.), 1.1 + e.x[-1] * self.mixp(e, 1, 1)))
            if m.n_z:
                out['rk'].append((e.z[0] * 1.2, 0.3 + self.mix(e, 0.2, 0.1)))
            if m.n_u:
                out['rk'].append((e.u[0] + 0.6, e.x[0] * 1.4))
        if 'comp_ctrl' in F and m.n_u:
            out['ctrl'].append((e.u[0] * 1.3 + self.mixp(e, 1., 1.), 0.4 + self.mix(e, 2., 1.)))
            out['ctrl'].append((e.u[-1] + 0.1, 2.0 + 0.0 * e.u[0]))
        if 'comp_ctrl' in F and m.n_pt:
            out['ctrl'].append((e.pt[0] + 0.3, 0.9 + self.mixp(e, 0.7, 1.)))
        if 'comp_glob' in F and m.n_v:
            out['glob'].append((e.v[0] + 0.15, 1.2 + self.mixp(e, 1., 1.4)))
            out['glob'].append((e.v[0] * e.v[0], 0.8 * e.v[0]))
        if 'comp_glob' in F and m.n_pg:
            out['glob'].append((e.pg[0] * 1.6, 0.5 + self.mixp(e, 0.5, 0.2)))
        for f in sorted(F):
            if f.startswith('pair:'):
                a, b = f[5:].split(',')
                k = self.pair_level(f)
                out[k].append((self.factor(e, a, 1.3), self.factor(e, b, 0.7)))
        return out

    @staticmethod
    def pair_level(f):
        s = set(f[5:].split(','))
        return 'rk' if s & {'x', 'z'} else 'ctrl' if s & {'u', 'pt'} else 'glob'

    @staticmethod
    def factor(e, kind, c):
        """the plainest factor that depends on this kind of symbol"""
        return c if kind == 'const' else getattr(e, kind)[0 if c > 1 else -1]

    def build(self):
        """to be called after model.build()"""
        m, F = self.m, self.feats
        e, kw = m.e, {}
        if 'bounds' in F:
            kw.update(lbx=np.array(self.lbx), ubx=np.array(self.ubx))
            if m.n_u:
                kw.update(lbu=np.array(self.lbu), ubu=np.array(self.ubu))
            if m.n_v:
                kw.update(lbv_global=np.array(self.lbv), ubv_global=np.array(self.ubv))
        if 'guess' in F:
            if m.n_u:
                kw['u_guess'] = np.array(self.u_guess)
            if m.n_v:
                kw['v_global_guess'] = np.array(self.v_guess)
        if 'cost' in F:
            kw.update(f_q=self.f_q(e), f_terminal=self.f_T(e))
        if 'constcost' in F:
            kw.update(f_q=ca.SX(1.0))
        if 'path' in F or 'path_eq' in F:
            lb, ub = self.path_bounds()
            kw['g_path'] = ca.vertcat(*self.g_path(e))
            if 'path_eq' not in F:
                kw.update(lbg=np.array(lb), ubg=np.array(ub))
        if 'term' in F:
            kw['g_terminal'] = ca.vertcat(*self.g_term(e))
        pairs = [p for k in ('glob', 'rk', 'ctrl') for p in self.comps(e)[k]]
        if pairs:
            kw['g_path_comp'] = ca.vertcat(*[ca.horzcat(a, b) for a, b in pairs])
        return nosnoc.NosnocOcp(**kw)
