"""C18: all interleavings of independently written programs that use nosnoc in one process, and all
re-uses of an options object."""
import copy
import itertools
import multiprocessing as mp
import os
import numpy as np
import casadi as ca
from . import env, trans, space
from .driver import pmap, jsonable
from .models import MODELS, Ocp
from .results import vec
from .trans import cfg_of, make_opts, supported
from .transcheck import describe, vkey

nosnoc = env.nosnoc


def fingerprint(solver, fake):
    """everything the NLP solver was created with, as numbers and plain data"""
    nx, npar = fake.nlp['x'].shape[0], fake.nlp['p'].shape[0]
    fg = ca.Function('fg', [fake.nlp['x'], fake.nlp['p']], [fake.nlp['f'], fake.nlp['g']])
    vals = []
    for s in (1, 2):
        f, g = fg(0.3 + 0.9 * np.modf(np.arange(nx) * 0.618034 * s)[0], 0.4 + 0.8 * np.modf(np.arange(npar) * 0.7548777 * s)[0])
        vals += [float(f)] + g.full().flatten().tolist()
    pr = solver.problem
    maps = {k: jsonable(getattr(pr, k)) for k in ('ind_x', 'ind_theta', 'ind_lam', 'ind_alpha', 'ind_h', 'ind_u', 'ind_z', 'ind_sot', 'ind_v_global')}
    return dict(name=fake.name, plugin=fake.plugin, opts=copy.deepcopy(fake.opts), nx=nx, np=npar, values=vals, maps=maps)


def snap_call(cl):
    return {k: np.array(v).tolist() for k, v in cl.items()}


RES = ('x_out', 'x_list', 'x_traj', 'u_list', 'theta_list', 'lambda_list', 'alpha_list', 't_grid', 'switch_times', 'w_sol', 'cost_val', 'v_global')


def snap_res(r):
    return {k: vec(r[k]).tolist() for k in RES} | {'status': str(r['status']), 'nlp_iter': r['nlp_iter']}


class Program:
    """A user program as a list of atomic steps; `log` is everything it observes."""

    def __init__(self, spec):
        self.spec, self.log = spec, []
        self.c = cfg_of(**spec['cfg'])
        self.m = type(MODELS[self.c['model']])()   # own specification object, own symbols
        self.steps = [getattr(self, s) for s in spec['steps']]

    def options(self):
        self.o = make_opts(self.c)
        for k, v in self.spec.get('set', {}).items():
            if k.startswith('ipopt.'):
                self.o.opts_casadi_nlp['ipopt'][k[6:]] = v
            elif k.startswith('nlp.'):
                self.o.opts_casadi_nlp[k[4:]] = v
            else:
                setattr(self.o, k, v)

    def model(self):
        self.mod = self.m.build(self.c['N'])
        self.ocp = Ocp(self.m, self.c['ocp']).build() if self.c['ocp'] else None

    def construct(self):
        self.s = nosnoc.NosnocSolver(self.o, self.mod, self.ocp)
        self.fake = env.last_solver()
        self.fake.script = lambda k, rec: {'x': 0.25 + 0.003 * k + 0.0021 * np.arange(len(rec['x0']))}
        self.log.append(fingerprint(self.s, self.fake))

    def put(self):
        self.s.set('x0', np.array(self.m.x0) * 1.25 + 0.05)
        if self.m.n_pg:
            self.s.set('p_global', 0.9 + 0.1 * np.arange(self.m.n_pg))
        if self.m.n_u:
            self.s.set('u', 0.33 + 0.1 * np.arange(self.m.n_u * self.c['N']).reshape(self.c['N'], self.m.n_u))

    def solve(self):
        n = len(self.fake.calls)
        r = self.s.solve()
        self.log.append([snap_call(c) for c in self.fake.calls[n:]])
        self.log.append(snap_res(r))
        if not hasattr(self, 'first_call'):
            self.first_call = snap_call(self.fake.calls[n])
        self.held = (r, snap_res(r))

    def loop(self):
        lo = nosnoc.NosnocSimLooper(self.s, np.array(self.m.x0) * 0.9, 2)
        n = len(self.fake.calls)
        lo.run()
        r = lo.get_results()
        self.log.append([snap_call(c) for c in self.fake.calls[n:]])
        self.log.append({k: vec(r[k]).tolist() for k in ('X_sim', 't_grid', 'w_sim', 'cost_vals', 'switch_times')} | {'status': [str(q) for q in r['status']]})

    def reuse(self):
        """changes the options and builds a second solver with a fresh model"""
        self.o.N_finite_elements = 3
        self.o.comp_tol = 1e-5
        self.o.n_s = 1
        self.m = type(MODELS[self.c['model']])()
        self.model()
        self.construct()

    def values(self):
        """sets everything but x0, which is stored in the model of the user"""
        if self.m.n_pg:
            self.s.set('p_global', 0.8 + 0.1 * np.arange(self.m.n_pg))
        if self.m.n_pt:
            self.s.set('p_time_var', 0.7 + 0.1 * np.arange(self.m.n_pt * self.c['N']).reshape(self.c['N'], self.m.n_pt))
        if self.m.n_u:
            self.s.set('u', 0.43 + 0.1 * np.arange(self.m.n_u * self.c['N']).reshape(self.c['N'], self.m.n_u))
        if self.m.n_v:
            self.s.set('v_global', 0.21 + 0.1 * np.arange(self.m.n_v))

    def again(self):
        """a second solver from the same model and OCP objects and equal options: everything it hands to the
        NLP solver equals what the first one handed over before anything was set"""
        self.options()
        self.construct()
        first, second = [e for e in self.log if isinstance(e, dict) and 'plugin' in e][-2:]
        d = first_diff(second, first, 'rebuilt')
        self.s.solve()
        d = d or first_diff(snap_call(self.fake.calls[0]), self.first_call, 'first NLP call after rebuilding')
        self.log.append(dict(again=d))

    def check(self):
        if hasattr(self, 'held'):
            self.log.append(dict(held_unchanged=self.held[1] == snap_res(self.held[0])))
        self.log.append(jsonable({k: v for k, v in vars(self.o).items() if not k.startswith('_')}))


def run_schedule(specs, order):
    progs = [Program(s) for s in specs]
    pos = [0] * len(progs)
    with env.quiet():
        for i in order:
            progs[i].steps[pos[i]]()
            pos[i] += 1
    return [p.log for p in progs]


S6 = ('options', 'model', 'construct', 'put', 'solve', 'check')
S5 = ('options', 'model', 'construct', 'solve', 'check')
S7 = ('options', 'model', 'construct', 'put', 'solve', 'reuse', 'solve')
SPEC = {
    'plain': dict(cfg=dict(model='Plain', n_s=2), steps=S5),
    'plain-tol': dict(cfg=dict(model='Plain', n_s=2), steps=S5, set={'tol_ipopt': 3e-7, 'nlp_max_iter': 77, 'ipopt.print_level': 5, 'comp_tol': 1e-6}),
    'plain-tol2': dict(cfg=dict(model='Plain', n_s=2), steps=S5, set={'comp_tol': 1e-4, 'nlp.print_time': 1, 'ipopt.linear_solver': 'mumps'}),
    'ocp': dict(cfg=dict(model='Full', N=2, Nfe=(1, 2), n_s=1, ocp=('cost', 'bounds', 'guess', 'path', 'term')), steps=S5),
    'ocp-put': dict(cfg=dict(model='Full', N=2, Nfe=(2, 2), n_s=1, ocp=('cost', 'bounds')), steps=('options', 'model', 'construct', 'put', 'solve')),
    'prev': dict(cfg=dict(model='SimZ', Nfe=(2,), n_s=1, init='ALL_XCURRENT_WOPT_PREV'), steps=('options', 'model', 'construct', 'solve', 'put', 'solve')),
    'loop': dict(cfg=dict(model='SimZ', Nfe=(2,), n_s=1), steps=('options', 'model', 'construct', 'loop', 'check')),
    'step': dict(cfg=dict(model='TwoSys', pss='STEP', Nfe=(2,), n_s=1, scheme='GAUSS_LEGENDRE'), steps=S5),
    'reuse': dict(cfg=dict(model='Plain', Nfe=(2,)), steps=('options', 'model', 'construct', 'reuse', 'solve')),
    'nocp': dict(cfg=dict(model='Four', Nfe=(2,), n_s=1), steps=S5),
    'sot': dict(cfg=dict(model='Clock', N=2, Nfe=(1, 1), sot='LOCAL', tf=True, n_s=1), steps=S5),
    'again': dict(cfg=dict(model='Four', N=2, Nfe=(1, 2), n_s=1), steps=('options', 'model', 'construct', 'solve', 'values', 'again')),
    'again-ocp': dict(cfg=dict(model='Full', N=2, Nfe=(1, 2), n_s=1, ocp=('cost', 'bounds', 'guess', 'path', 'term', 'comp_rk', 'comp_glob'), init='ALL_XCURRENT_WOPT_PREV'),
                      steps=('options', 'model', 'construct', 'solve', 'values', 'again')),
    'again-glob': dict(cfg=dict(model='SimZ', Nfe=(2,), n_s=1), steps=('options', 'model', 'construct', 'solve', 'values', 'again')),
    'big': dict(cfg=dict(model='Big', N=5, Nfe=(1, 2, 1, 1, 1), n_s=1), steps=S5),
    'six': dict(cfg=dict(model='SimZ', n_s=1), steps=S6, set={'tol_ipopt': 1e-5}),
    'seven': dict(cfg=dict(model='Plain', n_s=1), steps=S7, set={'nlp_max_iter': 11}),
}


def _solo(spec, q):
    try:
        q.send(run_schedule([spec], [0] * len(spec['steps']))[0])
    except Exception as e:
        q.send(f'{type(e).__name__}: {e}')


def solo(spec):
    """in a process that has done nothing else"""
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_solo, args=(spec, b))
    p.start()
    r = a.recv() if a.poll(60) else 'no answer'
    p.join()
    return r


def interleavings(lens):
    total = sum(lens)

    def rec(pos):
        if sum(pos) == total:
            yield ()
            return
        for i in range(len(lens)):
            if pos[i] < lens[i]:
                p2 = list(pos)
                p2[i] += 1
                for r in rec(p2):
                    yield (i,) + r
    yield from rec([0] * len(lens))


BASE = {}


def first_diff(a, b, path=''):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f'{path}: {str(a)[:80]} instead of {str(b)[:80]}'
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f'{path}.{k} missing'
        for k in a:
            if k not in b:
                return f'{path}.{k} = {str(a[k])[:60]} is new'
            d = first_diff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} instead of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(a, float) or isinstance(b, float):
        return None if a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * (1 + abs(b)) else f'{path}: {a} instead of {b}'
    return None if a == b else f'{path}: {str(a)[:80]} instead of {str(b)[:80]}'


def task(it):
    if it[0] == 'reuse':
        return task_reuse(it[1:])
    names, orders = it[1:]
    out, n, tr = [], 0, 0
    for order in orders:
        try:
            logs = trans.with_timeout(60.0, run_schedule, [SPEC[x] for x in names], order)
            d = None
            for i, (x, lg) in enumerate(zip(names, logs)):
                if isinstance(BASE[x], str):
                    d = f'alone: {BASE[x]}'
                else:
                    d = first_diff(lg, BASE[x], f'program {i} ({x})')
                    d = d or next((f'program {i} ({x}): {e["again"]}' for e in lg if isinstance(e, dict) and e.get('again')), None)
                if d:
                    break
        except Exception as e:
            d = f'{type(e).__name__}: {e}'
        n += 1
        tr += len(order)
        if d:
            out.append((order, d))
            if len(out) > 1:
                break
    return out, n, tr


def plan_pairs(q):
    P = [('plain', 'plain-tol'), ('plain-tol', 'plain-tol2'), ('plain', 'ocp'), ('ocp', 'ocp'), ('plain-tol2', 'step'), ('reuse', 'plain'),
         ('loop', 'nocp'), ('loop', 'loop'), ('ocp', 'ocp-put'), ('prev', 'prev'), ('sot', 'plain-tol'), ('reuse', 'plain-tol'), ('nocp', 'step'), ('prev', 'loop'),
         ('again', 'plain'), ('again-ocp', 'again'), ('again-glob', 'loop'), ('big', 'ocp')]
    if not q:
        P = [tuple(p) for p in itertools.combinations_with_replacement([k for k in SPEC if k not in ('six', 'seven')], 2)]
        P += [('six', 'plain-tol'), ('seven', 'plain-tol'), ('seven', 'six')]
    for p in P:
        orders = list(interleavings([len(SPEC[x]['steps']) for x in p]))
        for i in range(0, len(orders), 32):
            yield ('pair',) + (p, orders[i:i + 32])
    if not q:
        p = ('plain', 'plain-tol', 'ocp')
        orders = [o for o in interleavings([5, 5, 5]) if switches(o) <= 6]
        for i in range(0, len(orders), 64):
            yield ('pair',) + (p, orders[i:i + 64])


def switches(o):
    return sum(a != b for a, b in zip(o, o[1:]))


# re-use of an options object -----------------------------------------------------------------------
RCFG = [dict(), dict(Nfe=(3,)), dict(N=2, Nfe=(2, 2)), dict(N=2, Nfe=(1, 3)), dict(N=3, Nfe=(1, 2, 1)), dict(n_s=1), dict(n_s=3), dict(scheme='GAUSS_LEGENDRE'),
        dict(rep='DIFFERENTIAL'), dict(rep='DIFFERENTIAL_LIFT_X', scheme='GAUSS_LEGENDRE', n_s=3), dict(pss='STEP'), dict(fesd=False), dict(T=0.6),
        dict(mpcc='SCHOLTES_EQ'), dict(mpcc='ELASTIC_INEQ'), dict(se='L2_RELAXED'), dict(se='DIRECT'), dict(sigma0=2.5), dict(sot='LOCAL', N=2, Nfe=(1, 2)),
        dict(sot='GLOBAL'), dict(cross='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'), dict(gamma=0.0), dict(equi=False, N=2, Nfe=(2, 1)),
        dict(init='EXTERNAL'), dict(mpcc='SCHOLTES_EQ', lsq=True), dict(rho=0.4), dict(path_fe=True, path_stg=True)]
EXTRA = [dict(), dict(comp_tol=1e-5), dict(comp_tol=1e-5, tol_ipopt=1e-9), dict(sigma_N=1e-4, sigma_0=10.0), dict(homotopy_update_slope=0.5), dict(nlp_max_iter=9),
         dict(do_polishing_step=True), dict(fix_active_set_fe0=True), dict(do_polishing_step=True, fix_active_set_fe0=True), dict(print_level=3),
         dict(homotopy_update_rule=nosnoc.HomotopyUpdateRule.SUPERLINEAR, homotopy_update_exponent=2.0), dict(objective_scaling_direct=False),
         dict(s_elastic_0=0.5, s_elastic_max=3.0, s_elastic_min=0.1), dict(smoothing_parameter=0.2), dict(time_freezing_tolerance=0.3), dict(print_level=0),
         dict(debug_plot=False, h_fixed_max_iter=3) if hasattr(nosnoc.NosnocOpts(), 'h_fixed_max_iter') else dict(terminal_time=0.9)]


def raw(i, j):
    c = cfg_of(model='Full' if True else '', **RCFG[i])
    o = make_opts(c)
    o.max_iter_homotopy = 0
    for k, v in EXTRA[j].items():
        setattr(o, k, v)
    return c, o


def final(c, o):
    m = type(MODELS['Full'])()
    with env.quiet():
        mod = m.build(c['N'])
        ocp = Ocp(m, ('cost', 'path_eq')).build()
        s = nosnoc.NosnocSolver(o, mod, ocp)
        f = env.last_solver()
        f.script = lambda k, rec: {'x': 0.4 + 0.001 * np.arange(len(rec['x0']))}
        r = s.solve()
    return [fingerprint(s, f), [snap_call(x) for x in f.calls], snap_res(r), jsonable({k: v for k, v in vars(o).items() if not k.startswith('_')})]


_fresh = {}


def task_reuse(it):
    (i, j), targets = it
    out, n, tr = [], 0, 0
    for (i2, j2) in targets:
        try:
            if (i2, j2) not in _fresh:
                _fresh[(i2, j2)] = solo_reuse(i2, j2)
            fresh = _fresh[(i2, j2)]
            d = None
            if isinstance(fresh, str):
                d = f'a fresh problem cannot be built: {fresh}'
            else:
                c, o = raw(i, j)
                final(c, o)
                c2, o2 = raw(i2, j2)
                c1, o1 = raw(i, j)
                for k, v in vars(o2).items():
                    if k == 'opts_casadi_nlp' or k.startswith('_'):
                        continue
                    if k not in vars(o1) or vars(o1)[k] != v:
                        setattr(o, k, copy.deepcopy(v))
                for k in ('tol_ipopt', 'nlp_max_iter'):
                    if getattr(o1, k) != getattr(o2, k):
                        setattr(o, k, getattr(o2, k))
                got = final(c2, o)
                # leftovers of tableaux of another representation are harmless
                for k in list(got[3]):
                    if k not in fresh[3] and k.endswith('_irk'):
                        got[3].pop(k)
                d = first_diff(got, fresh, 'rebuilt')
        except Exception as e:
            d = f'{type(e).__name__}: {e}'
        n += 1
        tr += 2
        if d:
            out.append((((i, j), (i2, j2)), d))
    return out, n, tr


def _solo_reuse(i, j, q):
    try:
        q.send(final(*raw(i, j)))
    except Exception as e:
        q.send(f'{type(e).__name__}: {e}')


def solo_reuse(i, j):
    if os.environ.get('VERIF_INPROC'):
        return final(*raw(i, j))
    # a separate process is not possible inside a pool worker; the worker that computes it first may have
    # built other problems, so the result is compared with the one of the parent at the end
    return FRESH[(i, j)]


FRESH = {}


def fresh_all(keys):
    ctx = mp.get_context('fork')
    for k in keys:
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_solo_reuse, args=(k[0], k[1], b))
        p.start()
        FRESH[k] = a.recv() if a.poll(60) else 'no answer'
        p.join()


def plan_reuse(q):
    keys = [(i, 0) for i in range(len(RCFG))] + [(0, j) for j in range(1, len(EXTRA))]
    if not q:
        keys += [(i, j) for i in (3, 7, 10, 14) for j in range(1, len(EXTRA))]
    return keys


def run(ck):
    ck.level = 'model_checking'
    for n in SPEC:
        BASE[n] = solo(SPEC[n])
    keys = plan_reuse(ck.quick)
    fresh_all(keys)
    items = list(plan_pairs(ck.quick)) + [('reuse', k, keys) for k in keys]
    cnt = dict(interleavings=0, reuses=0)

    def on(it, r):
        out, n, tr = r
        ck.states += tr
        ck.transitions += tr
        ck.traces += n
        cnt['reuses' if it[0] == 'reuse' else 'interleavings'] += n
        for order, d in out:
            if it[0] == 'reuse':
                nm = lambda k: f'{RCFG[k[0]]} {EXTRA[k[1]]}'
                ck.violation(vkey('C18', 'reuse ' + d), f'options object used for {nm(order[0])} and changed to {nm(order[1])}: {d}', dict(kind='c18r', it=order))
            else:
                ck.violation(vkey('C18', d), f'programs {it[1]}, schedule {"".join(map(str, order))}: {d}', dict(kind='c18', names=it[1], order=order))
        if it[0] == 'pair':
            ck.sample(dict(programs=it[1], schedule=''.join(map(str, it[2][-1]))))
    pmap(ck, task, items, on, chunk=1)
    ck.part('counts', **cnt)
    ck.rules.append('Model: every program observes exactly what it observes when it runs alone in a fresh process.  All interleavings of the atomic steps '
                    '(create options, create model and OCP, construct, set, solve, simulate, re-use options) of the listed pairs of programs are executed on the '
                    'real code and each program\'s observations (NLP values, index maps, NLP solver options, every NLP call, results, its options object) are '
                    'compared with its solo run; all ordered pairs of configurations are visited by one options object that is changed in between and '
                    'compared with a fresh one.  States: program positions visited.')


def replay(data):
    if data['kind'] == 'c18r':
        (a, b) = data['it']
        fresh_all([tuple(b)])
        return [d for _, d in task_reuse((tuple(a), [tuple(b)]))[0]]
    for n in set(data['names']):
        BASE[n] = solo(SPEC[n])
    return [d for _, d in task(('pair', data['names'], [tuple(data['order'])]))[0]]
