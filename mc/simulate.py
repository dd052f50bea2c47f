"""C23: simulations with the real NLP solver against the exact hybrid automaton."""
import contextlib
import itertools
import os
import numpy as np
from . import env, hybrid
from .driver import pmap
from .hybrid import Auto, HM, Ambiguous
from .tableau import nodes
from .trans import make_opts, cfg_of, supported, with_timeout
from .transcheck import describe, short, vkey

nosnoc = env.nosnoc
TOL = 1e-4          # state and switch times; the homotopy ends at a complementarity of 1e-9
COMP = 1e-9


@contextlib.contextmanager
def silent():
    """also without what casadi and IPOPT print"""
    null, keep = os.open(os.devnull, os.O_WRONLY), [os.dup(1), os.dup(2)]
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        for k, f in enumerate(keep):
            os.dup2(f, k + 1)
            os.close(f)
        os.close(null)


def simulate(c, x0, pts, nsim):
    """run the simulation loop; returns results, complementarity residual per step and final parameter"""
    m = HM[c['model']]
    with silent(), env.quiet(), env.real_nlpsol():
        model = m.build(1)
        model.x0 = np.array(x0, dtype=float)
        o = make_opts(c)
        o.comp_tol = COMP
        o.sigma_0 = 1.0
        o.max_iter_homotopy = 0
        o.print_level = 0
        o.opts_casadi_nlp['print_time'] = 0
        o.opts_casadi_nlp['ipopt']['print_level'] = 0
        o.opts_casadi_nlp['ipopt']['max_iter'] = 500
        o.opts_casadi_nlp['ipopt']['sb'] = 'yes'
        s = nosnoc.NosnocSolver(o, model, None)
        if m.n_pt:
            s.set('p_time_var', np.array([pts], dtype=float))
        comp, solve = [], s.solve

        def wrapped():
            r = solve()
            comp.append(float(s.problem.comp_res(r['w_sol'], s.p_val)))
            return r
        s.solve = wrapped
        L = nosnoc.NosnocSimLooper(s, np.array(x0, dtype=float), nsim)
        L.run()
        return L.get_results(), comp


def position(segs, t):
    """exact state at time t"""
    T = 0.0
    for mode, slide, x, v, a, d in segs:
        if t <= T + d + 1e-12:
            return x + v * (t - T) + a * (t - T)**2 / 2
        T += d
    mode, slide, x, v, a, d = segs[-1]
    t = d + (t - T)
    return x + v * t + a * t * t / 2


def fast(au, c, segs, pts):
    """accelerated flow: surfaces are only met with a speed at which no element can stay on the surface (the collocation
    equations of an element on the surface would admit a jump of the velocity of at most about half the acceleration times its length)"""
    for mode, slide, x, v, a, d in segs:
        for k in au.guards(mode, x, ([], list(pts))):
            g = lambda t: au.guards(mode, x + v * t + a * t * t / 2, ([], list(pts)))[k]
            if abs(g(0.0)) < 1e-9 and abs((g(1e-4) - g(-1e-4)) / 2e-4) < 3 * 2 * c['T'] / c['Nfe'][0]:
                return False
    return True


def task(it):
    c, x0, pts, nsim = it
    res = dict(ZERO, msg=[], key='other')
    au = Auto(HM[c['model']])
    try:
        segs, = au.run(x0, [(([], list(pts)), 1.0, c['T'] * nsim)])
    except Ambiguous:
        res['amb'] = 1
        return res
    if au.m.deg > 1 and not fast(au, c, segs, pts):
        res['amb'] = 1
        return res
    r, comp = simulate(c, x0, pts, nsim)
    res['runs'] = 1
    nfe = c['Nfe'][0]
    X, t = r['X_sim'], r['t_grid']
    if X.shape != (nsim * nfe + 1, len(x0)) or t.shape != (nsim * nfe + 1,):
        res['msg'].append(f'{X.shape} states, {t.shape} times')
        return res
    good = 0
    for st, cr in zip(r['status'], comp):
        if st != nosnoc.Status.SUCCESS or not cr <= 10 * COMP:
            break
        good += 1
    res['steps'], res['ok'] = nsim, good
    n = good * nfe
    at = f'x0={list(x0)}, parameters {list(pts)}, {good} of {nsim} steps succeed: '
    ends = np.cumsum([s[-1] for s in segs])[:-1]
    last = float(nodes(c['scheme'], c['n_s'])[-1])
    for k in range(n + 1):
        if k % nfe == 0 and abs(t[k] - k // nfe * c['T']) > 1e-6:
            res['msg'].append(at + f'step {k // nfe} ends at {t[k]}, requested {k // nfe * c["T"]}')
            return res
        if k and not t[k] >= t[k - 1] - 1e-7:
            res['msg'].append(at + f'element {k - 1} has length {t[k] - t[k - 1]}')
        e = np.max(np.abs(X[k] - position(segs, t[k])))
        # switches inside the element
        late = [s for s in ends if t[k - 1] + TOL < s < t[k] - TOL] if k else []
        if not e <= TOL or late:
            # a switch after the last Gauss-Legendre stage of the last element of a horizon is not seen by the NLP
            if k and k % nfe == 0 and c['scheme'] == 'GAUSS_LEGENDRE' and late and late[0] > t[k - 1] + last * (t[k] - t[k - 1]) - TOL:
                res['gl'] = 1
                res['key'] = 'GAUSS_LEGENDRE:switch after the last stage of the horizon'
            if late:
                res['msg'].append(at + f'switch at t={late[0]} inside the element from {t[k - 1]} to {t[k]}, state {X[k].tolist()}, exact {position(segs, t[k]).tolist()}')
            else:
                res['msg'].append(at + f'state at t={t[k]} is {X[k].tolist()}, exact {position(segs, t[k]).tolist()}')
            return res
        res['err'] = max(res['err'], float(e))
        res['switches'] += bool(k) and any(abs(s - t[k]) <= TOL for s in ends)
    return res


def grid(name, q):
    X = hybrid.x_grid(name, True)
    P = {'HRamp': [], 'HSlide': [[0.0], [0.5], [2.0], [-2.0]], 'HTwo': [[0.5, 0.3], [-0.4, 0.6]], 'HIncl': [[0.0], [0.5], [2.0]], 'HG2': [[0.0], [0.4], [2.0]]}.get(name, [[]])
    return [(x, p) for x in X for p in P]


NAMES = ('HSlide', 'HSpiral', 'HTwo', 'HBounce', 'HIncl', 'HCare', 'HG', 'HG2')


def plans(q):
    seen = set()

    def emit(part, names, nsim, **axes):
        for name in names:
            for pss in HM[name].pss:
                for vals in itertools.product(*axes.values()):
                    kw = dict(zip(axes, vals))
                    c = cfg_of(**{**dict(model=name, pss=pss, N=1, T=0.15 if name == 'HBounce' else 0.3, gamma=1.0, se='HEURISTIC_MEAN'), **kw})
                    if supported(c) is not None or (HM[name].deg > 1 and c['n_s'] == 1):
                        continue
                    for x0, p in grid(name, q):
                        k = str((sorted(c.items()), x0, p))
                        if k not in seen:
                            seen.add(k)
                            yield part, c, x0, p, nsim
    yield from emit('schemes', NAMES, 4, scheme=hybrid.SCHEME, n_s=[2] if q else [1, 2, 3, 4], rep=hybrid.REP if not q else ['DIFFERENTIAL', 'INTEGRAL'], cross=hybrid.CROSS, Nfe=[(2,)])
    yield from emit('stages', NAMES if not q else NAMES[:3], 4, scheme=hybrid.SCHEME, n_s=[1, 3], cross=hybrid.CROSS[1:], Nfe=[(2,)])
    yield from emit('elements', NAMES if not q else ('HSlide', 'HTwo', 'HSpiral'), 2, scheme=hybrid.SCHEME, n_s=[2], cross=hybrid.CROSS[:1] if q else hybrid.CROSS, Nfe=[(3,), (4,)] if not q else [(3,)], T=[0.6])
    yield from emit('modes', ('HSlide',) if q else ('HSlide', 'HTwo', 'HIncl', 'HSpiral'), 3, n_s=[2], scheme=hybrid.SCHEME[:1] if q else hybrid.SCHEME, cross=hybrid.CROSS, mpcc=[m for m in hybrid.MPCC if m != 'BOOLEAN'], Nfe=[(2,)])
    yield from emit('step equilibration', ('HSlide',) if q else ('HSlide', 'HTwo', 'HIncl', 'HSpiral'), 3, n_s=[2], scheme=hybrid.SCHEME, se=hybrid.SE, Nfe=[(2,), (3,)] if not q else [(3,)], T=[0.5])


ZERO = dict(runs=0, steps=0, ok=0, switches=0, err=0.0, amb=0, gl=0)


def _task(it):
    try:
        return with_timeout(100.0, task, it[1:])
    except Exception as e:
        return dict(ZERO, msg=[f'{type(e).__name__}: {e}'], key='error')


def run(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, r):
        d = cnt.setdefault(it[0], dict(ZERO))
        for k in ZERO:
            d[k] = max(d[k], r[k]) if k == 'err' else d[k] + r[k]
        ck.evals += r['steps']
        ck.nontrivial += r['ok']
        c = it[1]
        if r['msg']:
            ck.violation(r['key'] if r['key'] != 'other' else vkey('C23', f'{c["model"]} {c["pss"]} {c["scheme"]} {c["rep"]} {c["cross"]} {c["mpcc"]} {c["se"]}'),
                         f'[{it[0]}: {describe(c)}] {r["msg"][0]}', dict(kind='c23', item=list(it)))
        elif r['ok'] and r['switches']:
            ck.sample(dict(part=it[0], cfg=short(c), x0=list(it[2]), parameters=list(it[3]), steps=r['ok'], switches=r['switches'], error=r['err']))

    pmap(ck, _task, list(plans(ck.quick)), on, chunk=2)
    for k, d in cnt.items():
        d['complete'] = f"{d['ok']} of {d.pop('steps')} steps report success"
        ck.part(k, **d)
    ck.rules.append('Every initial state of a grid x parameters x every listed configuration is simulated with the real IPOPT over several steps; as long as all steps report success with a '
                    'complementarity residual below tolerance, times, states at all element boundaries and the location of all switches are compared with the exact event-driven execution.')
    ck.assumptions.append('Piecewise constant and linear dynamics with polynomial trajectories of degree one or two, which the schemes integrate exactly; starts with repelling surfaces, corners '
                          'and tangential switches are excluded (amb).  Simulations without success are not judged.')


def replay(data):
    it = list(data['item'])
    c = dict(it[1])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return _task((it[0], c) + tuple(it[2:]))['msg']
