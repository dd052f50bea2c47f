"""C29: the vector field function of a solver against the smoothed complementarity system, over all specifications and sign patterns."""
import itertools
import numpy as np
from . import env, dcs
from .driver import pmap
from .models import MODELS, E
from .trans import cfg_of, make_opts, with_timeout
from .transcheck import vkey

nosnoc = env.nosnoc
SIG = (1.0, 0.1, 1e-2, 1e-3, 1e-5)


def weights(g, sigma):
    """theta > 0 with sum 1 and theta_i * (g_i - mu) = sigma^2 / 2, by bisection on min(g) - mu"""
    g = np.array(g, dtype=float)
    d = g - g.min()
    lo, hi = 0.5 * sigma**2 * 0.999, 0.5 * sigma**2 * len(g) * 1.001
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if np.sum(0.5 * sigma**2 / (d + mid)) > 1.0:
            lo = mid
        else:
            hi = mid
    return 0.5 * sigma**2 / (d + 0.5 * (lo + hi))


def judge(g, F, sigma, got):
    """F: region fields as columns"""
    g, F, got = np.array(g, dtype=float), np.array(F, dtype=float), np.array(got, dtype=float).flatten()
    scale = 1.0 + np.abs(F).max()
    if got.shape != (F.shape[0],):
        return f'vector field of shape {got.shape} for {F.shape[0]} states'
    near = np.sum(g - g.min() < 30 * sigma) > 1
    if near and sigma < 1e-2:
        # ill-conditioned selection between the adjacent regions: some convex combination of them
        adj = np.where(g - g.min() < 1e3 * sigma)[0]
        lo, hi = F[:, adj].min(1), F[:, adj].max(1)
        if np.all(got >= lo - 1e-4 * scale) and np.all(got <= hi + 1e-4 * scale):
            return None
        return f'{got.tolist()} is no combination of the adjacent regions {adj.tolist()}'
    want = F @ weights(g, sigma)
    if not np.allclose(got, want, atol=2e-6 * scale):
        return f'{got.tolist()}, expected {want.tolist()}'
    if not near and sigma <= 1e-3 and not np.allclose(got, F[:, int(np.argmin(g))], atol=10 * sigma * scale):
        return f'{got.tolist()} away from the surfaces, the region field is {F[:, int(np.argmin(g))].tolist()}'
    return None


def spec_task(ss, q):
    sp = dcs.Spec('STEWART', ss)
    sp.build(sp.state([0.5] * sum(sp.ns)), fesd=True)
    out, n = [], 0
    sy = ss[0]
    pts = set(sp.signs(dcs.levels(sp, q))) | set(sp.signs((-3.0, 0.2) if sum(sp.ns) > 2 else (-30.0, -0.01, 0.02, 5.0)))
    for sigma in SIG:
        fun = sp.solver.create_function_calculate_vector_field(sigma)
        for c in sorted(pts):
            if not sp.covered(c):
                continue
            x = sp.state(c)
            keep = x.copy()
            F = np.array([np.array(dcs.field(0, j, sp.nx)[0]) + dcs.field(0, j, sp.nx)[1] * x for j in range(len(sy[1]) if sy[0] == 'S' else sy[1])]).T
            g = [-sum(a * v for a, v in zip(r, c)) for r in sy[1]] if sy[0] == 'S' else list(c)
            n += 1
            d = judge(g, F, sigma, fun(x, []))
            if d is None and not np.array_equal(x, keep):
                d = 'the state of the caller is modified'
            if d:
                out.append(f'{dcs.dname(("STEWART", ss))} sigma={sigma} switching values {c}: {d}')
                return out, n
    return out, n


POINTS = [[0.0, 0.0, 0.0], [0.9, -0.4, 0.3], [-0.7, 0.8, -0.2], [2.0, 1.5, 0.6], [-1.6, -2.2, 1.1], [0.3, 0.5, 0.1], [-4.0, 3.0, -2.0]]


def model_task(name, q):
    """models with controls, parameters and global variables: every combination of values"""
    m = MODELS[name]
    c = cfg_of(model=name, Nfe=(1,))
    out, n = [], 0
    with env.quiet():
        sol = nosnoc.NosnocSolver(make_opts(c), m.build(c['N']))
    for sigma, x, su, s_p, sv in itertools.product(SIG if not q else SIG[1::2], POINTS, (0.0, 0.8, -1.7), (1.0, -1.4), (0.0, 0.6)):
        x = np.array(x[:m.n_x])
        u = su * (1.0 + 0.3 * np.arange(m.n_u))
        pt, pg, v = s_p * m.pt_val(1)[0], s_p * m.pg_val(), sv + 0.2 * np.arange(m.n_v)
        e = E(x=list(x), u=list(u), z=[0.0] * m.n_z, pt=list(pt), pg=list(pg), v=list(v))
        g = m.switch_values(e, 0, 'STEWART')
        F = np.array(m.subs[0]['F'](e), dtype=float).T
        kw = {}
        if m.n_pt + m.n_pg:
            kw['p'] = np.concatenate([pt, pg])
        if m.n_v:
            kw['v'] = v
        n += 1
        d = judge(g, F, sigma, sol.create_function_calculate_vector_field(sigma, **kw)(x, u))
        if d:
            out.append(f'{name} sigma={sigma} x={x.tolist()} u={u.tolist()} p={kw.get("p")} v={kw.get("v")}: {d}')
            break
    return out, n


def refuse_task(name, pss):
    """where the single-system formula does not apply nothing may be returned"""
    m = MODELS[name]
    c = cfg_of(model=name, Nfe=(1,), pss=pss)
    with env.quiet():
        sol = nosnoc.NosnocSolver(make_opts(c), m.build(c['N']))
    try:
        kw = dict(p=np.concatenate([m.pt_val(1)[0], m.pg_val()])) if m.n_pt + m.n_pg else {}
        r = sol.create_function_calculate_vector_field(1e-2, **kw)(np.array(m.x0, dtype=float), np.zeros(m.n_u))
    except Exception:
        return [], 1
    if pss == 'STEWART':
        e = E(x=list(m.x0), u=[0.0] * m.n_u, z=[0.0] * m.n_z, pt=list(m.pt_val(1)[0]), pg=list(m.pg_val()), v=[0.0] * m.n_v)
        want = sum(np.array(s['F'](e), dtype=float).T @ weights(m.switch_values(e, i, pss), 1e-2) for i, s in enumerate(m.subs))
        if np.allclose(np.array(r).flatten(), want, atol=1e-5):
            return [], 1
    return [f'{name} in {pss} mode: {np.array(r).flatten().tolist()} is returned'], 1


def _task(it):
    kind, a, b = it
    try:
        return with_timeout(300.0, dict(spec=spec_task, model=model_task, refuse=refuse_task)[kind], a, b)
    except Exception as e:
        return [f'{kind} {a}: {type(e).__name__}: {str(e)[-200:]}'], 1


def plan(q):
    seen = set()
    for pss, ss in dcs.specs(q):
        if pss == 'STEWART' and len(ss) == 1 and ss not in seen:
            seen.add(ss)
            yield 'spec', ss, q
    for m in ('Plain', 'Const', 'Four', 'GStewart', 'Clock'):
        yield 'model', m, q
    for m, pss in (('TwoSysD', 'STEWART'), ('GStewart2', 'STEWART'), ('ThreeSysD', 'STEWART'), ('BigG', 'STEWART'), ('BigSim', 'STEWART'), ('Big', 'STEWART'), ('Big', 'STEP'), ('Plain', 'STEP'), ('TwoSys', 'STEP'), ('Incl', 'STEP')):
        yield 'refuse', m, pss


def run(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, r):
        msgs, n = r
        ck.evals += n
        ck.nontrivial += n
        d = cnt.setdefault(it[0], dict(number=0, cases=0))
        d['number'] += 1
        d['cases'] += n
        if msgs:
            ck.violation(vkey('C29', msgs[0]), msgs[0], dict(kind='c29', it=it))
        if it[0] == 'model':
            ck.sample(dict(model=it[1], cases=n))
    pmap(ck, _task, list(plan(ck.quick)), on, chunk=1)
    for k, v in cnt.items():
        ck.part(k, **v)
    ck.rules.append('Every Stewart specification with one subsystem (all dense sign matrices up to row order, all weak orderings of Stewart functions) times every '
                    'sign/magnitude pattern of the switching functions times five smoothing levels; five models with controls, parameters and global variables times '
                    'a grid of their values; each value of the vector field function is compared with the smoothed complementarity system solved by bisection, and, '
                    'away from the surfaces, with the field of the region.  Models the formula does not cover must not get a different value.')


def replay(data):
    it = data['it']
    return _task((it[0], dcs.tup(it[1]) if isinstance(it[1], list) else it[1], it[2]))[0]
