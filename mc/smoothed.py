"""C25: smoothed representation of the regions and the smoothed initialisation, for all specifications, sign patterns and layouts."""
import itertools
import numpy as np
import casadi as ca
from . import env, dcs
from .driver import pmap
from .trans import with_timeout
from .tableau import nodes
from .transcheck import vkey

nosnoc = env.nosnoc
SPS = (10.0, 1.0, 0.1, 1e-2, 1e-3, 1e-5)


# --- A: the smoothed functions --------------------------------------------------------------------
def specs_a(q):
    seen = set()
    for pss, ss in dcs.specs(q):
        if all(s[0] == 'S' for s in ss) and ss not in seen:
            seen.add(ss)
            yield ss


def values(n, q):
    if n == 1:
        return [-40.0, -3.0, -0.5, -0.02, 0.0, 0.02, 0.5, 3.0, 40.0, 900.0]
    if n == 2:
        return [-40.0, -0.5, -0.02, 0.0, 0.5, 3.0]
    if n == 3:
        return [-3.0, 0.0, 0.5, 40.0] if not q else [-3.0, 0.0, 0.5]
    return [-3.0, 0.5]


def complete(rows):
    """do the rows partition the sign cube"""
    n = len(rows[0])
    return all(sum(all(a == 0 or a == v for a, v in zip(r, w)) for r in rows) == 1 for w in itertools.product((1, -1), repeat=n))


def smooth_task(it):
    ss, sps, q = it
    res = dict(msg=[], cases=0)
    sp = dcs.Spec('STEP', ss)
    n = sum(sp.ns)
    pts = list(itertools.product(values(n, q), repeat=n)) if n <= 3 else list(itertools.product([-3.0, 0.5], repeat=n)) + [(0.0,) * n]
    o = nosnoc.NosnocOpts()
    o.terminal_time, o.N_finite_elements, o.n_s = 1.0, 1, 1
    o.pss_mode = nosnoc.PssMode.STEP
    x = ca.SX.sym('x', sp.nx)
    sw = [ca.vertcat(*[dcs.coef(sp.first[s] + k) * (x[int(sp.first[s] + k)] - dcs.offs(sp.first[s] + k)) for k in range(sp.ns[s])]) for s in range(len(ss))]
    F = [ca.horzcat(*[ca.DM(dcs.field(s, j, sp.nx)[0]) + ca.DM(dcs.field(s, j, sp.nx)[1]) * x for j in range(len(sy[1]))]) for s, sy in enumerate(ss)]
    m = nosnoc.NosnocModel(x=x, x0=np.zeros(sp.nx), F=F, c=sw, S=[np.array(s[1]) for s in ss])
    with env.quiet():
        o.preprocess()
        m.preprocess_model(o)
    p = m.p_val_ctrl_stages[0]
    for s_par in sps:
        m.add_smooth_step_representation(smoothing_parameter=s_par)
        for c in pts:
            res['cases'] += 1
            X = sp.state(c)
            th = m.theta_smooth_fun(X, p).full().flatten()
            mu = m.mu_smooth_fun(X, p).full().flatten()
            fx = m.f_x_smooth_fun(X).full().flatten()
            f_ref, a = np.zeros(sp.nx), 0
            at = f'S={[s[1] for s in ss]}, c={c}, smoothing {s_par:g}: '
            for s, sy in enumerate(ss):
                rows, cs = sy[1], sp.split_c(c)[s]
                t = th[a:a + len(rows)]
                a += len(rows)
                if not np.all(np.isfinite(t)) or np.any(t < -1e-12) or np.any(t > 1 + 1e-12):
                    res['msg'].append(at + f'smoothed multipliers {t.tolist()}')
                elif complete(rows) and abs(t.sum() - 1) > 1e-9:
                    res['msg'].append(at + f'smoothed multipliers of system {s} sum to {t.sum()}')
                small = min(abs(v) for v in cs)
                if small > 0:
                    ind = np.array([all(r == 0 or r * v > 0 for r, v in zip(row, cs)) for row in rows], dtype=float)
                    if not np.all(np.abs(t - ind) <= len(cs) * s_par / (2 * small) + 1e-9):
                        res['msg'].append(at + f'smoothed multipliers {t.tolist()}, active region {ind.tolist()}')
                # moving into a region does not reduce its multiplier: see the monotonicity pass
                g = [-sum(r * v for r, v in zip(row, cs)) for row in rows]
                d = -mu[s] - min(g)
                if not (-1e-7 * (1 + abs(min(g))) <= d <= (len(rows) - 1) * s_par / np.e + 1e-7 * (1 + abs(min(g)))):
                    res['msg'].append(at + f'smoothed mu of system {s} is {mu[s]}, -min g = {-min(g)}')
                for j in range(len(rows)):
                    A, D = dcs.field(s, j, sp.nx)
                    f_ref += t[j] * (A + D * X)
            if a != len(th) or len(mu) != len(ss):
                res['msg'].append(at + f'{len(th)} multipliers, {len(mu)} mu')
            if not np.allclose(fx, f_ref, rtol=1e-8, atol=1e-9):
                res['msg'].append(at + f'smoothed vector field {fx.tolist()}, combination of the region fields {f_ref.tolist()}')
            if res['msg']:
                return res
    return res


# --- refusals ---------------------------------------------------------------------------------------
def refuse_task(it):
    v, via = it
    sp = dcs.Spec('STEWART', (('S', ((1,), (-1,))),))
    try:
        with env.quiet():
            if via == 'options':
                make(sp, dict(sm=v))
            else:
                b = make(sp, dict(sm=1.0))
                b.solver.model.add_smooth_step_representation(smoothing_parameter=v)
    except Exception:
        return dict(msg=[], cases=1)
    return dict(msg=[f'smoothing parameter {v} is accepted ({via})'], cases=1)


# --- B: the initialisation --------------------------------------------------------------------------
DEF = dict(N=1, Nfe=(1,), n_s=2, scheme='RADAU_IIA', rep='INTEGRAL', fesd=True, sm=1.0, T=0.2, mpcc='SCHOLTES_INEQ', cross='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER', lsq=False, sot=None)


def make(sp, c):
    c = {**DEF, **c}

    class B:
        pass
    b = B()
    b.c, b.sp = c, sp
    nx = sp.nx
    x = ca.SX.sym('x', nx)
    sw = [ca.vertcat(*[dcs.coef(sp.first[s] + k) * (x[int(sp.first[s] + k)] - dcs.offs(sp.first[s] + k)) for k in range(sp.ns[s])]) for s in range(len(sp.ns))]
    F = [ca.horzcat(*[ca.DM(dcs.field(s, j, nx)[0]) + ca.DM(dcs.field(s, j, nx)[1]) * x for j in range(len(sy[1]))]) for s, sy in enumerate(sp.systems)]
    o = nosnoc.NosnocOpts()
    o.terminal_time, o.N_stages, o.n_s = c['T'], c['N'], c['n_s']
    o.Nfe_list = list(c['Nfe'])
    o.use_fesd = c['fesd']
    o.irk_scheme = nosnoc.IrkSchemes[c['scheme']]
    o.irk_representation = nosnoc.IrkRepresentation[c['rep']]
    o.pss_mode = nosnoc.PssMode[sp.pss]
    o.mpcc_mode = nosnoc.MpccMode[c['mpcc']]
    o.cross_comp_mode = nosnoc.CrossComplementarityMode[c['cross']]
    if c['sot']:
        o.time_freezing = True
        o.use_speed_of_time_variables = True
        o.speed_of_time_variables = nosnoc.SpeedOfTimeVariableMode[c['sot']]
    o.initialization_strategy = nosnoc.InitializationStrategy.RK4_SMOOTHENED
    o.smoothing_parameter = c['sm']
    o.max_iter_homotopy = 1
    if c['lsq']:
        o.constraint_handling = nosnoc.ConstraintHandling.LEAST_SQUARES
    m = nosnoc.NosnocModel(x=x, x0=sp.state((0.0,) * sum(sp.ns)), F=F, c=sw, S=[np.array(s[1]) for s in sp.systems])
    with env.quiet():
        b.solver = nosnoc.NosnocSolver(o, m)
    b.fake, b.pr, b.m = env.last_solver(), b.solver.problem, m
    return b


def flow(sp, sm, x, T, steps=40):
    """smoothed flow over time T, with the reference fields"""
    def f(x):
        tot = np.zeros(sp.nx)
        for s, sy in enumerate(sp.systems):
            al = [(np.tanh(dcs.coef(i) * (x[i] - dcs.offs(i)) / sm) + 1) / 2 for i in range(sp.first[s], sp.first[s + 1])]
            for j, row in enumerate(sy[1]):
                t = np.prod([al[k] if a == 1 else 1 - al[k] if a == -1 else 1.0 for k, a in enumerate(row)])
                A, D = dcs.field(s, j, sp.nx)
                tot += t * (A + D * x)
        return tot
    h = T / steps
    for _ in range(steps if T else 0):
        a = f(x)
        b = f(x + h / 2 * a)
        c = f(x + h / 2 * b)
        d = f(x + h * c)
        x = x + h / 6 * (a + 2 * b + 2 * c + d)
    return x


REFUSED = (NotImplementedError, ValueError, RuntimeError)


def init_task(it):
    pss, ss, c, q = it
    res = dict(msg=[], cases=0)
    sp = dcs.Spec(pss, ss)
    full = {**DEF, **c}
    may_refuse = full['scheme'] == 'GAUSS_LEGENDRE' or pss == 'STEP'
    try:
        b = make(sp, c)
        before = b.pr.w0.copy()
        n = sum(sp.ns)
        vals = (-0.4, 0.0, 0.7) if n <= 2 else (-0.4, 0.7)
        for cv in itertools.product(vals, repeat=n):
            x0 = sp.state(cv)
            del b.fake.calls[:]
            with env.quiet():
                b.solver.set('x0', x0)
                b.solver.solve()
            res['cases'] += 1
            w = b.fake.calls[0]['x0']
            tol = 2e-4
            want = {}
            rc = [float(v) for v in nodes(full['scheme'], full['n_s'])]
            x, at = x0, f'x0 with c={cv}: '
            pr = b.pr

            def put(ind, v, what):
                v = np.atleast_1d(np.asarray(v, dtype=float)).flatten()
                if len(ind) != len(v):
                    res['msg'].append(at + f'{what}: {len(ind)} variables, {len(v)} values')
                for i, e in zip(ind, v):
                    want[i] = (e, what)
            for i in range(full['N']):
                h = full['T'] / (full['N'] * full['Nfe'][i])
                for j in range(full['Nfe'][i]):
                    for k in range(full['n_s']):
                        xs = flow(sp, full['sm'], x, rc[k] * h)
                        if full['rep'] != 'DIFFERENTIAL':
                            put(pr.ind_x[i][j][k], xs, f'x[{i}][{j}][{k}]')
                        th = b.m.theta_smooth_fun(xs, b.m.p_val_ctrl_stages[i]).full().flatten()
                        mu = b.m.mu_smooth_fun(xs, b.m.p_val_ctrl_stages[i]).full().flatten()
                        a = 0
                        for s, sy in enumerate(ss):
                            cs = [dcs.coef(q_) * (xs[q_] - dcs.offs(q_)) for q_ in range(sp.first[s], sp.first[s + 1])]
                            g = np.array([-sum(r * v for r, v in zip(row, cs)) for row in sy[1]])
                            put(pr.ind_theta[i][j][k][s], th[a:a + len(g)], f'theta[{i}][{j}][{k}][{s}]')
                            put(pr.ind_lam[i][j][k][s], g - g.min(), f'lam[{i}][{j}][{k}][{s}]')
                            put(pr.ind_mu[i][j][k][s], mu[s], f'mu[{i}][{j}][{k}][{s}]')
                            a += len(g)
                    x = flow(sp, full['sm'], x, h)
                    put(pr.ind_x[i][j][-1], x, f'x[{i}][{j}][-1]')
            for v in range(len(w)):
                e, what = want.get(v, (before[v], str(b.fake.nlp['x'][v])))
                t = tol if v in want else 0.0
                if not abs(w[v] - e) <= t:
                    res['msg'].append(at + f'{what} starts at {w[v]}, expected {e}')
                    break
            if res['msg']:
                return res
    except REFUSED as e:
        if may_refuse:
            return dict(msg=[], cases=1, refused=type(e).__name__)
        res['msg'].append(f'{type(e).__name__}: {e}')
    return res


def plans(q):
    for ss in specs_a(q):
        yield ('functions', ss, SPS, q)
    # all ordered pairs of smoothing parameters on one model: the second call counts
    for ss in ((('S', ((1,), (-1,))),), (('S', dcs.dense(2)), ('S', ((-1,), (1,))))):
        for pr in itertools.permutations(SPS, 2):
            yield ('repeated', ss, pr, q)
    for v in (0.0, -0.0, -1e-12, -1e-3, -1.0, -10.0, -float('inf')):
        for via in ('options', 'model'):
            yield ('refusal', v, via)
    a, b, d = ('S', ((1,), (-1,))), ('S', ((-1,), (1,))), ('S', dcs.dense(2))
    e = ('S', tuple(reversed(dcs.dense(2))))
    base = [(a,), (b,), (d,), (e,), (a, b), (a, d), (e, a)] + ([] if q else [(a, b, a), (d, e)])
    lays = [(1, (1,)), (1, (2,)), (1, (3,)), (2, (1, 1)), (2, (1, 2)), (2, (3, 1)), (3, (2, 1, 1)), (5, (1, 1, 2, 1, 1)), (1, (7,))] + ([] if q else [(1, (5,)), (3, (1, 2, 3)), (4, (1, 1, 2, 1))])
    for ss in base:
        for (N, Nfe), n_s, scheme, rep, fesd, sm in itertools.product(lays, (1, 2, 3) if q else (1, 2, 3, 4), ('RADAU_IIA', 'GAUSS_LEGENDRE'),
                                                                      ('INTEGRAL', 'DIFFERENTIAL_LIFT_X', 'DIFFERENTIAL'), (True, False), (1.0,) if q else (1.0, 10.0, 0.3)):
            if scheme == 'GAUSS_LEGENDRE' and (n_s > 2 or sm != 1.0):
                continue
            yield ('initialisation', 'STEWART', ss, dict(N=N, Nfe=Nfe, n_s=n_s, scheme=scheme, rep=rep, fesd=fesd, sm=sm), q)
    for mp_ in [x.name for x in nosnoc.MpccMode]:
        for cross in [x.name for x in nosnoc.CrossComplementarityMode]:
            for ss in ((a,), (a, d)):
                for N, Nfe in ((1, (2,)), (2, (1, 2))):
                    if mp_ == 'FISCHER_BURMEISTER_IP_AUG' and cross != 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER':
                        continue
                    yield ('initialisation, modes', 'STEWART', ss, dict(N=N, Nfe=Nfe, mpcc=mp_, cross=cross), q)
    for ss in base:
        for N, Nfe in lays[:5]:
            yield ('initialisation, step', 'STEP', ss, dict(N=N, Nfe=Nfe), q)


def _task(it):
    fn = dict(functions=smooth_task, repeated=smooth_task, refusal=refuse_task).get(it[0], init_task)
    try:
        return with_timeout(200.0, fn, it[1:])
    except Exception as e:
        return dict(msg=[f'{type(e).__name__}: {e}'], cases=1)


def run(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, r):
        d = cnt.setdefault(it[0], dict(items=0, cases=0, refused={}))
        d['items'] += 1
        d['cases'] += r['cases']
        if r.get('refused'):
            d['refused'][r['refused']] = d['refused'].get(r['refused'], 0) + 1
        else:
            ck.nontrivial += r['cases']
        ck.evals += r['cases']
        if r['msg']:
            ck.violation(vkey('C25', it[0] + r['msg'][0]), f'[{it[0]}: {it[1:-1] if it[0].startswith("init") else ""}] {r["msg"][0]}', dict(kind='c25', item=list(it)))
        elif it[0].startswith('init') and not r.get('refused'):
            ck.sample(dict(part=it[0], systems=it[2], cfg=it[3], cases=r['cases']))

    pmap(ck, _task, list(plans(ck.quick)), on, chunk=8)
    for k, d in cnt.items():
        ck.part(k, **d)
    ck.rules.append('Functions: every switching specification (all sign matrices and partitions up to the listed size, several subsystems) x every smoothing parameter of a decreasing sequence x '
                    'every word of switching values.  Initialisation: every specification x layout x number of stages x representation x complementarity mode x word of initial switching values; '
                    'the first NLP call is compared with an independent integration of the smoothed flow, all other entries with the problem\'s own start values.')


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, (list, tuple)) else v


def replay(data):
    it = [tup(v) if not isinstance(v, dict) else {k: tup(x) for k, x in v.items()} for v in data['item']]
    return _task(tuple(it))['msg']
