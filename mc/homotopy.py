"""C13: explicit-state exploration of the homotopy loop against every bounded history of NLP solver answers."""
import itertools
import numpy as np
from . import env, trans
from .driver import pmap
from .models import MODELS
from .ref import flat
from .trans import build, cfg_of, make_opts, Built
from .results import eqv
from .transcheck import vkey

nosnoc = env.nosnoc
OK = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']
BAD = ['Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded', 'Restoration_Failed', 'Invalid_Number_Detected',
       'Maximum_CpuTime_Exceeded', 'Diverging_Iterates']
TOL = 1e-3


class Ans:
    __slots__ = ('res', 'status', 'n')

    def __init__(self, res, status, n):
        self.res, self.status, self.n = res, status, n

    def __repr__(self):
        return f'{self.res}/{self.status}'


def model_run(o, hist):
    """reference semantics.  Returns (list of sigmas, number of answers used)."""
    sig, s = [], o['sigma0']
    for k, a in enumerate(hist):
        if k >= o['max_iter']:
            break
        sig.append(s)
        if a.res == 'small':
            break
        if s <= o['sigmaN']:
            break
        s = o['slope'] * s if o['rule'] == 'LINEAR' else max(o['sigmaN'], min(o['slope'] * s, s**o['exp']))
    return sig


def histories(o, alpha, depth):
    """all maximal histories of the model: a tree over answers"""
    def rec(h, s, k):
        if k >= min(o['max_iter'], depth):
            yield h
            return
        for a in alpha:
            h2 = h + (a,)
            if a[0] == 'small' or s <= o['sigmaN']:
                yield h2
            else:
                s2 = o['slope'] * s if o['rule'] == 'LINEAR' else max(o['sigmaN'], min(o['slope'] * s, s**o['exp']))
                yield from rec(h2, s2, k + 1)
    yield from rec((), o['sigma0'], 0)


def mult_indices(c, pr):
    lam = flat(pr.ind_lam) + flat(pr.ind_lambda_n) + flat(pr.ind_lambda_p)
    th = flat(pr.ind_theta) + flat(pr.ind_alpha)
    return lam, th


def active(c):
    """per subsystem: convex multipliers of the region the initial state is in (hence complementary to the initial
    multipliers)"""
    m = MODELS[c['model']]
    from .models import E
    pt = m.pt_val(c['N'])
    e = E(x=list(m.x0), u=[0.] * m.n_u, z=list(m.z0 or [0.] * m.n_z), pt=list(pt[0]), pg=list(m.pg_val()), v=[0.] * m.n_v)
    out = []
    for s in range(len(m.subs)):
        if c['pss'] == 'STEP':
            out.append([1.0 if v > 0 else 0.0 for v in m.subs[s]['c'](e)])
        else:
            g = list(m.switch_values(e, s, 'STEWART'))
            r = int(np.argmin(g))
            out.append([1.0 if q == r else 0.0 for q in range(len(g))])
    return out


def answer_vector(c, pr, nw, res, n):
    w = 0.2 + 0.01 * np.sin(1.0 + np.arange(nw) * (n + 2))
    lam, th = mult_indices(c, pr)
    act = active(c)
    step = c['pss'] == 'STEP'
    for k in range(c['N']):
        for i in range(c['Nfe'][k]):
            for st in (pr.ind_alpha if step else pr.ind_theta)[k][i]:
                for s, idx in enumerate(st):
                    w[idx] = act[s]
    w[lam] = 0.0

    def one(k, i, j, val):
        # a switching multiplier whose partner is one
        if not step:
            r = act[0].index(1.0)
            w[pr.ind_lam[k][i][j][0][r]] = val
        else:
            w[(pr.ind_lambda_n if act[0][0] == 1.0 else pr.ind_lambda_p)[k][i][j][0][0]] = val

    if res == 'big':
        w[lam] = 0.3
        w[th] = 0.5
    elif res == 'equal':
        one(0, 0, 0, TOL)   # largest product exactly the tolerance
    elif res == 'single':
        one(c['N'] - 1, c['Nfe'][-1] - 1, c['n_s'] - 1, 0.3)    # only one late product is large
    return w


def make(o):
    c = cfg_of(**o['cfg'])
    b = Built()
    b.cfg, b.mspec = c, MODELS[c['model']]
    with env.quiet():
        b.model = b.mspec.build(c['N'])
        b.ocp = None
        if c['ocp']:
            from .models import Ocp
            b.ocp = Ocp(b.mspec, c['ocp']).build()
        op = make_opts(c)
        op.sigma_0, op.sigma_N = o['sigma0'], o['sigmaN']
        op.homotopy_update_slope, op.homotopy_update_exponent = o['slope'], o['exp']
        op.homotopy_update_rule = nosnoc.HomotopyUpdateRule[o['rule']]
        op.max_iter_homotopy = o['max_iter']
        op.do_polishing_step = o['polish']
        op.comp_tol = TOL
        op.print_level = o.get('print', 0)
        b.opts = op
        b.solver = nosnoc.NosnocSolver(op, b.model, b.ocp)
        b.fake, b.prob = env.last_solver(), b.solver.problem
    return b


def run_history(o, b, hist, start):
    c, pr, fake = b.cfg, b.prob, b.fake
    nw = fake.nlp['x'].shape[0]
    npar = (b.mspec.n_pt + b.mspec.n_pg) * c['N']
    base = len(fake.calls)
    pol = Ans(o.get('pol_res', 'big'), o.get('pol_status', 'Solve_Succeeded'), 99)
    H = [Ans(r, s, n) for n, (r, s) in enumerate(hist)]
    vecs = [answer_vector(c, pr, nw, a.res, a.n) for a in H]
    pvec = answer_vector(c, pr, nw, pol.res, 50)

    def script(k, rec):
        k -= base
        if k < len(H):
            return dict(x=vecs[k], status=H[k].status, t=0.01 * (k + 1) + 0.001 * len(hist), iter=100 + 7 * k)
        return dict(x=pvec, status=pol.status, t=0.9, iter=991)

    fake.script = script
    with env.quiet():
        res = b.solver.solve()
    calls = fake.calls[base:]
    del fake.calls[base:]
    sig = model_run(o, H)
    n = len(sig)
    out = []
    want = n + (1 if o['polish'] else 0)
    if len(calls) != want:
        return [f'{len(calls)} NLP solves, expected {want}'], n
    prev = start
    for k in range(n):
        cl = calls[k]
        s = sig[k]
        if not np.isclose(cl['p'][npar], s, rtol=1e-12, atol=0):
            out.append(f'problem {k}: sigma is {cl["p"][npar]}, expected {s}')
        tau = min(s**1.5, s)
        if not np.isclose(cl['p'][npar + 1], tau, rtol=1e-12, atol=0):
            out.append(f'problem {k}: tau is {cl["p"][npar + 1]}, expected {tau}')
        if not np.array_equal(cl['x0'], prev):
            out.append(f'problem {k}: not started at ' + ('the initial guess' if k == 0 else 'the previous answer'))
        for nm in ('lbx', 'ubx', 'lbg', 'ubg'):
            if not np.array_equal(cl[nm], calls[0][nm]):
                out.append(f'problem {k}: {nm} changed')
        prev = vecs[k]
    f = lambda w, p: float(fake.fg()(w, p)[0])
    last = calls[-1]
    wsol = pvec if o['polish'] else vecs[n - 1]
    st = pol.status if o['polish'] else H[n - 1].status
    if o['polish']:
        if not np.array_equal(last['x0'], vecs[n - 1]):
            out.append('polishing is not started at the last iterate')
    if not eqv(res['w_sol'], wsol):
        out.append('w_sol is not the answer of the last NLP')
    cv = f(wsol, last['p'])
    if not np.isclose(res['cost_val'], cv, rtol=1e-10, atol=1e-12):
        out.append(f'cost_val is {res["cost_val"]}, expected {cv}')
    iters = [start] + vecs[:n]
    wa = list(res['w_all'])
    if o['polish'] and len(wa) == n + 2 and eqv(wa[-1], pvec):
        wa = wa[:-1]
    if len(wa) != len(iters) or not all(eqv(a, e) for a, e in zip(wa, iters)):
        out.append(f'w_all has {len(res["w_all"])} entries that are not the start point and the {n} iterates')
    M = o['max_iter'] + (1 if o['polish'] else 0)
    wt = [0.01 * (k + 1) + 0.001 * len(hist) for k in range(n)] + [None] * (M - n)
    wi = [100 + 7 * k for k in range(n)] + [None] * (M - n)
    gt, gi = list(res['cpu_time_nlp']), list(res['nlp_iter'])
    if o['polish']:
        wi[-1] = 991
        if len(gt) != M or gt[-1] is None or not gt[-1] >= 0:
            out.append(f'cpu_time_nlp {gt} has no time of the polishing step')
        wt, gt = wt[:-1], gt[:-1]
    if gt != wt:
        out.append(f'cpu_time_nlp is {gt}, expected {wt}')
    if gi != wi:
        out.append(f'nlp_iter is {gi}, expected {wi}')
    ws = nosnoc.Status.SUCCESS if st in OK else nosnoc.Status.INFEASIBLE
    if res['status'] != ws:
        out.append(f'status is {res["status"]} although the last NLP ended with {st}')
    if not eqv(res['x_out'], wsol[pr.ind_x[-1][-1][-1]]):
        out.append('x_out is not the end state of the solution')
    return out, n


def start_point(b):
    w = np.array(b.prob.w0, dtype=float)
    for q in (i for k in b.prob.ind_x for f in k for i in f):
        w[q] = b.mspec.x0
    return w


def task(o):
    try:
        return trans.with_timeout(600.0, explore, o)
    except Exception as e:
        import traceback
        return [f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}'], 0, 0, 0, None


def explore(o):
    b = make(o)
    start = start_point(b)
    out, states, trs, traces, smp = [], set(), 0, 0, None
    alpha = o['alpha']
    for hist in histories(o, alpha, o['max_iter']):
        msgs, n = run_history(o, b, hist, start)
        traces += 1
        for k in range(n):
            states.add(hist[:k + 1])
        smp = [f'{r}/{s}' for r, s in hist]
        if msgs:
            out.append(f'answers {smp}: ' + ' ; '.join(msgs[:3]))
            if len(out) > 2:
                break
    return out, len(states) + 1, len(states), traces, smp


def options(q):
    A_small = [(r, s) for r in ('big', 'small') for s in ('Solve_Succeeded', 'Infeasible_Problem_Detected')]
    A_mid = [(r, s) for r in ('big', 'equal', 'small') for s in ('Solve_Succeeded', 'Feasible_Point_Found', 'Infeasible_Problem_Detected')]
    A_all = [(r, s) for r in ('big', 'single', 'equal', 'small') for s in OK + BAD]
    base = dict(cfg=dict(model='Plain', N=1, Nfe=(2,), T=1.7), rule='LINEAR', slope=0.1, exp=1.5, sigma0=1.0, sigmaN=1e-9, max_iter=3,
                polish=False, alpha=A_mid)
    sig = [(1.0, 1e-9), (1.0, 0.1), (1.0, 0.01), (0.5, 0.5), (2.0, 0.3), (0.3, 1.0)]
    for rule, slope, exp in (('LINEAR', 0.1, 1.5), ('LINEAR', 0.5, 1.5), ('SUPERLINEAR', 0.1, 1.5), ('SUPERLINEAR', 0.5, 2.0),
                             ('SUPERLINEAR', 0.2, 1.1)):
        for s0, sN in sig:
            for mi in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
                for pol in (False, True):
                    yield dict(base, rule=rule, slope=slope, exp=exp, sigma0=s0, sigmaN=sN, max_iter=mi, polish=pol,
                               alpha=A_mid if mi <= (3 if q else 4) and not pol else A_small)
    cfgs = [dict(model='TwoSys', N=1, Nfe=(1,)), dict(model='Incl2', pss='STEP', N=1, Nfe=(2,), scheme='GAUSS_LEGENDRE'),
            dict(model='Full', N=2, Nfe=(2, 1), ocp=('cost', 'path', 'term', 'bounds', 'guess')), dict(model='Four', fesd=False, Nfe=(3,)),
            dict(model='Full', pss='STEP', N=2, Nfe=(1, 2), mpcc='ELASTIC_INEQ', sot='LOCAL'), dict(model='Plain', init='EXTERNAL')]
    for cf in cfgs:
        for rule in ('LINEAR', 'SUPERLINEAR'):
            for pol in (False, True):
                yield dict(base, cfg=cf, rule=rule, sigmaN=0.05, max_iter=3, polish=pol, alpha=A_small)
                yield dict(base, cfg=cf, rule=rule, sigmaN=0.05, max_iter=2, polish=pol, alpha=A_all if not pol else A_mid)
    # every return code at the end, with and without polishing
    yield dict(base, max_iter=1, alpha=A_all)
    yield dict(base, max_iter=2, alpha=A_all)
    for st in OK + BAD:
        for pr in ('big', 'small'):
            yield dict(base, max_iter=2, polish=True, pol_status=st, pol_res=pr, alpha=A_small)
    for lv in (1, 2):
        yield dict(base, max_iter=2, alpha=A_mid)
        yield dict(base, max_iter=3, alpha=A_small, polish=True, print=lv)
        yield dict(base, max_iter=2, alpha=A_mid, print=lv)


def run(ck):
    ck.level = 'model_checking'

    def on(o, r):
        msgs, s, t, tr, smp = r
        ck.states += s
        ck.transitions += t
        ck.traces += tr
        if msgs:
            ck.violation(vkey('C13', msgs[0].split(': ', 1)[-1]), f'[{o["rule"]} slope={o["slope"]} sigma {o["sigma0"]}->{o["sigmaN"]} max_iter={o["max_iter"]} '
                         f'polish={o["polish"]} {o["cfg"]}] {msgs[0]}', dict(kind='c13', o=o))
        if smp and len(smp) > 1:
            ck.sample(dict(options={k: o[k] for k in ('rule', 'slope', 'exp', 'sigma0', 'sigmaN', 'max_iter', 'polish')}, answers=smp))
    items = list(options(ck.quick))
    pmap(ck, task, items, on, chunk=1)
    ck.part('option sets', n=len(items))
    ck.rules.append('Model: the homotopy as a transition system over (iteration, relaxation parameter, last answer); the environment (the NLP solver) answers '
                    'each problem with a residual {large everywhere, one large product, exactly the tolerance, below} and a return code.  All answer '
                    'histories up to the maximal number of iterations are enumerated for every option set, replayed on the real NosnocSolver with a '
                    'scripted NLP solver, and every call and every result field is compared.  States: distinct answer prefixes.')


def replay(data):
    o = data['o']
    o['alpha'] = [tuple(a) for a in o['alpha']]
    for k in ('Nfe', 'ocp'):
        if o['cfg'].get(k) is not None:
            o['cfg'][k] = tuple(o['cfg'][k])
    return task(o)[0]
