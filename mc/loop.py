"""C16: the simulation loop against every bounded history of per-step outcomes."""
import itertools
import numpy as np
from . import env, trans
from .driver import pmap
from .models import MODELS
from .ref import flat
from .results import alphabet, eqv, eql, expected, times, vec
from .protocol import State
from .trans import cfg_of, make_opts, build
from .transcheck import describe, vkey

nosnoc = env.nosnoc
OUT = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded']
GOOD = ('Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small')


def answer(nw, tag):
    return 0.3 + 0.0011 * np.arange(nw) + 0.05 * tag + 0.013 * (tag % 3)


def one_loop(b, s, hist, o, tag, iters, polish, x0=None):
    """runs one loop on the real code with per-step return codes hist, compares with the model.  s: State, is updated."""
    c, pr, fake = b.cfg, b.prob, b.fake
    nw = fake.nlp['x'].shape[0]
    n = len(hist)
    m = b.mspec
    per = iters + (1 if polish else 0)
    x0 = np.array(m.x0) * 1.1 + 0.01 * tag if x0 is None else x0
    # parameters change by much, by very little and not at all from step to step
    pv = np.array([0.4 + sum((1e-5, 0.1, 0.0, 1e-3, -0.2)[(tag + q) % 5] for q in range(i)) + 0.07 * np.arange(m.n_pg) + 0.02 * tag for i in range(n)]).reshape(n, m.n_pg) if o['p'] else None
    wi = [answer(nw, 20 + 3 * i + tag) for i in range(n)] if o['w'] else None
    base = len(fake.calls)
    A = alphabet(c)
    regs = lambda i: [A[(tag + i + (j if i % 2 else j // 2)) % len(A)] for j in range(c['Nfe'][0])]

    def ans(i, it):
        w = answer(nw, tag + 2 * i) + 0.0005 * it
        for r, stages in zip(regs(i), (pr.ind_alpha if c['pss'] == 'STEP' else pr.ind_theta)[0]):
            for st in stages:
                for s_, idx in enumerate(st):
                    if len(idx):
                        w[idx] = r[1][s_]
        return w

    def script(k, rec):
        q = k - base
        i, it = divmod(q, per)
        return dict(x=ans(i, it), status=hist[i] if it == per - 1 else 'Solve_Succeeded', t=0.1 + 0.01 * q, iter=5 + q)

    fake.script = script
    out = []
    keep = [np.array(x0, dtype=float).copy(), None if pv is None else pv.copy(), None if wi is None else [w.copy() for w in wi]]
    with env.quiet():
        loop = nosnoc.NosnocSimLooper(b.solver, x0, n, p_values=pv, w_init=wi, **({} if o.get('pl') is None else {'print_level': o['pl']}))
        ret = loop.run(stop_on_failure=o['stop']) if o['stop'] is not None else loop.run()
        res = loop.get_results()
    calls = fake.calls[base:]
    del fake.calls[base:]
    done = n
    if o['stop']:
        for i, st in enumerate(hist):
            if st not in GOOD:
                done = i + 1
                break
    failed = o['stop'] and hist[done - 1] not in GOOD
    if bool(ret) is bool(failed):
        out.append(f'run() returned {ret}, expected {not failed}')
    if len(calls) != done * per:
        return out + [f'{len(calls) / per} steps solved, expected {done}']
    xc = np.array(x0, dtype=float)
    X, steps, ws, was, costs, sw_, cpu = [xc], [], [], [], [], [], np.zeros((n, per))
    per_field = {k: [] for k in ('theta_list', 'lambda_list', 'alpha_list', 'z_list')}
    sots = []
    for i in range(done):
        s.x0 = xc
        if pv is not None:
            s.pg = pv[i].copy()
        if wi is not None:
            s.w0 = wi[i].copy()
        first = calls[i * per]
        st = s.start()
        if not np.array_equal(first['x0'], st):
            d = np.flatnonzero(first['x0'] != st)[:5].tolist()
            out.append(f'step {i} starts from w{d} = {first["x0"][d].tolist()}, expected {st[d].tolist()}')
        sig = c['sigma0']
        for it in range(per):
            cl = calls[i * per + it]
            sg = 0.0 if polish and it == per - 1 else sig
            e = s.p(sg, min(sg**1.5, sg))
            if not np.allclose(cl['p'], e, rtol=1e-12, atol=1e-14):
                d = np.flatnonzero(~np.isclose(cl['p'], e, rtol=1e-12, atol=1e-14))[:6].tolist()
                out.append(f'step {i} problem {it}: p{d} = {cl["p"][d].tolist()}, expected {e[d].tolist()}')
            sig *= b.opts.homotopy_update_slope
            if not (polish and it == per - 1):
                cpu[i, it] = 0.1 + 0.01 * (i * per + it)
        w = ans(i, per - 1)
        ex = expected(c, pr, w, xc)
        X = X + ex['x_list']
        sw_ += times(regs(i), ex['time_steps'], float(np.sum(steps)))[0]
        steps += list(ex['time_steps'])
        ws.append(w)
        was.append([st] + [ans(i, it) for it in range(iters)])
        costs.append(float(fake.fg()(w, calls[i * per + per - 1]['p'])[0]))
        for k in per_field:
            per_field[k].append(ex[k])
        if c['sot'] != 'NONE':
            sots.append(w[flat(pr.ind_sot)])
        xc = ex['x_out']
        if s.strategy == 'ALL_XCURRENT_WOPT_PREV':
            s.w0 = w.copy()
    checks = [('X_sim', X, eql), ('time_steps', steps, eqv), ('t_grid', np.concatenate(([0.0], np.cumsum(steps))), lambda a, e: vec(a).shape == vec(e).shape and np.allclose(vec(a), vec(e), atol=1e-12)),
              ('switch_times', sw_, lambda a, e: vec(a).shape == vec(e).shape and np.allclose(vec(a), vec(e), atol=1e-12)), ('w_sim', ws, eql), ('cost_vals', costs, lambda a, e: len(a) == len(e) and np.allclose(a, e, rtol=1e-12))]
    for k, nm in (('theta_list', 'theta_sim'), ('lambda_list', 'lambda_sim'), ('alpha_list', 'alpha_sim'), ('z_list', 'z_sim')):
        checks.append((nm, per_field[k], lambda a, e: len(a) == len(e) and all(eql(x, y) for x, y in zip(a, e))))
    checks.append(('sot', sots, lambda a, e: len(a) == len(e) and all(eqv(x, y) for x, y in zip(a, e))))
    checks.append(('w_all', was, lambda a, e: len(a) == len(e) and all(eql(x[:len(y)], y) and len(x) - len(y) in (0, 1 if polish else 0) for x, y in zip(a, e))))
    for nm, e, f in checks:
        if nm not in res:
            out.append(f'results have no field {nm}')
        elif not f(res[nm], e):
            out.append(f'{nm} is {str(vec(res[nm]).tolist())[:160]}, expected {str(vec(e).tolist())[:160]}')
    want = [nosnoc.Status.SUCCESS if q in GOOD else nosnoc.Status.INFEASIBLE for q in hist[:done]]
    if list(res['status']) != want:
        out.append(f'status is {res["status"]}, expected {want}')
    got = np.array(res['cpu_nlp'], dtype=float)
    if got.shape != (n, per):
        out.append(f'cpu_nlp has shape {got.shape}, expected {(n, per)}')
    else:
        if polish:
            got = got[:, :-1]
            cpu = cpu[:, :-1]
        if not np.allclose(got[:done], cpu[:done], atol=1e-12):
            out.append(f'cpu_nlp is {got.tolist()}, expected {cpu.tolist()}')
    if not np.array_equal(x0, keep[0]) or pv is not None and not np.array_equal(pv, keep[1]) or wi is not None and not eql(wi, keep[2]):
        out.append('the loop modified arrays of the caller')
    return out


def task(it):
    c, o, n, nloops, iters, polish, alpha = it
    try:
        return trans.with_timeout(500.0, _task, c, o, n, nloops, iters, polish, alpha)
    except Exception as e:
        import traceback
        return [f'{type(e).__name__}: {e} {traceback.format_exc()[-300:]}'], 0, 0, 0, None


def _task(c, o, n, nloops, iters, polish, alpha):
    b = build_loop(c, iters, polish)
    base = State(b)
    out, states, trs, traces, smp = [], set(), 0, 0, None
    for hist in itertools.product(itertools.product(alpha, repeat=n), repeat=nloops):
        # solver state is carried over from loop to loop, as a user would
        for q, h in enumerate(hist):
            o2 = o if q == 0 else dict(o, p=o['p'] and q % 2 == 0)
            m = one_loop(b, base, h, o2, 3 * q, iters, polish)
            traces += 1
            trs += len(h)
            for k in range(len(h) + 1):
                states.add((q,) + h[:k])
            if m:
                out.append(f'outcomes {hist} loop {q}: ' + ' ; '.join(m[:3]))
                break
        smp = hist
        if out:
            break
    return out, len(states), trs, traces, smp


def build_loop(c, iters, polish):
    from .trans import Built
    b = Built()
    b.cfg, b.mspec = c, MODELS[c['model']]
    with env.quiet():
        b.model = b.mspec.build(c['N'])
        op = make_opts(c)
        op.max_iter_homotopy = iters
        op.do_polishing_step = polish
        op.comp_tol = 1e-14
        b.opts = op
        b.solver = nosnoc.NosnocSolver(op, b.model)
        b.fake, b.prob = env.last_solver(), b.solver.problem
    return b


CF = [dict(model='Plain', Nfe=(2,)), dict(model='SimZ', Nfe=(2,)), dict(model='TwoSys', Nfe=(1,)), dict(model='SimZ', Nfe=(3,), scheme='GAUSS_LEGENDRE'),
      dict(model='Incl2', pss='STEP', Nfe=(2,)), dict(model='SimZ', pss='STEP', Nfe=(1,), rep='DIFFERENTIAL', fesd=False),
      dict(model='SimZ', Nfe=(2,), sot='LOCAL'), dict(model='ThreeSys', Nfe=(2,), sot='GLOBAL', mpcc='ELASTIC_INEQ'),
      dict(model='ZSwitch', Nfe=(2,), rep='DIFFERENTIAL_LIFT_X'), dict(model='Four', Nfe=(2,), scheme='GAUSS_LEGENDRE', cross='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'),
      dict(model='BigSim', Nfe=(2,)), dict(model='BigSim', Nfe=(7,), pss='STEP', n_s=1)]


def plan(q):
    for cf in CF:
        m = MODELS[cf['model']]
        if m.n_u:
            continue
        for init in ('ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL'):
            for p in (False, True):
                for w in ((False, True) if init == 'EXTERNAL' else (False,)):
                    for stop in (None, False, True):
                        for iters, polish in ((1, False), (2, False), (1, True)):
                            c = cfg_of(**dict(cf, init=init))
                            o = dict(p=p and m.n_pg > 0, w=w, stop=stop, pl=1 if stop else None)
                            if p and not m.n_pg:
                                continue
                            if iters == 1 and not polish:
                                for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                                    yield c, o, n, 1, 1, False, OUT if n <= 3 else (OUT[0], OUT[2])
                                yield c, o, 2, 2, 1, False, (OUT[0], OUT[2])
                                if not q:
                                    yield c, o, 2, 3, 1, False, (OUT[0], OUT[2])
                            else:
                                yield c, o, 2, 1, iters, polish, (OUT[1], OUT[3])
                                yield c, o, 1, 2, iters, polish, (OUT[0], OUT[3])


def run(ck):
    ck.level = 'model_checking'

    def on(it, r):
        msgs, s, t, tr, smp = r
        ck.states += s
        ck.transitions += t
        ck.traces += tr
        if msgs:
            ck.violation(vkey('C16', msgs[0].split(': ', 1)[-1]), f'[{describe(it[0])} {it[1]} Nsim={it[2]} loops={it[3]}] {msgs[0]}', dict(kind='c16', it=it))
        if smp and it[2] > 1 and it[3] > 1:
            ck.sample(dict(cfg=describe(it[0]), options=it[1], outcomes=smp))
    items = list(plan(ck.quick))
    pmap(ck, task, items, on, chunk=1)
    ck.part('settings', n=len(items))
    ck.rules.append('Model: the loop as a transition system over (step, current state, parameters, start point); the environment chooses the return code of '
                    'every step.  All outcome words up to the listed number of steps (and of up to three consecutive loops on one solver) are enumerated for '
                    'every setting (configuration, initialisation, p_values, w_init, stop_on_failure, homotopy length, polishing) and replayed on the real '
                    'NosnocSimLooper; every NLP call and every result field is compared.  States: distinct outcome prefixes per setting.')


def replay(data):
    it = list(data['it'])
    c = dict(it[0])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return task((c, it[1], it[2], it[3], it[4], it[5], tuple(it[6])))[0]
