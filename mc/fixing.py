"""C24: what active-set fixing and the polishing step fix, for every pattern of initial and final multipliers."""
import itertools
import numpy as np
from . import env, dcs, space
from .driver import pmap
from .models import MODELS, Ocp
from .ref import flat
from .space import MPCC, REP, SCHEME, BOOL, product, mp, key
from .trans import build, cfg_of, make_opts, supported, with_timeout, Built
from .transcheck import describe, short, vkey
from .results import eqv

nosnoc = env.nosnoc
TOL = 1e-3      # comp_tol; eps = 10 * comp_tol
EPS = 1e1 * TOL


def make(c, fix=False, polish=False, iters=2):
    b = Built()
    b.cfg, b.mspec = c, MODELS[c['model']]
    with env.quiet():
        b.model = b.mspec.build(c['N'])
        b.ocp = None if c['ocp'] is None else Ocp(b.mspec, c['ocp']).build()
        o = make_opts(c)
        o.max_iter_homotopy = iters
        o.comp_tol = TOL
        o.fix_active_set_fe0 = fix
        o.do_polishing_step = polish
        b.opts = o
        b.solver = nosnoc.NosnocSolver(o, b.model, b.ocp)
    b.fake, b.prob = env.last_solver(), b.solver.problem
    return b


# --- active-set fixing ----------------------------------------------------------------------------
def theta_slots(pr):
    """per stage of the first element the indices of the convex multipliers in the order of the initial multipliers"""
    return [[q for s in st for q in s] for st in pr.ind_theta[0][0]]


def x0_patterns(m, q):
    """initial states: a grid around the given one; switching values of both signs and zeros appear"""
    offs = [0.0, -1.1, 0.9] if q else [0.0, -1.1, 0.9, -0.4]
    pts = [tuple(v + o for v, o in zip(m.x0, d)) for d in itertools.product(offs, repeat=m.n_x)]
    # one component much larger than the others: the multipliers of the other subsystems stay small in comparison
    big = [tuple(sg * 1e5 if i == j else v for j, v in enumerate(m.x0)) for i in range(m.n_x) for sg in ((1, -1) if not q else (1,))]
    return pts + [(0.0,) * m.n_x] + big


def fix_task(it):
    c, q = it
    res = dict(msg=[], cases=0, fixed=0, patterns=set())
    m = MODELS[c['model']]
    b = make(c, fix=True)
    b0 = make(c, fix=False)
    pr = b.prob
    relevant = c['fesd'] and c['pss'] == 'STEWART'
    for x0 in x0_patterns(m, q):
        res['cases'] += 1
        out = []
        for bb in (b, b0):
            del bb.fake.calls[:]
            with env.quiet():
                bb.solver.set('x0', np.array(x0))
                bb.solver.solve()
            out.append(list(bb.fake.calls))
        calls, plain = out
        lam0 = b0.fake.calls[0]['p'][-m.n_x - len(lam0_slots(b0)):-m.n_x]
        want = set()
        if relevant:
            for st in theta_slots(pr):
                want |= {q_ for q_, l in zip(st, lam0) if l > EPS}
        res['fixed'] += len(want)
        res['patterns'].add(tuple(bool(l > EPS) for l in lam0))
        if len(calls) != len(plain):
            res['msg'].append(f'x0={x0}: {len(calls)} NLPs with fixing, {len(plain)} without')
            continue
        for k, (a, p) in enumerate(zip(calls, plain)):
            lb, ub = p['lbx'].copy(), p['ubx'].copy()
            lb[list(want)] = ub[list(want)] = 0.0
            for nm, e, v in (('lower', lb, a['lbx']), ('upper', ub, a['ubx'])):
                d = np.flatnonzero(~eq(e, v))
                if len(d):
                    w = int(d[0])
                    res['msg'].append(f'x0={x0}, lambda00={np.round(lam0, 4).tolist()}: {nm} bound of {b.fake.nlp["x"][w]} is {v[w]} in NLP {k}, expected {e[w]}')
            if k == 0:
                e = p['x0'].copy()
                e[list(want)] = 0.0
                if not np.array_equal(e, a['x0']):
                    w = int(np.flatnonzero(e != a['x0'])[0])
                    res['msg'].append(f'x0={x0}: start value of {b.fake.nlp["x"][w]} is {a["x0"][w]}, expected {e[w]}')
            if not np.array_equal(a['p'], p['p']) or not eq(a['lbg'], p['lbg']).all() or not eq(a['ubg'], p['ubg']).all():
                res['msg'].append(f'x0={x0}: parameters or constraint bounds differ in NLP {k}')
        # the stored problem is unchanged
        for nm in ('lbw', 'ubw', 'lbg', 'ubg'):
            if not eq(getattr(b.prob, nm), getattr(b0.prob, nm)).all():
                res['msg'].append(f'x0={x0}: fixing changes {nm} of the problem')
        if res['msg']:
            break
    return res


def lam0_slots(b):
    return range(b.fake.nlp['p'].shape[0] - b.mspec.n_x - (b.mspec.n_pt + b.mspec.n_pg) * b.cfg['N'] - 2)


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return (a == b) | (np.isclose(a, b, rtol=1e-12, atol=1e-14))


# --- polishing ------------------------------------------------------------------------------------
# classes of a final multiplier: value, numerically zero, numerically one
CLS = [(0.0, True, False), (0.5 * EPS, True, False), (-1e-9, True, False), (2.0 * EPS, False, False), (0.5, False, False), (1 - 2 * EPS, False, False),
       (1 - 0.5 * EPS, False, True), (1.0, False, True), (1 + 0.5 * EPS, False, True), (1 + 2 * EPS, False, False), (3.0, False, False)]


def words_of(b, mode):
    """assignments of classes to the multipliers of the last iterate"""
    pr = b.prob
    conv = flat(pr.ind_theta) + flat(pr.ind_alpha)
    sw = flat(pr.ind_lam) + flat(pr.ind_lambda_n) + flat(pr.ind_lambda_p)
    mult = conv + sw
    if mode == 'all words':
        for w in itertools.product(range(len(CLS)), repeat=len(mult)):
            yield dict(zip(mult, w))
    else:
        # every multiplier in every class, the others in class `base`
        for base in (4, 0, 7):
            for q in mult:
                for k in range(len(CLS)):
                    d = {m: base for m in mult}
                    d[q] = k
                    yield d


def polish_task(it):
    c, mode, status, iters = it
    res = dict(msg=[], cases=0, fixed=0, patterns=set())
    b = make(c, polish=True, iters=iters)
    pr, fake = b.prob, b.fake
    nw = fake.nlp['x'].shape[0]
    conv = set(flat(pr.ind_theta) + flat(pr.ind_alpha))
    lastw, npol = {}, [0]
    answer = {}

    def script(k, rec):
        if rec['p'][o_sigma] != 0.0:
            x = base.copy()
            for q, cls in cur.items():
                x[q] = CLS[cls][0]
            lastw['x'] = x
            return dict(x=x, status='Solve_Succeeded' if status[0] else 'Infeasible_Problem_Detected')
        npol[0] += 1
        return dict(x=answer['x'], status='Solve_Succeeded' if status[1] else 'Infeasible_Problem_Detected', iter=77)
    fake.script = script
    o_sigma = (b.mspec.n_pt + b.mspec.n_pg) * c['N']
    # the other variables take the values zero and one as well
    base = np.where(np.arange(nw) % 2 == 0, 0.0, 1.0)
    answer['x'] = 0.2 + 0.05 * np.sin(np.arange(nw))
    L0, U0 = pr.lbw.copy(), pr.ubw.copy()
    for cur in words_of(b, mode):
        res['cases'] += 1
        del fake.calls[:]
        npol[0] = 0
        with env.quiet():
            r = b.solver.solve()
        hist = fake.calls
        desc = f'final multipliers { {str(fake.nlp["x"][q]): CLS[k][0] for q, k in list(cur.items())[:12]} }'
        pol = [a for a in hist if a['p'][o_sigma] == 0.0]
        if len(pol) != 1 or pol[0] is not hist[-1] or hist[-1]['p'][o_sigma + 1] != 0.0:
            res['msg'].append(f'{len(pol)} polishing NLPs after {len(hist) - len(pol)} of the homotopy, tau {hist[-1]["p"][o_sigma + 1]}')
            break
        a = hist[-1]
        lb, ub = L0.copy(), U0.copy()
        for q, k in cur.items():
            if CLS[k][1]:
                lb[q] = ub[q] = 0.0
                res['fixed'] += 1
            elif CLS[k][2] and q in conv:
                lb[q] = ub[q] = 1.0
                res['fixed'] += 1
        for nm, e, v in (('lower', lb, a['lbx']), ('upper', ub, a['ubx'])):
            d = np.flatnonzero(~eq(e, v))
            if len(d):
                w = int(d[0])
                res['msg'].append(f'{desc}: {nm} bound of {fake.nlp["x"][w]} (value {lastw["x"][w]}) is {v[w]} in the polishing step, expected {e[w]}')
                break
        if not np.array_equal(a['x0'], lastw['x']):
            res['msg'].append(f'{desc}: the polishing step does not start at the last iterate')
        if not np.array_equal(np.delete(a['p'], [o_sigma, o_sigma + 1]), np.delete(hist[0]['p'], [o_sigma, o_sigma + 1])):
            res['msg'].append(f'{desc}: parameters differ in the polishing step')
        if not eq(a['lbg'], hist[0]['lbg']).all() or not eq(a['ubg'], hist[0]['ubg']).all():
            res['msg'].append(f'{desc}: constraint bounds differ in the polishing step')
        if not np.array_equal(r['w_sol'], answer['x']):
            res['msg'].append(f'{desc}: the returned solution is not the one of the polishing step')
        if not np.array_equal(np.asarray(r['x_list'][-1]).flatten(), answer['x'][pr.ind_x[-1][-1][-1]]):
            res['msg'].append(f'{desc}: x_list is not the one of the polishing step')
        if (r['status'] == nosnoc.Status.SUCCESS) != bool(status[1]):
            res['msg'].append(f'{desc}: status {r["status"]}, polishing step {"succeeded" if status[1] else "failed"}')
        f = float(fake.fg()(answer['x'], a['p'])[0])
        if not np.isclose(float(r['cost_val']), f, rtol=1e-9, atol=1e-9, equal_nan=True):
            res['msg'].append(f'{desc}: cost_val {r["cost_val"]}, cost of the polished solution {f}')
        if r['nlp_iter'][-1] != 77:
            res['msg'].append(f'{desc}: nlp_iter[-1] is {r["nlp_iter"][-1]}, polishing step took 77')
        if not (eq(L0, pr.lbw).all() and eq(U0, pr.ubw).all()):
            res['msg'].append(f'{desc}: polishing changes the bounds of the problem')
        if res['msg']:
            break
    return res


def plans(q):
    models = ('Big', 'BigG', 'BigSim', 'Plain', 'Const', 'TwoSys', 'Four', 'GStewart', 'GStewart2', 'Incl', 'ThreeSys', 'SimZ', 'Full', 'Clock', 'ZSwitch')
    seen = set()
    for part, axes in (('fixing', dict(mp=mp(*models), scheme=SCHEME, rep=REP, fesd=BOOL, lay=[(1, (2,)), (2, (1, 2))], n_s=[1, 2] if q else [1, 2, 3])),
                       ('fixing, modes', dict(mp=mp('Plain', 'TwoSys', 'GStewart2'), mpcc=MPCC, cross=space.CROSS, ocp=[None, space.FULL], sot=space.SOT[:2], lay=[(1, (1,)), (2, (2, 1))]))):
        for c in product(**axes):
            if (part, key(c)) not in seen:
                seen.add((part, key(c)))
                yield ('fix', part, c, q)
    pol = [('one at a time', dict(mp=mp(*models), scheme=SCHEME, rep=REP, lay=[(1, (2,)), (2, (1, 2))] if not q else [(2, (1, 1))], fesd=BOOL)),
           ('one at a time, modes', dict(mp=mp('Plain', 'Full'), mpcc=MPCC, cross=space.CROSS[1:] if q else space.CROSS, ocp=[None, ('cost', 'term', 'comp_glob')], sot=space.SOT, n_s=[1],
                                         lay=[(1, (2,))])),
           ('one at a time, least squares', dict(mp=mp('Plain', 'TwoSys'), mpcc=['SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ'], lsq=[True], n_s=[1], lay=[(1, (2,))]))]
    for part, axes in pol:
        for n, c in enumerate(product(**axes)):
            yield ('polish', part, c, 'single', [(True, True), (True, False), (False, True), (False, False)][n % 4], 1 + n % 2)
    for m, pss in (('Const', 'STEWART'), ('Const', 'STEP')):
        for st in ((True, True), (False, False)) if q else itertools.product((True, False), repeat=2):
            yield ('polish', 'all words', cfg_of(model=m, pss=pss, N=1, Nfe=(1,), n_s=1), 'all words' if pss == 'STEP' or not q else 'single', st, 1)
            if q and pss == 'STEWART':
                yield ('polish', 'all words', cfg_of(model=m, pss=pss, N=1, Nfe=(1,), n_s=1), 'all words', st, 1)


def _task(it):
    try:
        return with_timeout(200.0, fix_task if it[0] == 'fix' else polish_task, it[2:])
    except Exception as e:
        return dict(msg=[f'{type(e).__name__}: {e}'], cases=1, fixed=0, patterns=set())


def run(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, r):
        d = cnt.setdefault(it[0] + ' ' + it[1], dict(problems=0, cases=0, fixed=0, patterns=set()))
        d['problems'] += 1
        d['cases'] += r['cases']
        d['fixed'] += r['fixed']
        d['patterns'] |= r['patterns']
        ck.evals += r['cases']
        ck.nontrivial += r['cases'] if r['fixed'] else 0
        if r['msg']:
            ck.violation(vkey('C24', it[1] + r['msg'][0]), f'[{it[1]}: {describe(it[2])}] {r["msg"][0]}', dict(kind='c24', item=list(it)))
        if r['fixed']:
            ck.sample(dict(part=it[1], cfg=short(it[2]), cases=r['cases'], fixed=r['fixed']))

    pmap(ck, _task, list(plans(ck.quick)), on, chunk=4)
    for k, d in cnt.items():
        d['patterns'] = len(d['patterns'])
        ck.part(k, **d)
    ck.rules.append('Fixing: every initial state of a grid (all sign patterns of the switching functions, and the origin) on every listed problem; the NLP calls with and without fixing are '
                    'compared and may differ only in the convex multipliers of the first element whose initial multiplier is positive.  Polishing: the NLP solver answers with a last iterate in '
                    'which every multiplier takes every class (zero, below / above the threshold, near one from both sides, larger), one at a time on all problems and in all combinations on the '
                    'smallest one, while all other variables are zero or one; the polishing NLP and the result are compared with the reference.')


def replay(data):
    it = list(data['item'])
    c = dict(it[2])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    it[2] = c
    return _task(tuple(it))['msg']
