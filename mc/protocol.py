"""C12 / C17: explicit-state exploration of all set / solve sequences of one solver.

Reference model: (x0, p_time_var, p_global, w0).  Every sequence of operations up to the bound is
replayed on a freshly built real solver; at every solve the arguments that reach the NLP solver are
compared with the model state."""
import itertools
import numpy as np
from . import env, slots, trans
from .driver import pmap
from .models import MODELS, E
from .ref import flat
from .results import vec
from .trans import build, cfg_of
from .transcheck import vkey, describe

nosnoc = env.nosnoc


class State:
    """reference state of one solver"""

    def __init__(self, b):
        m, c = b.mspec, b.cfg
        self.m, self.c = m, c
        self.x0 = np.array(m.x0, dtype=float)
        self.pt = np.array(m.pt_val(c['N']), dtype=float)
        self.pg = np.array(m.pg_val(), dtype=float)
        self.w0 = np.array(b.prob.w0, dtype=float)
        pr = b.prob
        self.ix = [q for k in pr.ind_x for f in k for q in f]
        self.ix_stage = [[q for f in k for q in f] for k in pr.ind_x]
        self.ix_fe = [[q for q in f] for k in pr.ind_x for f in k]
        self.iu = [list(q) for q in pr.ind_u]
        self.iv = flat(pr.ind_v_global)
        self.ith = [[flat(st) for st in f] for k in pr.ind_theta for f in k]
        self.strategy = c['init']
        # multipliers of the first element that active-set fixing sets to zero
        self.ifix = [[q for sy in st for q in sy] for st in pr.ind_theta[0][0]] if c['fix'] and c['fesd'] and c['pss'] == 'STEWART' else []
        self.eps = 1e1 * b.opts.comp_tol

    def lam00(self):
        m, c = self.m, self.c
        e = E(x=list(self.x0), u=[0.] * m.n_u, z=list(m.z0 or [0.] * m.n_z), pt=list(self.pt[0]), pg=list(self.pg), v=[0.] * m.n_v)
        if c['pss'] == 'STEP':
            cv = [v for s in m.subs for v in s['c'](e)]
            return np.array([max(-v, 0.) for v in cv] + [max(v, 0.) for v in cv])
        out = []
        for s in range(len(m.subs)):
            g = [float(v) for v in m.switch_values(e, s, 'STEWART')]
            out += [v - min(g) for v in g]
        return np.array(out)

    def p(self, sigma, tau):
        return np.concatenate([np.concatenate((self.pt[k], self.pg)) for k in range(self.c['N'])] + [[sigma, tau], self.lam00(), self.x0])

    def start(self):
        w = self.w0.copy()
        if self.strategy != 'EXTERNAL':
            for q in self.ix:
                w[q] = self.x0
        l = self.lam00()
        for st in self.ifix:
            for q, v in zip(st, l):
                if v > self.eps:
                    w[q] = 0.0
        return w

    def key(self):
        return (self.x0.tobytes(), self.pt.tobytes(), self.pg.tobytes(), self.w0.tobytes())


def value(op, b, s):
    """deterministic values of the operations"""
    m, c = b.mspec, b.cfg
    kind, v = op
    v = float(v)
    nfe = sum(c['Nfe'])
    if v == 4.0 and kind in ('x0', 'pg', 'pt'):     # value 1 in another order: the same sum and norm
        a = value((kind, 1), b, s)
        return a.flatten()[::-1].reshape(a.shape).copy()
    if v > 5 and kind != 'solve':       # other magnitudes (with zeros and signs), numbers close to zero, integers
        a = value((kind, 1), b, s)
        n = np.arange(a.size).reshape(a.shape)
        if v == 6.0:
            return a * np.array([1e4, -1e3, 1e-9, 0.0, 1.0, -1e-3])[n % 6]
        if v == 7.0:
            return 1e-13 * (n % 3 - 1)
        return (n % 4) - 1
    g = lambda *sh: (0.1 + 0.37 * v + 0.011 * np.arange(int(np.prod(sh))) * (-1 if v % 2 else 1)).reshape(sh)
    if kind == 'x0':
        return np.array(m.x0, dtype=float) * (-1 if v % 2 else 1.5) + 0.01 * v
    if kind == 'pg':
        return g(m.n_pg)
    if kind == 'pt':
        return g(c['N'], m.n_pt)
    if kind == 'u':
        return g(c['N'], m.n_u)
    if kind == 'v':
        return g(m.n_v)
    if kind == 'xs':
        return g(c['N'], m.n_x)
    if kind == 'xf':
        return g(nfe, m.n_x)
    if kind == 'theta':
        return g(nfe, sum(m.n_f()))
    if kind == 'w':
        return g(len(s.w0))
    if kind == 'solve':
        a = 0.2 + 0.003 * v + 0.0007 * np.arange(len(s.w0))
        if v == 6.0:
            a = a * np.array([1e4, -1e3, 1e-12, 0.0, 1.0, -1e-9, 5.0])[np.arange(len(a)) % 7]
        return a
    raise ValueError(op)


# solve operations whose NLPs end without success
FAIL = {4: 'Maximum_Iterations_Exceeded', 5: 'Infeasible_Problem_Detected'}
FIELD = dict(x0='x0', pg='p_global', pt='p_time_var', u='u', v='v_global', xs='x', xf='x', theta='theta', w='w')


def bad(op, b):
    """(field, value) that has to be refused"""
    m, c = b.mspec, b.cfg
    n = op[1]
    N, nfe = c['N'], sum(c['Nfe'])
    L = [('x', np.ones((max(N, nfe) + 1, m.n_x))), ('x', np.ones((nfe, m.n_x + 1))), ('u', np.ones((N + 1, m.n_u))) if m.n_u else ('u', np.ones((N + 1, 2))),
         ('theta', np.ones((nfe + 1, 2))), ('nonsense', np.ones(2)), ('p_time_var', np.ones((N + 1, m.n_pt))), ('p_global', np.ones(m.n_pg + 2)),
         ('w', np.ones(b.fake.nlp['x'].shape[0] + 1)), ('x0', np.ones(m.n_x + 1)), ('v_global', np.ones(m.n_v + 2)), ('', np.ones(1)),
         ('theta', np.ones((nfe, 77))), ('w', np.ones(b.fake.nlp['x'].shape[0] - 1)), ('p_time_var', np.ones((N, m.n_pt + 2)))]
    return L[n]


NBAD = 14


def apply_model(s, op, val):
    kind, val = op[0], np.array(val, dtype=float)
    if kind == 'x0':
        s.x0 = val.copy()
    elif kind == 'pg':
        s.pg = val.copy()
    elif kind == 'pt':
        s.pt = val.copy()
    elif kind == 'u':
        for k, ind in enumerate(s.iu):
            s.w0[ind] = val[k]
    elif kind == 'v':
        s.w0[s.iv] = val
    elif kind == 'xs':
        for k, L in enumerate(s.ix_stage):
            for q in L:
                s.w0[q] = val[k]
    elif kind == 'xf':
        for k, L in enumerate(s.ix_fe):
            for q in L:
                s.w0[q] = val[k]
    elif kind == 'theta':
        for k, L in enumerate(s.ith):
            for q in L:
                s.w0[q] = val[k]
    elif kind == 'w':
        s.w0 = val.copy()


def run_sequence(c, seq, iters=2):
    """returns (messages for C12, messages for C17, model states visited)"""
    b = build(c)
    b.opts.max_iter_homotopy = iters
    s = State(b)
    m12, m17, keys, held, kept = [], [], [s.key()], [], []
    user = []
    names = []
    for op in list(seq) + [('solve', 3)]:
        names.append(f'{op[0]}{op[1]}')
        if op[0] == 'bad':
            f, v = bad(op, b)
            if f in ('u', 'v_global', 'p_global') and v.size == 0:
                continue
            try:
                with env.quiet():
                    b.solver.set(f, v)
                m17.append(f'after {names}: set({f!r}, shape {v.shape}) is accepted')
            except (Exception, Warning):
                pass
        elif op[0] == 'solve':
            ans = value(op, b, s)
            base = len(b.fake.calls)
            stat = FAIL.get(op[1], 'Solve_Succeeded')
            b.fake.script = lambda k, rec: {'x': ans + 0.01 * (k - base), 'status': stat}
            with env.quiet():
                res = b.solver.solve()
            calls = b.fake.calls[base:]
            sig = c['sigma0']
            for k, cl in enumerate(calls):
                e = s.p(sig, min(sig**1.5, sig))
                if c['polish'] and k == len(calls) - 1:
                    e = s.p(0.0, 0.0)
                if cl['p'].shape != e.shape or not np.allclose(cl['p'], e, rtol=1e-12, atol=1e-14):
                    d = [] if cl['p'].shape != e.shape else np.flatnonzero(~np.isclose(cl['p'], e, rtol=1e-12, atol=1e-14)).tolist()
                    m12.append(f'after {names}: problem {k} gets p{d} = {cl["p"][d].tolist()}, expected {e[d].tolist()}')
                sig = sig * b.opts.homotopy_update_slope
            st = s.start()
            if calls[0]['x0'].shape != st.shape or not np.array_equal(calls[0]['x0'], st):
                d = np.flatnonzero(calls[0]['x0'] != st).tolist() if calls[0]['x0'].shape == st.shape else []
                m17.append(f'after {names}: start point differs in w{d[:6]} = {calls[0]["x0"][d[:6]].tolist()}, expected {st[d[:6]].tolist()}')
            if s.strategy == 'ALL_XCURRENT_WOPT_PREV':
                s.w0 = np.array(res['w_sol'], dtype=float)
            elif s.strategy != 'EXTERNAL':
                pass
            last = ans + 0.01 * (len(calls) - 1)
            if not np.allclose(vec(res['w_sol']), last, rtol=0, atol=1e-13):
                m17.append(f'after {names}: w_sol is not the last answer')
            if not np.allclose(vec(res['x_all_list'][0]), s.x0) or not np.allclose(vec(res['x_traj'][0]), s.x0):
                m17.append(f'after {names}: reported initial state is {res["x_traj"][0]}, expected {s.x0}')
            held.append((len(names), res, {k: vec(res[k]).copy() for k in ('w_sol', 'x_all_list', 'x_traj', 'u_list', 'w_all', 't_grid')}))
        else:
            val = value(op, b, s)
            arg = val.copy()
            try:
                with env.quiet():
                    b.solver.set(FIELD[op[0]], arg)
            except Warning:
                if op[0] not in ('xs', 'xf', 'w') or s.strategy == 'EXTERNAL':
                    m17.append(f'after {names}: a well-formed set is refused')
            except Exception as e:
                m17.append(f'after {names}: a well-formed set is refused: {type(e).__name__} {e}')
            if not np.array_equal(arg, val):
                m17.append(f'after {names}: set modified the array of the caller')
            user.append((len(names), arg, val))
            apply_model(s, op, val)
            arg += 1000     # the caller goes on using its array
        for n, arg, val in user:
            if not np.array_equal(arg, val + 1000):
                m17.append(f'after {names}: the array passed in operation {n} was modified later')
        for n, res, snap in held:
            for k, v in snap.items():
                if not np.array_equal(vec(res[k]), v):
                    m17.append(f'after {names}: {k} of the results of operation {n} changed')
        keys.append(s.key())
        if m12 or m17:
            break
    return m12, m17, keys, len(names)


def task(it):
    c, seqs, iters = it
    v12, v17, keys, tr, n = [], [], set(), 0, 0
    try:
        for seq in seqs:
            a, b, k, t = trans.with_timeout(30.0, run_sequence, c, seq, iters)
            keys |= set(k)
            tr += t
            n += 1
            if a:
                v12.append((seq, a))
            if b:
                v17.append((seq, b))
            if len(v12) + len(v17) > 3:
                break
    except Exception as e:
        v12.append((seq, [f'{list(seq)}: {type(e).__name__}: {e}']))
        v17.append(v12[-1])
    return v12, v17, {hash(k) for k in keys}, tr, n


CFG = {
    'full': dict(model='Full', N=2, Nfe=(1, 2), n_s=1, ocp=('cost',)),
    'even': dict(model='Full', N=3, Nfe=(1, 1, 1), n_s=1, ocp=('bounds', 'guess')),
    'gl': dict(model='Full', N=2, Nfe=(2, 1), n_s=2, scheme='GAUSS_LEGENDRE', rep='DIFFERENTIAL', pss='STEP'),
    'four': dict(model='Four', N=1, Nfe=(2,), n_s=2),
    'four2': dict(model='Four', N=2, Nfe=(2, 1), n_s=1, pss='STEP'),
    'two': dict(model='TwoSys', N=1, Nfe=(2,), n_s=1),
    'two-step': dict(model='TwoSys', N=2, Nfe=(1, 2), n_s=1, pss='STEP', mpcc='ELASTIC_INEQ'),
    'three': dict(model='ThreeSys', N=1, Nfe=(3,), n_s=1),
    'sot': dict(model='Clock', N=2, Nfe=(1, 2), n_s=1, sot='LOCAL', tf=True),
    'lift': dict(model='Full', N=2, Nfe=(1, 2), n_s=2, rep='DIFFERENTIAL_LIFT_X', scheme='GAUSS_LEGENDRE', sot='GLOBAL'),
    'fix': dict(model='Full', N=2, Nfe=(1, 2), n_s=1, fix=True),
    'fix-two': dict(model='TwoSys', N=1, Nfe=(2,), n_s=2, fix=True, polish=True),
    'polish': dict(model='Four', N=1, Nfe=(2,), n_s=1, pss='STEP', polish=True),
    'big': dict(model='Big', N=2, Nfe=(1, 2), n_s=1, ocp=('cost',)),
    'big-step': dict(model='Big', N=1, Nfe=(2,), n_s=1, pss='STEP', fix=True),
    'big-g': dict(model='BigG', N=2, Nfe=(1, 2), n_s=1, fix=True),
    'long': dict(model='Full', N=6, Nfe=(1, 2, 1, 3, 1, 1), n_s=1, fix=True),
    'nofesd': dict(model='Full', N=2, Nfe=(2, 1), n_s=2, fesd=False),
}
STRAT = ['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL']


def valid_ops(c, ops):
    m = MODELS[c['model']]
    out = []
    for o in ops:
        if o[0] == 'pg' and not m.n_pg or o[0] == 'pt' and not m.n_pt or o[0] in ('u',) and not m.n_u or o[0] == 'v' and not m.n_v:
            continue
        if o[0] == 'theta' and c['pss'] != 'STEWART':
            continue
        if o[0] == 'xs' and c['N'] == sum(c['Nfe']) and ('xf', o[1]) in ops:
            continue
        out.append(o)
    return out


def batches(c, ops, depth, iters, size=40):
    seqs = list(itertools.product(valid_ops(c, ops), repeat=depth))
    for i in range(0, len(seqs), size):
        yield c, seqs[i:i + size], iters


def plan12(q):
    ops = [('x0', 1), ('x0', 2), ('pg', 1), ('pg', 2), ('pt', 1), ('pt', 2), ('solve', 1), ('w', 1), ('u', 1)]
    perm = [('x0', 1), ('x0', 4), ('pg', 1), ('pg', 4), ('pt', 1), ('pt', 4), ('solve', 4)]
    for nm in CFG:
        for st in STRAT[:2] if q else STRAT:
            c = cfg_of(**dict(CFG[nm], init=st))
            yield from batches(c, ops, 3 if q else 4, 2)
            yield from batches(c, perm, 3 if q else 4, 1)
            yield from batches(c, [(k, n) for k in ('x0', 'pg', 'pt', 'solve') for n in ((6, 7, 8) if k != 'solve' else (6,))], 2 if q else 3, 1)
    c = cfg_of(**dict(CFG['full'], init=STRAT[1]))
    yield from batches(c, ops[:7], 4 if q else 5, 1)


def plan17(q):
    ops = [('x0', 1), ('u', 1), ('u', 2), ('v', 1), ('xs', 1), ('xf', 2), ('theta', 1), ('w', 1), ('solve', 1)]
    for nm in CFG:
        for st in STRAT:
            c = cfg_of(**dict(CFG[nm], init=st))
            yield from batches(c, ops, 3 if q else 4, 1)
            mag = [(k, n) for k in ('x0', 'u', 'v', 'xf', 'theta', 'w') for n in (6, 7, 8)] + [('solve', 6)]
            yield from batches(c, mag, 2 if q else 3, 1)
            # refused operations change nothing
            for n in range(NBAD):
                S = [(('u', 1), ('bad', n)), (('bad', n), ('solve', 1)), (('w', 1), ('bad', n), ('x0', 1)), (('pt', 1), ('bad', n), ('pg', 2))]
                yield c, [s for s in S if set(s) <= set(valid_ops(c, s))], 1
    for st in STRAT:
        c = cfg_of(**dict(CFG['full'], init=st))
        yield from batches(c, [('x0', 1), ('u', 1), ('xf', 2), ('w', 1), ('solve', 1), ('solve', 2), ('solve', 4)], 4 if q else 5, 2)
    for nm in CFG:
        for st in STRAT:
            yield from batches(cfg_of(**dict(CFG[nm], init=st)), [('x0', 1), ('u', 1), ('solve', 4), ('solve', 5)], 3 if q else 5, 2)


def run(ck):
    ck.level = 'model_checking'
    which = 0 if ck.pid == 'C12' else 1
    states = set()
    items = list((plan12 if which == 0 else plan17)(ck.quick))

    def on(it, r):
        viol = r[which]
        states.update((describe(it[0]), k) for k in r[2])
        ck.transitions += r[3]
        ck.traces += r[4]
        for seq, msgs in viol[:2]:
            ck.violation(vkey(ck.pid, msgs[0].split(']: ', 1)[-1]), f'[{describe(it[0])}] {msgs[0]}', dict(kind='protocol', cfg=it[0], seq=seq, iters=it[2]))
        if len(it[1]) > 5:
            ck.sample(dict(cfg=describe(it[0]), sequence=[f'{o[0]}{o[1]}' for o in it[1][-1]] + ['solve']))
    pmap(ck, task, items, on, chunk=1)
    ck.states = len(states)
    if which == 0:
        cnt = dict(configurations=0, perturbations=0, rows=0, rows_with_parameters=0)

        def on2(c, r):
            msgs, n, rows, used = r
            cnt['configurations'] += 1
            cnt['perturbations'] += n
            cnt['rows'] += rows
            cnt['rows_with_parameters'] += used
            ck.evals += 1
            ck.nontrivial += bool(used)
            if msgs:
                ck.violation(vkey('C12', msgs[0]), f'[{describe(c)}] ' + ' ; '.join(msgs[:3]), dict(kind='slots', cfg=c))
        if not ck.full():
            pmap(ck, slots.task, list(slots.space(ck.quick)), on2, chunk=2)
        ck.part('parameter slots', **cnt)
        ck.rules.append('Slots: for every listed configuration each variable and each parameter slot is perturbed in turn, in the NLP of the real code and '
                        'in the reference transcription; every constraint row must use exactly the expected parameter slots together with the expected '
                        'variables, and every (parameter, variable) pair must enter the objective together exactly when expected.')
    ck.part('batches', n=len(items), configurations=len({describe(i[0]) for i in items}))
    ck.rules.append('Model: state (x0, p_time_var per stage, p_global, start point).  All sequences of operations (set of every field with several values, '
                    'refused sets, solves with different answers) of the bounded length, for every listed configuration and initialisation strategy, are '
                    'replayed on a freshly built solver with a final solve; at every solve the parameter vector of every homotopy problem and the start '
                    'point that reach the NLP solver are compared with the model; arrays handed in are overwritten by the caller afterwards, and earlier '
                    'results are compared with their snapshot.  States: distinct model states; transitions: operations executed.')


def replay(pid, data):
    c = dict(data['cfg'])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    if data['kind'] == 'slots':
        return slots.task(c)[0]
    r = run_sequence(c, [tuple(o) for o in data['seq']], data['iters'])
    return r[0 if pid == 'C12' else 1]
