"""C14 / C15: decoding of the primal solution, and switch times, against an independent decoder."""
import itertools
import numpy as np
from . import env, space, trans
from .driver import pmap
from .models import MODELS
from .ref import flat, default_cfg
from .space import (BOOL, CROSS, LAY, MPCC, REP, SCHEME, SOT, product, mp, deviations, key, BASES, layouts)
from .trans import build, cfg_of
from .transcheck import ALL, describe, short, vkey, nontrivial

nosnoc = env.nosnoc


def vec(x):
    """anything the results may hold -> flat float vector"""
    if isinstance(x, (list, tuple)):
        return np.concatenate([vec(y) for y in x]) if len(x) else np.zeros(0)
    return np.array(x, dtype=float).flatten()


def eqv(a, b):
    a, b = vec(a), vec(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-12)


def eql(a, b):
    """list of vectors, element by element"""
    return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))


def steps_of(c, pr, w):
    if c['fesd']:
        return [float(w[q]) for q in pr.ind_h]
    return [c['T'] / c['N'] / n for n in c['Nfe'] for _ in range(n)]


def expected(c, pr, w, x0):
    els = [(k, i) for k in range(c['N']) for i in range(c['Nfe'][k])]
    g = lambda ind: w[np.array(ind, dtype=int)] if len(ind) else np.zeros(0)
    last = lambda arr: [vec([g(s) for s in arr[k][i][-1]]) if len(arr[k][i]) else np.zeros(0) for k, i in els]
    ex = {}
    ends = [g(pr.ind_x[k][i][-1]) for k, i in els]
    ex['x_out'] = ends[-1]
    ex['x_list'] = ends
    ex['x_traj'] = [np.array(x0)] + ends
    ex['x_all_list'] = [np.array(x0)] + [g(q) for k, i in els for q in pr.ind_x[k][i]]
    ex['u_list'] = [g(pr.ind_u[k]) for k in range(c['N'])]
    ex['u_traj'] = ex['u_list']
    for nm, arr in (('theta_list', pr.ind_theta), ('lambda_list', pr.ind_lam), ('alpha_list', pr.ind_alpha),
                    ('lambda_n_list', pr.ind_lambda_n), ('lambda_p_list', pr.ind_lambda_p)):
        ex[nm] = last(arr)
    ex['z_list'] = [g(pr.ind_z[k][i][-1]) for k, i in els]
    h = steps_of(c, pr, w)
    ex['time_steps'] = np.array(h)
    t = [0.0]
    for hh in h:
        t.append(t[-1] + hh)
    ex['t_grid'] = np.array(t)
    ex['t_grid_u'] = np.array([t[sum(c['Nfe'][:k])] for k in range(c['N'] + 1)])
    ex['v_global'] = g(flat(pr.ind_v_global))
    return ex


LISTS = {'x_list', 'x_traj', 'x_all_list', 'u_list', 'u_traj', 'theta_list', 'lambda_list', 'alpha_list', 'lambda_n_list',
         'lambda_p_list', 'z_list'}


def decode(c, pr, w, res, x0):
    """[(tags, message)]"""
    out = []
    ex = expected(c, pr, w, x0)
    for nm, e in ex.items():
        t = ('C14', 'C04') if nm in ('time_steps', 't_grid', 't_grid_u') else ('C14',)
        if nm not in res:
            out.append((t, f'results have no field {nm}'))
            continue
        ok = eql(res[nm], e) if nm in LISTS else eqv(res[nm], e)
        if not ok:
            out.append((t, f'{nm} is {[vec(a).tolist() for a in res[nm]]}, expected {[vec(a).tolist() for a in e]}'[:400]))
    if c['sot'] != 'NONE':
        n = 1 if c['sot'] == 'GLOBAL' else c['N']
        e = w[np.array(flat(pr.ind_sot), dtype=int)]
        if len(e) != n:
            out.append((('C14', 'C26'), f'{len(e)} speed of time variables, expected {n}'))
        if 'sot' not in res or not eqv(res['sot'], e):
            out.append((('C14', 'C26'), f'sot is {res.get("sot")}, expected {e.tolist()}'))
    if not eqv(res['w_sol'], w):
        out.append((('C14',), 'w_sol is not the solution'))
    return out


def index_maps(c, pr, nw):
    """disjoint, in range, covering; shapes as documented"""
    m = MODELS[c['model']]
    out, seen = [], {}
    for nm in ('ind_x', 'ind_v', 'ind_z', 'ind_theta', 'ind_lam', 'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p', 'ind_u',
               'ind_h', 'ind_sot', 'ind_v_global', 'ind_elastic', 'ind_bool'):
        for q in flat(getattr(pr, nm)):
            if not 0 <= q < nw:
                out.append(f'{nm} contains {q}, but there are {nw} variables')
            elif q in seen:
                out.append(f'w[{q}] is in {seen[q]} and in {nm}')
            seen[q] = nm
    miss = sorted(set(range(nw)) - set(seen))
    if miss:
        out.append(f'w{miss[:5]} is in no index map')
    step, nsys, n_s = c['pss'] == 'STEP', len(m.subs), c['n_s']
    nf = m.n_f() if m.kind != 'inclusion' else None
    for k in range(c['N']):
        if len(pr.ind_x[k]) != c['Nfe'][k]:
            out.append(f'stage {k} has {len(pr.ind_x[k])} elements, expected {c["Nfe"][k]}')
            continue
        if len(pr.ind_u[k]) != m.n_u:
            out.append(f'ind_u[{k}] has {len(pr.ind_u[k])} entries')
        for i in range(c['Nfe'][k]):
            bd = c['fesd'] and c['scheme'] == 'GAUSS_LEGENDRE' and not (k == c['N'] - 1 and i == c['Nfe'][k] - 1)
            nx = {'INTEGRAL': n_s, 'DIFFERENTIAL': 1, 'DIFFERENTIAL_LIFT_X': n_s}[c['rep']]
            if c['scheme'] == 'GAUSS_LEGENDRE' and c['rep'] != 'DIFFERENTIAL':
                nx += 1
            if [len(q) for q in pr.ind_x[k][i]] != [m.n_x] * nx:
                out.append(f'ind_x[{k}][{i}] has shape {[len(q) for q in pr.ind_x[k][i]]}, expected {nx} x {m.n_x}')
            want = {'ind_theta': ([] if step else [nf] * n_s), 'ind_lam': ([] if step else [nf] * (n_s + bd)),
                    'ind_alpha': ([m.n_c()] * n_s if step else []), 'ind_lambda_n': ([m.n_c()] * (n_s + bd) if step else []),
                    'ind_lambda_p': ([m.n_c()] * (n_s + bd) if step else []), 'ind_mu': ([] if step else [[1] * nsys] * (n_s + bd))}
            for nm, wnt in want.items():
                got = [[len(s) for s in r] for r in getattr(pr, nm)[k][i]]
                while got and not sum(got[-1]):
                    got = got[:-1]
                if got != [list(q) for q in wnt]:
                    out.append(f'{nm}[{k}][{i}] has shape {got}, expected {wnt}')
    if len(pr.ind_h) != (sum(c['Nfe']) if c['fesd'] else 0):
        out.append(f'{len(pr.ind_h)} step sizes')
    return out


def check14(c):
    def go():
        b = build(c)
        nw = b.fake.nlp['x'].shape[0]
        out = [(('C14',), q) for q in index_maps(c, b.prob, nw)]
        if out:
            return out
        for wv in (0.25 + 0.001 * np.arange(nw), 5.0 - 0.0031 * np.arange(nw)):
            b.fake.script = lambda k, rec: {'x': wv}
            with env.quiet():
                res = b.solver.solve()
            out += decode(c, b.prob, wv, res, np.array(b.mspec.x0, dtype=float))
        return out
    try:
        return trans.with_timeout(20.0, go)
    except Exception as e:
        return [(('*',), f'{type(e).__name__}: {str(e)[:300]}')]


def _t14(it):
    return check14(it[1])


def space14(q):
    sp = [('structure', dict(mp=mp(*ALL), rep=REP, scheme=SCHEME, n_s=[1, 2] if q else [1, 2, 3], fesd=BOOL,
                             lay=[(1, (1,)), (1, (3,)), (2, (2, 1)), (3, (1, 2, 1))] if q else LAY)),
          ('extra variables', dict(mp=mp('Full', 'Clock', 'TwoSys'), mpcc=MPCC, cross=CROSS, sot=SOT, ocp=[None, space.FULL], scheme=SCHEME,
                                   lay=[(1, (2,)), (2, (1, 2))])),
          ('layouts', dict(mp=mp('Full'), lay=layouts(3, 3) if q else layouts(4, 3), fesd=BOOL, sot=SOT, equi=BOOL)),
          ('large', dict(mp=mp('Big', 'BigG', 'BigSim', 'Full', 'Clock', 'TwoSys'), lay=space.LARGE, fesd=BOOL, sot=SOT, rep=REP, n_s=[1, 3], ocp=[None, space.FULL]))]
    seen = set()
    for name, axes in sp:
        for c in product(**axes):
            if key(c) not in seen:
                seen.add(key(c))
                yield name, c
    for c in deviations(BASES if q else BASES[:2], 1 if q else 2, seen):
        yield 'deviations', c


def run_c14(ck):
    ck.level = 'exploration'
    cnt = {}

    def on(it, res):
        name, c = it
        ck.evals += 1
        ck.nontrivial += bool(nontrivial(c))
        cnt[name] = cnt.get(name, 0) + 1
        hits = [m for t, m in res if 'C14' in t or '*' in t]
        if hits:
            ck.violation(vkey('C14', hits[0]), f'[{describe(c)}] ' + ' ; '.join(hits[:4]), dict(kind='c14', cfg=c))
        if c['ocp'] or c['N'] > 1:
            ck.sample(short(c))
    pmap(ck, _t14, list(space14(ck.quick)), on)
    for n in cnt:
        ck.part(n, configurations=cnt[n])
    ck.rules.append('Every configuration of the axes is built with the real code; its index maps are checked (shape, range, disjointness, cover) and two '
                    'primal vectors with pairwise different entries are returned by the scripted NLP solver; every field of the result dictionary is '
                    'compared with an independent decoder.  Non-trivial: more than one element or an OCP.')


# --- C15 --------------------------------------------------------------------------------------------
def alphabet(c):
    """active regions: (label, flat multiplier values)"""
    m = MODELS[c['model']]
    if c['pss'] == 'STEP':
        per = [[(str(s), list(s)) for s in itertools.product((0.0, 1.0), repeat=n)] for n in m.n_c()]
        if len(per) == 1:
            per[0].append(('slide', [0.5] + [1.0] * (m.n_c()[0] - 1)))
    else:
        per = []
        for n in m.n_f():
            one = [(str(r), [1.0 if q == r else 0.0 for q in range(n)]) for r in range(n)]
            per.append(one)
        if len(per) == 1:
            n = m.n_f()[0]
            per[0].append(('slide', [0.5, 0.5] + [0.0] * (n - 2)))
    return [('|'.join(x[0] for x in combo), [x[1] for x in combo]) for combo in itertools.product(*per)]


def primal(c, pr, nw, seq, h, drift=0.0):
    """drift: change from element to element of the multipliers of a sliding mode, too small to be a switch"""
    w = np.full(nw, 0.37)
    ind = pr.ind_alpha if c['pss'] == 'STEP' else pr.ind_theta
    n = 0
    for k in range(c['N']):
        for i in range(c['Nfe'][k]):
            for st in ind[k][i]:
                for s, idx in enumerate(st):
                    if len(idx):
                        w[idx] = seq[n][1][s]
                        if seq[n][0] == 'slide' and drift:
                            d = drift * (n - sum(c['Nfe']) / 2)
                            w[idx[0]] += d
                            if c['pss'] != 'STEP':
                                w[idx[1]] -= d
            if c['fesd']:
                w[pr.ind_h[n]] = h[n]
            n += 1
    return w


def times(seq, steps, t0=0.0):
    out, t = [], t0
    for n, h in enumerate(steps):
        if n > 0 and seq[n][1] != seq[n - 1][1]:
            out.append(t)
        t += h
    return out, t


def letters(c, word):
    """the letters of a word of elements: every combination of regions, or (large problems) those that differ from one combination in one system,
    or three / two of them where the words are long"""
    A = alphabet(c)
    if c['model'] not in LARGE15 and word < 7:
        return A
    base = A[0]
    one = [a for a in A if sum(x != y for x, y in zip(a[1], base[1])) <= 1]
    return one if word <= 2 else one[::max(1, len(one) // 3)][:3] if word <= 5 else [one[0], one[-1]]


LARGE15 = ('Big', 'BigSim', 'BigG')
H = [0.31, 0.17, 0.43, 0.11, 0.29, 0.23, 0.37, 0.13, 0.41, 0.19]


def task15(item):
    c, loops = item
    out, nstates, ntrans, ntr = [], 0, 0, 0
    b = build(c)
    nw = b.fake.nlp['x'].shape[0]
    n = sum(c['Nfe'])
    A = letters(c, n * max(loops, 1))
    bad = index_maps(c, b.prob, nw)
    if bad:
        return [bad[0]], 0, 0, 0, None
    steps = H[:n] if c['fesd'] else [c['T'] / c['N'] / f for f in c['Nfe'] for _ in range(f)]
    smp = None
    words = [(seq, 0.0) for seq in itertools.product(A, repeat=n)]
    words += [(seq, d) for seq, _ in words for d in (0.05, -0.03) if sum(s[0] == 'slide' for s in seq) > 1]
    for seq, drift in words:
        w = primal(c, b.prob, nw, seq, steps, drift)
        b.fake.script = lambda k, rec: {'x': w}
        with env.quiet():
            res = b.solver.solve()
        want, _ = times(seq, steps)
        nstates += 1
        ntrans += n - 1
        ntr += 1
        smp = (short(c), [s[0] for s in seq], [round(t, 6) for t in want])
        if not eqv(res['switch_times'], want):
            out.append(f'regions {[s[0] for s in seq]} drift {drift} with steps {steps}: switch_times {vec(res["switch_times"]).tolist()}, expected {want}')
            if len(out) > 2:
                break
    if loops and c['N'] == 1 and MODELS[c['model']].n_u == 0 and not out:
        # simulation loop: every pair / triple of horizons
        seqs = list(itertools.product(A, repeat=n))
        for combo in itertools.product(seqs, repeat=loops):
            ws = [primal(c, b.prob, nw, s, [x * (1 + 0.3 * q) for x in steps] if c['fesd'] else steps) for q, s in enumerate(combo)]
            base = len(b.fake.calls)
            b.fake.script = lambda k, rec: {'x': ws[k - base]}
            with env.quiet():
                loop = nosnoc.NosnocSimLooper(b.solver, np.array(b.mspec.x0, dtype=float), loops, print_level=0)
                loop.run()
                res = loop.get_results()
            want, t = [], 0.0
            for q, s in enumerate(combo):
                ww, t = times(s, [x * (1 + 0.3 * q) for x in steps] if c['fesd'] else steps, t)
                want += ww
            nstates += 1
            ntrans += loops * n
            ntr += 1
            if not eqv(res['switch_times'], want):
                out.append(f'loop over {[[a[0] for a in s] for s in combo]}: switch_times {vec(res["switch_times"]).tolist()}, expected {want}')
                break
    return out, nstates, ntrans, ntr, smp


def _t15(it):
    try:
        return trans.with_timeout(400.0, task15, it)
    except Exception as e:
        return [f'{type(e).__name__}: {e}'], 0, 0, 0, None


def space15(q):
    L = [(1, (1,)), (1, (2,)), (1, (3,)), (2, (2, 1)), (2, (1, 2)), (3, (1, 2, 1))]
    if not q:
        L += [(2, (2, 2)), (1, (4,)), (2, (1, 3)), (1, (5,))]
    for c in product(mp=mp('Plain', 'Const', 'Incl', 'GStewart', 'Four', 'Full', 'TwoSys', 'Incl2', 'GStewart2', 'ThreeSys'), lay=L,
                     fesd=BOOL, scheme=SCHEME, n_s=[1, 2]):
        A = len(alphabet(c))
        if A**sum(c['Nfe']) > (1300 if q else 8000):
            continue
        S = A**sum(c['Nfe'])
        loops = 3 if S**3 <= (800 if q else 5000) else 2 if S**2 <= (800 if q else 5000) else 0
        yield c, loops
    for c in product(mp=mp('Plain', 'Const', 'Full', 'TwoSys', 'GStewart2') + mp(*LARGE15), lay=[(1, (2,)), (1, (5,)), (1, (9,)), (6, (1, 2, 1, 3, 1, 1))], fesd=BOOL, n_s=[1] if q else [1, 2]):
        n = sum(c['Nfe'])
        if n > 2 or c['model'] in LARGE15:
            yield c, 0
    # many short horizons
    for c in product(mp=mp('Plain', 'Const', 'TwoSys', 'BigSim'), lay=[(1, (1,))], fesd=BOOL, n_s=[1]):
        yield c, 7 if q else 10


def run_c15(ck):
    ck.level = 'model_checking'

    def on(it, res):
        msgs, s, t, tr, smp = res
        ck.states += s
        ck.transitions += t
        ck.traces += tr
        if msgs:
            ck.violation(vkey('C15', msgs[0]), f'[{describe(it[0])}] {msgs[0]}', dict(kind='c15', cfg=it[0], loops=it[1]))
        if smp and sum(it[0]['Nfe']) > 2:
            ck.sample(dict(cfg=smp[0], regions=smp[1], switch_times=smp[2]))
    items = list(space15(ck.quick))
    pmap(ck, _t15, items, on, chunk=2)
    ck.part('configurations', n=len(items))
    ck.rules.append('Model: a horizon is a word over the active regions (all single regions of every subsystem, and a sliding mode), one letter per '
                    'finite element; all words over the alphabet for every listed layout are enumerated, and all pairs / triples of horizons for '
                    'simulation loops.  Each word is written into the primal vector the scripted NLP solver returns, and the switch times reported by '
                    'the real code are compared with the letters that differ.  States: words; transitions: element boundaries.')


def replay(data):
    c = tup(data['cfg'])
    if data['kind'] == 'c14':
        return [m for t, m in check14(c) if 'C14' in t or '*' in t]
    return task15((c, data['loops']))[0]


def tup(c):
    c = dict(c)
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return c
