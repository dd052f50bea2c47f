"""C31: inspection (printing, representations, plots, decoding) never fails and never changes the computation."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import numpy as np
from . import env, trans, protocol, space
from .driver import pmap
from .models import MODELS
from .ref import flat
from .results import vec
from .trans import build, cfg_of
from .transcheck import describe, vkey

nosnoc = env.nosnoc
LEVELS = (0, 1, 2, 5)


def plt():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as p
    return p


DRAWN = {}


def curves(b, close=True):
    """all plotted curves and bars of the current figure; the first figures of every configuration are also rendered"""
    p = plt()
    fig = p.gcf()
    key = repr(sorted(b.cfg.items(), key=str))
    DRAWN[key] = DRAWN.get(key, 0) + 1
    if DRAWN[key] <= 3:
        fig.canvas.draw()
    lines = [np.array(l.get_ydata(), dtype=float) for a in fig.axes for l in a.get_lines()]
    bars = [(round(q.get_x() + q.get_width() / 2, 6), float(q.get_y()), float(q.get_height())) for a in fig.axes for q in a.patches]
    if close:
        p.close('all')
    return lines, bars


def multiset(a, b):
    """the arrays of b that are not in a, and of a that are not in b"""
    a, extra = list(a), []
    for y in b:
        for i, x in enumerate(a):
            if x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-14):
                a.pop(i)
                break
        else:
            extra.append(y)
    return a, extra


def expected_curves(b, w):
    """switching multipliers, convex multipliers and mu at the last stage of every element, states at all stages"""
    pr, out = b.prob, []
    for ind in (pr.ind_lam, pr.ind_mu, pr.ind_theta):
        rows = np.array([w[flat(f[-1])] for k in ind for f in k])
        out += [rows[:, i] for i in range(rows.shape[1])]
    X = np.array([b.solver.model.x0] + [w[np.array(q)] for k in pr.ind_x for f in k for q in f])
    return out + [X[:, i] for i in range(X.shape[1])]


# --- inspections ----------------------------------------------------------------------------------
def i_repr(b, ctx):
    for o in (b.opts, b.model, b.ocp, b.solver, b.prob):
        t = repr(o) + str(o)
        if o is not None and not t:
            return 'empty representation'


def i_fe(b, ctx):
    for s in b.prob.stages:
        for f in s:
            repr(f)


def i_print(b, ctx):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        b.solver.print_problem()
    text = out.getvalue()
    pr = b.prob
    w0, lb, ub = (np.array(v, dtype=float) for v in (pr.w0, pr.lbw, pr.ubw))
    bad = int(np.sum((lb > ub) | (w0 < lb) | (w0 > ub)))
    m = re.findall(r'errors:\s*(\d+)', text)
    if len(m) != 1 or int(m[0]) != bad:
        return f'print_problem reports errors {m}, {bad} variables have inconsistent bounds or guesses'
    lines = text.split('\n')
    rows = [l for l in lines if re.match(r'\s*\d+:', l)]
    n = b.fake.nlp['x'].shape[0] + b.fake.nlp['g'].shape[0]
    if len(rows) != n:
        return f'print_problem shows {len(rows)} rows, the problem has {n} variables and constraints'
    for i in range(pr.w.shape[0]):
        if not any(pr.w[i].name() in l for l in rows[-pr.w.shape[0]:]):
            return f'print_problem does not show variable {pr.w[i].name()}'


def i_print2(b, ctx):
    with env.quiet():
        b.prob.print()
        nosnoc.print_casadi_vector(b.prob.w)


def i_level(n):
    def f(b, ctx):
        b.opts.print_level = n
    return f


def i_plot(b, ctx):
    ws = [np.array(b.prob.w0, dtype=float)] + ctx['w']
    ws = ws[:1] + ws[-1:]
    if ctx['n'] % 2 == 0:       # iterates of other magnitudes
        ws = ws[-1:] + special(len(ws[0]))[ctx['n'] // 2 % 8:][:1]
    keep = [w.copy() for w in ws]
    if b.cfg['pss'] != 'STEWART':
        try:
            with env.quiet():
                nosnoc.plot_iterates(b.prob, ws)
        except NotImplementedError:
            plt().close('all')
            return None
    else:
        with env.quiet():
            nosnoc.plot_iterates(b.prob, ws, title_list=[f't{i}' for i in range(len(ws))])
        lines, _ = curves(b)
        missing, extra = multiset([c for w in keep for c in expected_curves(b, w)], lines)
        if missing or extra:
            return f'plot_iterates: {len(missing)} curves are missing ({missing[:1]}), {len(extra)} are wrong ({extra[:1]})'
    plt().close('all')
    if any(not np.array_equal(a, c) for a, c in zip(ws, keep)):
        return 'plot_iterates modified the iterates'


def i_plotfile(b, ctx):
    if b.cfg['pss'] != 'STEWART':
        return None
    d = tempfile.mkdtemp(prefix='c31')
    try:
        with env.quiet():
            nosnoc.plot_iterates(b.prob, [np.array(b.prob.w0, dtype=float)], figure_filename=os.path.join(d, 'f.png'))
        if not os.path.getsize(os.path.join(d, 'f.png')):
            return 'plot_iterates stored an empty figure'
    finally:
        shutil.rmtree(d)
        plt().close('all')


def i_timings(b, ctx):
    T = np.array([[0.5, 0.25, 0.125], [1.0, 0.0, 2.0]]) if not ctx['t'] else np.array([ctx['t'], [2 * v for v in ctx['t']]])
    T = T * [1.0, 1e-5, 1e3][ctx['n'] % 3]
    keep = T.copy()
    with env.quiet():
        nosnoc.plot_timings(T, latexify=False)
    lines, bars = curves(b)
    if not np.array_equal(T, keep):
        return 'plot_timings modified the timings'
    exp = [(float(i), float(np.sum(T[i, :k])), float(T[i, k])) for i in range(T.shape[0]) for k in range(T.shape[1])]
    missing, extra = multiset([np.array(e) for e in exp], [np.array(x) for x in bars])
    if missing or extra:
        return f'plot_timings: bars {[x.tolist() for x in extra][:3]} instead of {[x.tolist() for x in missing][:3]}'
    if not any(np.allclose(l, np.mean(np.sum(T, axis=1))) for l in lines):
        return 'plot_timings: the mean is wrong'


def special(n):
    """primal vectors of other magnitudes: zeros, ones, tiny, negative, large and mixed values"""
    k = np.arange(n)
    return [np.zeros(n), np.ones(n), 1e-13 * (1 + k), -1e-9 * (1 + k), 1.0 - 1e-12 * (1 + k), 1e4 + 1e3 * k, -3e3 - 7.0 * k,
            np.array([1e5, -1e3, 1e-10, 0.0, 1.0, -1e-6, 0.5, 1.0 + 1e-10])[k % 8]]


FIELDS = ('x_out', 'x_list', 'x_all_list', 'x_traj', 'u_list', 'u_traj', 't_grid', 't_grid_u', 'time_steps', 'z_list', 'theta_list', 'lambda_list', 'alpha_list',
          'lambda_n_list', 'lambda_p_list', 'v_global', 'sot')


def i_decode(b, ctx):
    """decoding reads entries of the vector (only the time grids are sums) and changes nothing"""
    n = b.fake.nlp['x'].shape[0]
    ref = {f: vec(v).copy() for f, v in nosnoc.get_results_from_primal_vector(b.prob, 7.0 + np.arange(n)).items() if f in FIELDS}
    for w in [0.3 + 0.01 * np.arange(n)] + special(n):
        k = w.copy()
        r = nosnoc.get_results_from_primal_vector(b.prob, w)
        r2 = nosnoc.get_results_from_primal_vector(b.prob, w)
        if not np.array_equal(w, k):
            return 'decoding modified the primal vector'
        for f in ref:
            a = vec(r[f])
            if not np.array_equal(a, vec(r2[f]), equal_nan=True):
                return f'decoding twice gives different {f}'
            if f.startswith('t'):
                continue
            q = ref[f]
            own = (q >= 7.0) & (q == np.round(q)) & (q < 7.0 + n)
            m = len(b.solver.model.x0) if f in ('x_all_list', 'x_traj') else 0
            own[:m] = False
            if a.shape != q.shape or not np.array_equal(a[own], k[(q[own] - 7).astype(int)]):
                return f'decoded {f} are not the entries of the vector'
            if m and not np.array_equal(a[:m], np.array(b.solver.model.x0, dtype=float)):
                return f'{f} does not start at the initial state'


def guard(b, ctx):
    """everything numeric that an inspection could touch"""
    pr, m = b.prob, b.solver.model
    d = {k: np.array(getattr(pr, k), dtype=float) for k in ('w0', 'w0_original', 'lbw', 'ubw', 'lbg', 'ubg')}
    d |= {k: np.array(getattr(m, k), dtype=float) for k in ('x0', 'p_val_ctrl_stages', 'z0') if getattr(m, k, None) is not None}
    d |= {f'it{i}': w for i, w in enumerate(ctx['w'])} | {'t': np.array(ctx['t'])}
    d |= {f'o{k}': np.array(getattr(b.ocp, k), dtype=float) for k in ('lbx', 'ubx', 'lbu', 'ubu', 'lbg', 'ubg', 'u_guess') if getattr(b.ocp, k, None) is not None}
    return {k: v.copy() for k, v in d.items()}


INSPECT = dict(repr=i_repr, elements=i_fe, print=i_print, print2=i_print2, plot=i_plot, plotfile=i_plotfile, timings=i_timings, decode=i_decode,
               **{f'level{n}': i_level(n) for n in LEVELS})


# --- histories ------------------------------------------------------------------------------------
def snap(r):
    return {k: vec(r[k]).copy() for k in ('w_sol', 'w_all', 'x_list', 'x_all_list', 'x_traj', 'u_list', 't_grid', 'switch_times', 'cost_val', 'theta_list',
                                          'lambda_list', 'alpha_list', 'z_list')} | {'status': str(r['status']),
                                                                                     'iter': str(r['nlp_iter'])}


def execute(c, word, level=None):
    """observations of a word of operations; inspections contribute only their complaints"""
    cc = dict(c)
    b = build(cc) if level is None else build_level(cc, level)
    b.opts.max_iter_homotopy = 2
    s = protocol.State(b)
    ctx = dict(w=[], t=[])
    obs, bad, states = [], [], []
    for n, op in enumerate(list(word) + [('solve', 3)]):
        if op[0] == 'inspect':
            before = guard(b, ctx)
            ctx['n'] = n
            try:
                m = INSPECT[op[1]](b, ctx)
            except Exception as e:
                m = f'{op[1]} raises {type(e).__name__}: {str(e)[:150]}'
                plt().close('all')
            after = guard(b, ctx)
            d = [k for k in before if not np.array_equal(before[k], after.get(k), equal_nan=True)]
            if d and not m:
                m = f'{op[1]} changes {d}'
            if m:
                bad.append(f'after {word[:n]}: {m}')
            continue
        if op[0] == 'solve':
            ans = protocol.value(op, b, s)
            base = len(b.fake.calls)
            stat = protocol.FAIL.get(op[1], 'Solve_Succeeded')
            b.fake.script = lambda k, rec: {'x': ans + 0.01 * (k - base), 'status': stat, 't': 0.5 + k - base, 'iter': 7 + k - base}
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                res = b.solver.solve()
            calls = b.fake.calls[base:]
            if b.opts.print_level == 0 and stat == 'Solve_Succeeded' and out.getvalue().strip():
                bad.append(f'after {word[:n]}: print level 0 prints {out.getvalue().strip()[:80]!r}')
            if b.opts.print_level > 0:
                lines = out.getvalue().split('\n')
                k = sum(stat in l for l in lines)
                if k < len(calls):
                    bad.append(f'after {word[:n]}: print level {b.opts.print_level} shows {k} of {len(calls)} problems')
            ctx['w'] = [np.array(w, dtype=float) for w in res['w_all']]
            ctx['t'] = [0.0 if t is None else float(t) for t in res['cpu_time_nlp']]
            obs.append(([{k: np.array(v).copy() for k, v in cl.items()} for cl in calls], snap(res)))
            if s.strategy == 'ALL_XCURRENT_WOPT_PREV':
                s.w0 = np.array(res['w_sol'], dtype=float)
        else:
            val = protocol.value(op, b, s)
            try:
                with env.quiet():
                    b.solver.set(protocol.FIELD[op[0]], val.copy())
            except Warning:
                pass
            protocol.apply_model(s, op, val)
        states.append(s.key())
    nlp = b.fake.fg()
    return obs, bad, states, b


def build_level(c, level):
    orig = trans.make_opts

    def make(cfg):
        o = orig(cfg)
        o.print_level = level
        return o
    trans.make_opts = make
    try:
        return build(c)
    finally:
        trans.make_opts = orig


def differ(a, b):
    if len(a) != len(b):
        return 'another number of solves'
    for n, ((ca_, ra), (cb, rb)) in enumerate(zip(a, b)):
        if len(ca_) != len(cb):
            return f'solve {n}: {len(cb)} NLP calls instead of {len(ca_)}'
        for i, (x, y) in enumerate(zip(ca_, cb)):
            for k in x:
                if x[k].shape != y[k].shape or not np.array_equal(x[k], y[k], equal_nan=True):
                    return f'solve {n}, NLP call {i}: {k} differs'
        for k in ra:
            same = ra[k] == rb[k] if isinstance(ra[k], str) else ra[k].shape == rb[k].shape and np.array_equal(ra[k], rb[k], equal_nan=True)
            if not same:
                return f'solve {n}: result {k} differs'
    return None


def task(it):
    c, words, insp, mult, levels = it
    res = dict(msg=[], words=0, traces=0, states=set(), tr=0)
    try:
        for word in words:
            base, _, st, _ = trans.with_timeout(60.0, execute, c, word)
            res['words'] += 1
            res['states'] |= {hash(x) for x in st}
            n = len(word) + 1
            plans = []
            if mult == 0:       # every inspection at every position at once
                plans.append(([(p, i) for p in range(n) for i in insp], None))
            for k in range(1, mult + 1):
                for pos in itertools.combinations_with_replacement(range(n), k):
                    for ii in itertools.product(insp, repeat=k):
                        plans.append((list(zip(pos, ii)), None))
            plans += [([], l) for l in levels]
            for ins, level in plans:
                w = []
                for p in range(n):
                    w += [('inspect', i) for q, i in ins if q == p]
                    if p < len(word):
                        w.append(word[p])
                o, bad, _, _ = trans.with_timeout(60.0, execute, c, w, level)
                res['traces'] += 1
                res['tr'] += len(w) + 1
                d = differ(base, o)
                if d:
                    bad = bad + [f'with {w}, print level {level}: {d}']
                if bad:
                    res['msg'].append((w, level, bad))
                    if len(res['msg']) > 2:
                        return res
    except Exception as e:
        res['msg'].append((list(word), None, [f'{type(e).__name__}: {e}']))
    return res


def group(names):
    return [n for n in INSPECT if n in names or not names]


def plan(q):
    ops = [('x0', 1), ('pg', 1), ('u', 1), ('w', 1), ('solve', 1), ('solve', 4)]
    allI = list(INSPECT)
    big = [('x0', 6), ('w', 6), ('pg', 6), ('solve', 6), ('x0', 7), ('w', 7)]
    cfgs = dict(protocol.CFG)
    cfgs['lsq'] = dict(model='Full', N=1, Nfe=(2,), n_s=2, mpcc='SCHOLTES_EQ', ocp=('cost',), lsq=True)
    cfgs['inclusion'] = dict(model='Incl', N=1, Nfe=(2,), n_s=1, pss='STEP')
    for nm in cfgs:
        for st in protocol.STRAT:
            c = cfg_of(**dict(cfgs[nm], init=st))
            words = [w for d in range(0, 2 if q else 3) for w in itertools.product(protocol.valid_ops(c, ops), repeat=d)]
            yield 'magnitudes', (c, [w for d in range(1, 2 if q else 3) for w in itertools.product(protocol.valid_ops(c, big), repeat=d)], allI, 0, ())
            for i in range(0, len(words), 4):
                yield 'histories', (c, words[i:i + 4], allI, 1, LEVELS)
    for nm in ('full', 'two', 'polish', 'sot'):
        for st in protocol.STRAT[:2]:
            c = cfg_of(**dict(cfgs[nm], init=st))
            words = list(itertools.product(protocol.valid_ops(c, [('x0', 1), ('w', 1), ('solve', 1)]), repeat=1 if q else 2))
            for w in words:
                yield 'pairs', (c, [w], [i for i in allI if i not in ('plotfile', 'elements', 'print2', 'repr', 'level0', 'level1', 'level2')] if q else [i for i in allI if i != 'plotfile'], 2, ())
    # all combinations of options that deviate from the base points: every inspection before and after a solve
    seen = set()
    for c in space.deviations(space.BASES, 1 if q else 2):
        if not q and c['se'] != 'HEURISTIC_MEAN' and c['mpcc'] not in ('SCHOLTES_INEQ', 'SCHOLTES_EQ'):
            continue
        k = space.key(c)
        if k not in seen:
            seen.add(k)
            yield 'configurations', (c, [(('solve', 1),)], [i for i in allI if not i.startswith('level') and i != 'plotfile'] if q else ['print', 'plot', 'decode', 'repr'], 0, LEVELS[:3])


def run(ck):
    ck.level = 'model_checking'
    parts, states = {}, set()
    items = list(plan(ck.quick))

    def on(it, r):
        name, (c, words, insp, mult, levels) = it
        p = parts.setdefault(name, dict(configurations=set(), words=0, traces=0))
        p['configurations'].add(describe(c))
        p['words'] += r['words']
        p['traces'] += r['traces']
        ck.traces += r['traces']
        ck.transitions += r['tr']
        states.update((describe(c), s) for s in r['states'])
        for w, level, bad in r['msg'][:2]:
            ck.violation(vkey('C31', bad[0].split(']: ', 1)[-1]), f'[{describe(c)}] {bad[0]}', dict(kind='c31', cfg=c, word=w, level=level))
        ck.sample(dict(cfg=describe(c), word=[str(o) for o in words[-1]], inspections=insp))
    pmap(ck, task2, items, on, chunk=1)
    ck.states = len(states)
    for n, p in parts.items():
        ck.part(n, **dict(p, configurations=len(p['configurations'])))
    ck.rules.append('Model: inspections are identity transitions of the state (x0, parameters, start point).  Every word of operations up to the bounded length, '
                    'with every inspection (representations, printing, print levels, plots to memory and file, decoding) inserted at every position (pairs of '
                    'inspections for some configurations), and every print level at construction, is executed on the real code; NLP calls and results must be '
                    'those of the word without inspections, no inspection may raise, and what is printed and plotted is compared with the live problem.')
    ck.assumptions.append('plot_iterates refuses the Step representation (documented by NotImplementedError). TeX rendering is not exercised.')


def task2(it):
    return task(it[1])


def replay(data):
    c = dict(data['cfg'])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    w = [tuple(o) for o in data['word']]
    base, _, _, _ = execute(c, [o for o in w if o[0] != 'inspect'])
    o, bad, _, _ = execute(c, w, data['level'])
    d = differ(base, o)
    return bad + ([d] if d else [])
