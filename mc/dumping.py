"""C27: dump a problem after every short history, load it again, compare with the live problem."""
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
import casadi as ca
from . import env, trans, protocol, space
from .driver import pmap
from .models import MODELS
from .space import MPCC, REP, SCHEME, BOOL, SE, CROSS, SOT, product, mp, key
from .trans import build, cfg_of
from .transcheck import describe, short, vkey

nosnoc = env.nosnoc
ARR = ('lbw', 'ubw', 'w0', 'lbg', 'ubg', 'lb_dual')


def snapshot(b):
    """the live problem: numbers, index maps, parameters"""
    pr = b.prob
    d = {k: np.array(v, dtype=float).copy() for k, v in vars(pr).items() if k in ARR}
    d.update({k: repr(v) for k, v in vars(pr).items() if k.startswith('ind_')})
    d['x0'] = np.array(b.solver.model.x0, dtype=float).copy()
    d['p_stages'] = np.array(b.solver.model.p_val_ctrl_stages, dtype=float).copy()
    d['w'], d['p'], d['g'], d['cost'] = id(pr.w), id(pr.p), id(pr.g), id(pr.cost)
    d['keys'] = sorted(vars(pr))
    return d


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def operations(b, s, seq, fake):
    for op in seq:
        if op[0] == 'solve':
            ans = protocol.value(op, b, s)
            fake.script = lambda k, rec: {'x': ans}
            with env.quiet():
                r = b.solver.solve()
            if s.strategy == 'ALL_XCURRENT_WOPT_PREV':
                s.w0 = np.array(r['w_sol'], dtype=float)
        else:
            val = protocol.value(op, b, s)
            try:
                with env.quiet():
                    b.solver.set(protocol.FIELD[op[0]], val.copy())
            except Warning:
                pass
            protocol.apply_model(s, op, val)


def task(it):
    c, seqs = it
    res = dict(msg=[], cases=0, dumps=0)
    tmp = tempfile.mkdtemp(prefix='c27')
    try:
        for seq in seqs:
            b, b2 = build(c), build(c)
            for bb in (b, b2):
                bb.opts.max_iter_homotopy = 1
            res['cases'] += 1
            s, s2 = protocol.State(b), protocol.State(b2)
            operations(b, s, seq, b.fake)
            operations(b2, s2, seq, b2.fake)
            res['msg'] += check(b, s, os.path.join(tmp, 'p.pickle'), f'after {[f"{o[0]}{o[1]}" for o in seq]}: ', fresh=len(seq) == 0)
            res['dumps'] += 2
            # dumping does not change what follows
            nxt = [o for o in (('x0', 1), ('pg', 1), ('solve', 1)) if o in protocol.valid_ops(c, [o])]
            for bb, ss in ((b, s), (b2, s2)):
                del bb.fake.calls[:]
                operations(bb, ss, nxt, bb.fake)
            if len(b.fake.calls) != len(b2.fake.calls) or any(not np.array_equal(x[k], y[k], equal_nan=True) for x, y in zip(b.fake.calls, b2.fake.calls) for k in x):
                res['msg'].append(f'after {[o[0] for o in seq]}: dumping changes the following solve')
            if res['msg']:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def points(nw, np_):
    k, m = np.arange(nw), np.arange(np_)
    return [(0.6 + 0.3 * np.sin(1.0 + 1.7 * k), 0.4 + 0.25 * np.cos(2.0 + 1.3 * m)), (np.zeros(nw) + 0.01 * k, np.ones(np_)), (1.1 - 0.9 * np.cos(k), 0.2 + 0.1 * m)]


def check(b, s, file, at, fresh=False):
    msg, pr = [], b.prob
    before = snapshot(b)
    for n in range(2):          # dumping twice gives the same
        with env.quiet():
            pr.dump(file)
        with open(file, 'rb') as f:
            d = pickle.load(f)
        after = snapshot(b)
        for k in before:
            if k not in after or not same(before[k], after[k]):
                msg.append(at + f'dumping changes {k} of the live problem')
        nlp = b.fake.nlp
        live = ca.Function('live', [nlp['x'], nlp['p']], [nlp['f'], nlp['g']])
        if tuple(d['w_shape']) != tuple(nlp['x'].shape) or tuple(d['p_shape']) != tuple(nlp['p'].shape):
            msg.append(at + f'dumped shapes {d["w_shape"]}, {d["p_shape"]}')
        for W, P in points(nlp['x'].shape[0], nlp['p'].shape[0]) + [(np.array(pr.w0, dtype=float), s.p(0.0, 0.0))]:
            f0, g0 = (v.full().flatten() for v in live(W, P))
            f1, g1 = d['f'](W, P).full().flatten(), d['g'](W, P).full().flatten()
            if not np.allclose(f0, f1, rtol=1e-12, atol=1e-12, equal_nan=True):
                msg.append(at + f'dumped objective {f1}, live {f0}')
            if g0.shape != g1.shape or not np.allclose(g0, g1, rtol=1e-12, atol=1e-12, equal_nan=True):
                k = int(np.flatnonzero(~np.isclose(g0, g1, equal_nan=True))[0]) if g0.shape == g1.shape else -1
                msg.append(at + f'dumped constraint {k} differs from {nlp["g"][k]}'[:300])
        for k in before:
            if k in ARR:
                if k not in d or not same(before[k], np.array(d[k], dtype=float)):
                    msg.append(at + f'dumped {k} differs from the live one')
            elif k.startswith('ind_'):
                if k not in d or repr(d[k]) != before[k]:
                    msg.append(at + f'dumped {k} differs from the live one')
        e = s.p(0.0, 0.0)
        p0 = np.array(d['p0'], dtype=float).flatten()
        if p0.shape != e.shape or not np.allclose(p0, e, rtol=1e-12, atol=1e-13):
            msg.append(at + f'dumped parameters {p0.tolist()}, expected {e.tolist()}')
        if fresh and not np.array_equal(np.array(d['w0'], dtype=float), s.w0):
            msg.append(at + 'dumped start point')
        if msg:
            break
    return msg


def plans(q):
    ops = [('x0', 1), ('x0', 2), ('pg', 1), ('pt', 1), ('u', 1), ('v', 1), ('xs', 1), ('theta', 1), ('w', 1), ('solve', 1)]
    for nm in protocol.CFG:
        for st in protocol.STRAT[:2] if q else protocol.STRAT:
            c = cfg_of(**dict(protocol.CFG[nm], init=st))
            o = protocol.valid_ops(c, ops)
            S = [t for n in range(3 if q else 4) for t in itertools.product(o, repeat=n)]
            for i in range(0, len(S), 25):
                yield 'histories', c, S[i:i + 25]
    one = [(), (('x0', 1), ('solve', 1)), (('pt', 1), ('x0', 2), ('pg', 1))]
    seen = set()
    for c in space.deviations(space.BASES, 1 if q else 2, seen):
        yield 'configurations', c, [t for t in one if set(t) <= set(protocol.valid_ops(c, t))]
    for c in product(mp=mp(*MODELS), rep=REP, scheme=SCHEME, n_s=[1, 2], fesd=BOOL, lay=[(1, (2,)), (2, (2, 1))]):
        if key(c) not in seen:
            seen.add(key(c))
            yield 'models', c, [t for t in one if set(t) <= set(protocol.valid_ops(c, t))]
    for c in product(mp=mp('Plain', 'Full'), mpcc=MPCC, cross=CROSS, se=SE, sot=SOT, lay=[(1, (2,)), (2, (2, 1))], ocp=[None, space.FULL]):
        if key(c) not in seen:
            seen.add(key(c))
            yield 'modes', c, one[1:2]
    for c in product(mp=mp('Plain', 'TwoSys', 'Const'), mpcc=['SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ'], lsq=[True], n_s=[1, 2], lay=[(1, (2,))]):
        yield 'least squares', c, one[:2]


def _task(it):
    try:
        return trans.with_timeout(120.0, task, it[1:])
    except Exception as e:
        return dict(msg=[f'{type(e).__name__}: {e}'], cases=1, dumps=0)


def run(ck):
    ck.level = 'model_checking'
    cnt = {}

    def on(it, r):
        d = cnt.setdefault(it[0], dict(problems=0, histories=0, dumps=0))
        d['problems'] += 1
        d['histories'] += r['cases']
        d['dumps'] += r['dumps']
        ck.states += r['cases']
        ck.transitions += r['dumps']
        ck.traces += r['cases']
        if r['msg']:
            ck.violation(vkey('C27', it[0] + r['msg'][0].split(': ', 1)[-1]), f'[{it[0]}: {describe(it[1])}] {r["msg"][0]}', dict(kind='c27', item=list(it)))
        ck.sample(dict(part=it[0], cfg=short(it[1]), histories=[[f'{o[0]}{o[1]}' for o in t] for t in it[2][-2:]]))

    pmap(ck, _task, list(plans(ck.quick)), on, chunk=2)
    for k, d in cnt.items():
        ck.part(k, **d)
    ck.rules.append('Every history of set / solve calls up to the listed length on every listed configuration, then dump (twice) and load; functions are compared at four points, numbers and index '
                    'maps exactly, the dumped parameters with the reference state of the history, and the following solve with the one of an undumped twin.')


def replay(data):
    it = list(data['item'])
    c = dict(it[1])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return _task((it[0], c, [tuple(tuple(o) for o in t) for t in it[2]]))['msg']
