"""Checks decided by comparing every NLP of a bounded configuration space with the reference model."""
import itertools
import re
import numpy as np
import casadi as ca
from . import env, space, trans
from .driver import pmap
from .models import MODELS
from .space import (FULL, SE, MPCC, CROSS, REP, SCHEME, SOT, BOOL, LAY, BASES, PAIRS, layouts, product, mp, deviations, key)
from .trans import build, check_cfg, cfg_of, nlp_values, supported, witness
from .ref import default_cfg, flat

ALL = ('Plain', 'Const', 'Full', 'TwoSys', 'Four', 'GStewart', 'GStewart2', 'Incl', 'Incl2', 'Clock', 'ThreeSys', 'SimZ', 'ZSwitch')
INPUTS = [(1, (2,)), (1, (3,)), (2, (2, 1)), (2, (1, 2)), (3, (1, 2, 1))]
PATH = [(False, False), (True, False), (False, True), (True, True)]


def short(c):
    d = default_cfg()
    return {k: v for k, v in c.items() if v != d[k]}


def describe(c):
    return ', '.join(f'{k}={v}' for k, v in short(c).items()) or 'defaults'


SPACES = {}


def spaces(pid):
    def deco(fn):
        SPACES[pid] = fn
        return fn
    return deco


@spaces('C01')
def _c01(q):
    yield 'dynamics', dict(mp=mp(*ALL), rep=REP, scheme=SCHEME, n_s=[1, 2, 3] if q else [1, 2, 3, 4, 5], fesd=BOOL,
                           lay=INPUTS if q else LAY)
    yield 'speed of time', dict(mp=mp('Full', 'TwoSys', 'Clock'), rep=REP, scheme=SCHEME, n_s=[1, 2], sot=SOT, fesd=BOOL,
                                lay=[(1, (2,)), (2, (2, 1)), (3, (1, 2, 1))], ocp=[None, ('cost', 'bounds')])
    yield 'many stages', dict(mp=mp('Plain'), rep=REP, scheme=SCHEME, n_s=list(range(1, 7 if q else 10)), lay=[(1, (2,))])


@spaces('C02')
def _c02(q):
    yield 'algebraic', dict(mp=mp(*ALL), rep=REP, scheme=SCHEME, n_s=[1, 2, 3] if q else [1, 2, 3, 4], fesd=BOOL,
                            lay=INPUTS if q else LAY)
    yield 'boundary', dict(mp=mp('Full', 'TwoSys', 'Incl2', 'GStewart'), rep=['INTEGRAL', 'DIFFERENTIAL'], scheme=['GAUSS_LEGENDRE'],
                           n_s=[1, 2], mpcc=MPCC, cross=CROSS, lay=layouts(2, 2) if q else layouts(2, 3))


@spaces('C03')
def _c03(q):
    L = [(1, (1,)), (1, (2,)), (2, (2, 1)), (2, (1, 2))]
    yield 'pairs', dict(mp=mp('Plain', 'TwoSys', 'Incl2', 'GStewart'), mpcc=MPCC, cross=CROSS, fesd=BOOL, scheme=SCHEME,
                        n_s=[1, 2] if q else [1, 2, 3], lay=L if q else LAY)
    yield 'representation', dict(mp=mp('TwoSys', 'ThreeSys'), mpcc=MPCC, cross=CROSS, rep=REP, scheme=SCHEME, lay=[(1, (2,))] if q else INPUTS)
    yield 'user pairs', dict(mp=mp('Full'), mpcc=MPCC, cross=CROSS, fesd=BOOL, ocp=[('comp_rk',), ('comp_ctrl',), ('comp_glob',)],
                             lay=[(1, (1,)), (2, (2, 1))])
    yield 'scaling', dict(mp=mp('Plain', 'Full'), mpcc=['ELASTIC_INEQ', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED'], direct=BOOL, sigma0=[0.9, 2.5],
                          ocp=[None, ('cost',), FULL], el=[(0.8, 9.0, 0.05), (0.3, 2.0, 0.0)])


@spaces('C04')
def _c04(q):
    yield 'grid', dict(mp=mp('Plain', 'Full'), lay=layouts(3, 3) if q else layouts(4, 3), equi=BOOL, fesd=BOOL, gamma=[0.8, 0.0, 1.0],
                       T=[1.7, 0.6] if q else [1.7, 0.6, 3.0])
    yield 'modes', dict(mp=mp('Full', 'Clock'), lay=INPUTS, equi=BOOL, fesd=BOOL, se=SE, scheme=SCHEME, sot=SOT)
    yield 'schemes', dict(mp=mp('TwoSys'), lay=INPUTS, equi=BOOL, fesd=BOOL, rep=REP, scheme=SCHEME, n_s=[1, 2, 3], cross=CROSS)


@spaces('C05')
def _c05(q):
    O = [('path',), ('path_eq',), ('term',), ('bounds',), ('guess',), ('path', 'term', 'bounds', 'guess'),
         ('bare', 'path', 'term'), ('bare', 'path_eq', 'term'), FULL]
    yield 'constraints', dict(mp=mp('Full', 'TwoSys', 'Clock'), ocp=O, path=PATH, rep=REP, scheme=SCHEME, fesd=BOOL,
                              lay=[(1, (2,)), (2, (2, 1)), (3, (1, 2, 1))] if q else LAY)
    yield 'small', dict(mp=mp('Plain', 'Four', 'GStewart2', 'Incl'), ocp=O, path=PATH, scheme=SCHEME, n_s=[1, 2, 3], lay=[(1, (1,)), (2, (1, 2))])
    yield 'speed of time', dict(mp=mp('Full', 'Clock'), ocp=[None, ('bounds',)], sot=SOT, lay=[(1, (1,)), (2, (1, 2))], sot_b=[(0.5, 7.0), (0.05, 2.0), (0.9, 30.0)])
    yield 'bounds', dict(mp=mp(*ALL), ocp=[None, ('bounds',), ('guess',), ('bounds', 'guess')], mpcc=MPCC, fesd=BOOL, scheme=SCHEME,
                         lay=[(2, (1, 2))] if q else INPUTS)


@spaces('C06')
def _c06(q):
    O = [None, ('cost',), ('constcost',), ('bare', 'cost')]
    yield 'integral', dict(mp=mp('Full', 'TwoSys', 'Plain'), ocp=O, rep=REP, scheme=SCHEME, n_s=[1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 6],
                           fesd=BOOL, lay=[(1, (2,)), (2, (2, 1))] if q else LAY)
    yield 'speed of time', dict(mp=mp('Full', 'Clock'), ocp=O, sot=SOT, rep=REP, scheme=SCHEME, n_s=[1, 2], lay=[(2, (2, 1)), (3, (1, 2, 1))])
    yield 'regularisers', dict(mp=mp('Full', 'TwoSys'), ocp=[None, ('cost',)], mpcc=MPCC, se=SE, fesd=BOOL, direct=BOOL, rho=[1.3, 0.0],
                               lay=[(2, (2, 3))])
    yield 'many stages', dict(mp=mp('Const'), ocp=[('constcost',), ('cost',)], rep=REP, scheme=SCHEME, n_s=list(range(1, 10)))


@spaces('C07')
def _c07(q):
    yield 'coupling', dict(mp=mp('Plain', 'TwoSys', 'Four', 'Incl2', 'ThreeSys'), se=SE, cross=CROSS, scheme=SCHEME,
                           lay=[(1, (1,)), (1, (3,)), (2, (2, 3)), (2, (3, 1))] if q else LAY + [(1, (4,)), (3, (3, 1, 4))], equi=BOOL)
    yield 'modes', dict(mp=mp('Plain', 'TwoSys'), se=SE, mpcc=MPCC, cross=CROSS, fesd=BOOL, n_s=[1, 3], lay=[(1, (3,)), (2, (2, 2))])
    yield 'weights', dict(mp=mp('Full'), se=SE, rho=[1.3, 0.4], se_sigma=[0.35, 2.0], T=[1.7, 0.6], rep=REP, gamma=[0.8, 0.0], lay=[(2, (3, 2))])


@spaces('C08')
def _c08(q):
    kinds = ('comp_rk', 'comp_ctrl', 'comp_glob')
    O = [s for n in (1, 2, 3) for s in itertools.combinations(kinds, n)]
    yield 'levels', dict(mp=mp('Full', 'Clock', 'TwoSys', 'GStewart2'), ocp=O, mpcc=MPCC,
                         lay=[(1, (1,)), (1, (3,)), (2, (2, 1)), (3, (1, 2, 1))] if q else LAY, fesd=BOOL)
    yield 'schemes', dict(mp=mp('Full'), ocp=O, rep=REP, scheme=SCHEME, n_s=[1, 2, 3], cross=CROSS, lay=[(1, (2,)), (2, (1, 2))])
    yield 'kinds of factors', dict(mp=mp('Full'), ocp=PAIRS, mpcc=['SCHOLTES_INEQ', 'FISCHER_BURMEISTER', 'ELASTIC_TWO_SIDED'] if q else MPCC,
                                   fesd=BOOL, lay=[(1, (1,)), (2, (2, 1))] if q else LAY)
    P = [p[0] for p in PAIRS if not q or 'const' not in p[0] and sorted(p[0][5:].split(',')) == p[0][5:].split(',')]
    two = list(itertools.combinations(P, 2))
    yield 'two pairs', dict(mp=[('Full', 'STEWART')] if q else mp('Full'), ocp=two, lay=[(2, (2, 1))])


@spaces('C26')
def _c26(q):
    yield 'speed of time', dict(mp=mp('Clock', 'Full', 'Plain'), sot=SOT, ocp=[None, ('cost',), FULL], rep=REP, scheme=SCHEME, fesd=BOOL,
                                n_s=[1, 2], lay=[(1, (2,)), (2, (2, 1)), (3, (1, 2, 1))], sot_b=[(0.5, 7.0), (0.05, 2.0), (0.25, 4.0)] if not q else [(0.5, 7.0)])
    yield 'bounds', dict(mp=mp('Clock'), sot=SOT, ocp=[None, ('cost',)], rep=REP, fesd=BOOL, lay=[(1, (2,)), (2, (2, 1))], sot_b=[(0.05, 2.0), (0.9, 30.0), (1.0, 1.0), (0.001, 0.2)])
    yield 'time freezing', dict(mp=mp('Clock'), tf=[True, False], equi=BOOL, fesd=BOOL, sot=SOT, lay=layouts(3, 2), tf_tol=[2e-3, 0.1],
                                scheme=SCHEME)


def large(pid, q):
    """a few problems with many stages, elements, Runge-Kutta stages, systems, regions, variables and parameters of every kind"""
    O = [None, FULL, ('path_eq', 'term', 'cost')] if pid in ('C05', 'C06', 'C08') else [None, FULL]
    yield 'large layouts', dict(mp=mp('Full'), ocp=O, lay=[(1, (9,)), (6, (1, 2, 1, 3, 1, 1)), (5, (2, 2, 2, 2, 2))], rep=REP, scheme=SCHEME, equi=BOOL,
                                fesd=BOOL, n_s=[2] if q else [1, 2, 4], sot=['NONE', 'LOCAL'] if pid == 'C26' or not q else ['NONE'])
    yield 'large models', dict(mp=mp('Big', 'BigG'), ocp=O, lay=[(1, (1,)), (1, (2,)), (2, (1, 2))] if q else LAY + [(5, (1, 2, 1, 1, 1))], rep=REP, scheme=SCHEME, fesd=BOOL,
                               n_s=[1, 2] if q else [1, 2, 3], cross=CROSS if pid in ('C03', 'C07') or not q else CROSS[:1])
    yield 'large both', dict(mp=mp('Big', 'BigG'), ocp=[FULL], lay=[(5, (1, 2, 1, 1, 3))], rep=REP, scheme=SCHEME, n_s=[5])
    if pid in ('C03', 'C06', 'C07', 'C08'):
        yield 'large modes', dict(mp=mp('Big', 'BigG'), ocp=[None, FULL], mpcc=MPCC, cross=CROSS, se=SE[:5:2] + SE[5:6], n_s=[1], lay=[(1, (2,)), (2, (1, 3))])


def enumerate_space(pid, quick):
    """(part name, configuration), each configuration once"""
    seen = set()
    for name, axes in itertools.chain(SPACES[pid](quick), large(pid, quick)):
        for c in product(**axes):
            k = key(c)
            if k not in seen:
                seen.add(k)
                yield name, c
    for name, gen in (('deviations', deviations(BASES, 1, seen)),
                      ('deviations 2', deviations(BASES if not quick else [], 2, seen))):
        for c in gen:
            yield name, c


def vkey(pid, msg):
    return pid + ':' + re.sub(r'[-+.\d]+', '#', msg)[:120]


def check_one(c):
    return check_cfg(c)


def run(ck, extra=None):
    pid = ck.pid
    ck.level = 'exploration'
    items = list(enumerate_space(pid, ck.quick))
    counts = {}
    other = {}

    def on(it, res):
        name, c = it
        ck.evals += 1
        counts[name] = counts.get(name, 0) + 1
        if nontrivial(c):
            ck.nontrivial += 1
        hits = [m for t, m in res if pid in t or '*' in t]
        if hits:
            ck.violation(vkey(pid, hits[0]), f'[{describe(c)}] ' + ' ; '.join(hits[:4]), dict(kind='cfg', cfg=c))
        elif res:
            other[str(sorted(res[0][0]))] = describe(c) + ': ' + res[0][1]
        if c['ocp'] and c['N'] > 1:
            ck.sample(short(c))

    # simplest first, so that the first counterexample is small
    pmap(ck, _task, items, on)
    for n in counts:
        ck.part(n, configurations=counts[n])
    if other:
        ck.part('mismatches attributed to other properties', **{k: v[:300] for k, v in list(other.items())[:5]})
    ck.rules.append('All combinations of the listed axis values (models, PSS mode, IRK scheme / representation / stages, element layouts, '
                    'FESD, cross-complementarity, MPCC, step equilibration and OCP features as far as they interact with the property), plus all '
                    'configurations within %d changed axes of %d base configurations.  Each one is built with the real code and its complete NLP '
                    '(every constraint row with bounds, objective, residual, variable bounds and guesses) is compared with the reference '
                    'transcription at two generic witness points.  Non-trivial: more than one element or stage, or an OCP.'
                    % (1 if ck.quick else 2, len(BASES)))
    ck.assumptions.append('Two NLP expressions that agree at two fixed generic points (1e-7 relative) are taken to be equal.')


def _task(it):
    return check_one(it[1])


def nontrivial(c):
    return sum(c['Nfe']) > 1 or c['ocp'] is not None


def replay(pid, data):
    c = dict(data['cfg'])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return [m for t, m in check_cfg(c) if pid in t or '*' in t]


# --- C09 ------------------------------------------------------------------------------------------
def lsq_space(q):
    eqm = ['SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'FISCHER_BURMEISTER_IP_AUG', 'ELASTIC_EQ']
    ineq = [m for m in MPCC if m not in eqm]
    sp = [('equalities', dict(mp=mp('Plain', 'Full', 'TwoSys', 'Four', 'Incl', 'GStewart2', 'ThreeSys'), mpcc=eqm, cross=CROSS, scheme=SCHEME, fesd=BOOL,
                              lay=[(1, (1,)), (1, (2,)), (2, (2, 1))] if q else LAY)),
          ('ocp', dict(mp=mp('Full', 'TwoSys', 'Clock'), mpcc=eqm, ocp=[('cost',), ('path_eq',), ('term',), ('comp_rk', 'comp_ctrl', 'comp_glob'),
                                                                       ('cost', 'path_eq', 'term', 'comp_rk', 'bounds'), ('path',), ('bare', 'cost', 'path_eq', 'term'),
                                                                       ('bare', 'path'), FULL], path=PATH,
                       rep=REP, lay=[(1, (2,)), (2, (2, 1))])),
          ('step equilibration', dict(mp=mp('Plain', 'TwoSys'), mpcc=eqm, se=SE, equi=BOOL, sot=SOT, direct=BOOL, lay=[(1, (3,)), (2, (2, 2))])),
          ('inequalities', dict(mp=mp('Plain', 'Full', 'TwoSys', 'Incl2'), mpcc=ineq, cross=CROSS, fesd=BOOL, ocp=[None, ('cost',), FULL],
                                lay=[(1, (1,)), (1, (2,)), (2, (2, 1))])),
          ('clock', dict(mp=mp('Clock'), mpcc=eqm, tf=BOOL, sot=SOT, equi=BOOL, lay=[(1, (2,)), (2, (1, 2))]))]
    seen = set()
    for name, axes in sp:
        for c in product(**axes):
            if key(c) not in seen:
                seen.add(key(c))
                yield name, c


def lsq_compare(c):
    b = build(c)
    with env.quiet():
        b.solver.solve()
    call = b.fake.calls[0]
    W, P = witness(b)
    f, g = nlp_values(b, W, P)
    zero_eq = bool(np.all(call['lbg'] == 0) and np.all(call['ubg'] == 0))
    c2 = dict(c, lsq=True)
    try:
        b2 = build(c2)
    except Exception as e:
        if zero_eq:
            return [f'refused although every constraint is an equality to zero: {type(e).__name__}: {e}'], zero_eq
        return [], zero_eq
    if not zero_eq:
        return ['inequality constraints are silently accepted'], zero_eq
    out = []
    with env.quiet():
        b2.solver.solve()
    n = b2.fake.nlp
    if 'g' in n and n['g'].shape[0] * n['g'].shape[1] not in (0,):
        out.append(f'the NLP still has {n["g"].shape[0]} constraints')
    if not np.all(n['x'].shape == b.fake.nlp['x'].shape) or n['p'].shape != b.fake.nlp['p'].shape:
        return out + ['number of variables or parameters differs'], zero_eq
    fun = ca.Function('f', [n['x'], n['p']], [n['f']])
    f2 = np.array([float(fun(W[:, k], P[:, k])) for k in range(W.shape[1])])
    want = f + np.sum(g**2, axis=0)
    if not np.allclose(f2, want, rtol=1e-8, atol=1e-8):
        out.append(f'objective {f2.tolist()}, expected {want.tolist()} (= {f.tolist()} + squares)')
    call2 = b2.fake.calls[0]
    for k in ('x0', 'lbx', 'ubx', 'p'):
        if not np.array_equal(call[k], call2[k]):
            out.append(f'{k} differs between the two ways of handling constraints')
    if len(call2['lbg']) or len(call2['ubg']):
        out.append('constraint bounds are left')
    return out, zero_eq


def lsq_task(it):
    try:
        return trans.with_timeout(30.0, lsq_compare, it[1])
    except Exception as e:
        return [f'{type(e).__name__}: {e}'], None


def run_c09(ck):
    ck.level = 'exploration'
    items = list(lsq_space(ck.quick))
    cnt = {}

    def on(it, res):
        name, c = it
        msgs, zero = res
        ck.evals += 1
        ck.nontrivial += bool(nontrivial(c))
        d = cnt.setdefault(name, dict(accepted=0, refused=0))
        d['accepted' if zero else 'refused'] += 1
        if msgs:
            ck.violation(vkey('C09', msgs[0]), f'[{describe(c)}] ' + ' ; '.join(msgs), dict(kind='lsq', cfg=c))
        ck.sample(dict(cfg=short(c), all_equalities_to_zero=bool(zero)))

    pmap(ck, lsq_task, items, on)
    for n, d in cnt.items():
        ck.part(n, **d)
    ck.rules.append('Every configuration of the listed axes is built twice, with exact and with least-squares constraint handling; the two NLPs are '
                    'compared (objective = exact objective + sum of squares of the exact constraints, no constraints left, everything else equal) and '
                    'construction must be refused exactly when some exact constraint is not an equality to zero.')


def replay_c09(data):
    c = dict(data['cfg'])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return lsq_task(('', c))[0]
