"""Configuration spaces: products of interacting axes and bounded deviation from base points."""
import itertools
from .trans import cfg_of, supported
from .models import MODELS

FULL = ('bounds', 'guess', 'cost', 'path', 'term', 'comp_rk', 'comp_ctrl', 'comp_glob')
SE = ['HEURISTIC_MEAN', 'HEURISTIC_DELTA', 'L2_RELAXED_SCALED', 'L2_RELAXED', 'DIRECT', 'DIRECT_COMPLEMENTARITY',
      'HEURISTIC_DELTA_H_COMP']
MPCC = ['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'FISCHER_BURMEISTER_IP_AUG', 'ELASTIC_INEQ', 'ELASTIC_EQ',
        'ELASTIC_TWO_SIDED', 'BOOLEAN']
CROSS = ['SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA', 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER']
REP = ['INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X']
SCHEME = ['RADAU_IIA', 'GAUSS_LEGENDRE']
PSS = ['STEWART', 'STEP']
SOT = ['NONE', 'LOCAL', 'GLOBAL']
BOOL = [True, False]
LAY = [(1, (1,)), (1, (2,)), (1, (3,)), (2, (1, 2)), (2, (2, 1)), (2, (2, 2)), (3, (1, 2, 1)), (3, (2, 1, 3))]
LARGE = [(1, (9,)), (6, (1, 2, 1, 3, 1, 1)), (5, (2, 2, 2, 2, 2))]

SYM = ['x', 'z', 'u', 'pt', 'pg', 'v', 'const']
PAIRS = [(f'pair:{a},{b}',) for a in SYM for b in SYM if (a, b) != ('const', 'const')]


def layouts(maxN, maxF):
    return [(N, f) for N in range(1, maxN + 1) for f in itertools.product(range(1, maxF + 1), repeat=N)]


def product(**axes):
    """axes: name -> list of values; 'lay' sets N and Nfe.  Simplest combinations first."""
    names = list(axes)
    combos = itertools.product(*[range(len(axes[n])) for n in names])
    for idx in sorted(combos, key=sum):
        d = {n: axes[n][i] for n, i in zip(names, idx)}
        if 'lay' in d:
            d['N'], d['Nfe'] = d.pop('lay')
        if 'mp' in d:
            d['model'], d['pss'] = d.pop('mp')
        if 'path' in d:
            d['path_fe'], d['path_stg'] = d.pop('path')
        c = cfg_of(**d)
        if supported(c) is None:
            yield c


def mp(*names):
    return [(n, p) for n in names for p in MODELS[n].pss]


BASES = [
    dict(model='Full', pss='STEWART', ocp=FULL, N=2, Nfe=(2, 3)),
    dict(model='TwoSys', pss='STEP', ocp=FULL, N=2, Nfe=(2, 1), scheme='GAUSS_LEGENDRE', rep='DIFFERENTIAL'),
    dict(model='Full', pss='STEP', ocp=FULL, N=3, Nfe=(1, 2, 1), rep='DIFFERENTIAL_LIFT_X', n_s=3),
    dict(model='ThreeSys', pss='STEWART', ocp=None, N=1, Nfe=(3,), scheme='GAUSS_LEGENDRE', cross=CROSS[1], n_s=1),
    dict(model='Clock', pss='STEWART', ocp=FULL, N=2, Nfe=(2, 2), fesd=False, sot='LOCAL', tf=True),
    dict(model='Incl2', pss='STEP', ocp=('cost', 'term'), N=2, Nfe=(1, 3), mpcc='ELASTIC_TWO_SIDED', equi=False),
]
AXES = dict(
    mp=mp('Plain', 'Const', 'Full', 'TwoSys', 'Four', 'GStewart', 'GStewart2', 'Incl', 'Incl2', 'Clock', 'ThreeSys'),
    ocp=[None, ('cost',), ('constcost',), ('bounds',), ('guess',), ('path',), ('path_eq',), ('term',), ('comp_rk',),
         ('comp_ctrl',), ('comp_glob',), ('bare', 'cost', 'path', 'term'), ('bare', 'path_eq', 'term'), FULL],
    rep=REP, scheme=SCHEME, n_s=[1, 2, 3, 4], fesd=BOOL, cross=CROSS, mpcc=MPCC, se=SE, lay=LAY, equi=BOOL,
    path=[(False, False), (True, False), (False, True), (True, True)], sot=SOT, tf=[False, True], direct=BOOL,
    gamma=[0.8, 0.0, 1.0], T=[1.7, 0.6], rho=[1.3, 0.4], sigma0=[0.9, 2.5],
    init=['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL'])


def axis_values(name):
    """assignments an axis can make"""
    for v in AXES[name]:
        if name == 'mp':
            yield dict(model=v[0], pss=v[1])
        elif name == 'lay':
            yield dict(N=v[0], Nfe=v[1])
        elif name == 'path':
            yield dict(path_fe=v[0], path_stg=v[1])
        else:
            yield {name: v}


def deviations(bases, depth, seen=None):
    """all configurations that differ from a base in at most `depth` axes"""
    seen = set() if seen is None else seen
    for b in bases:
        for d in range(depth + 1):
            for axes in itertools.combinations(AXES, d):
                for vals in itertools.product(*[list(axis_values(a)) for a in axes]):
                    kw = dict(b)
                    changed = True
                    for v in vals:
                        if all(cfg_of(**b).get(k) == x for k, x in v.items()):
                            changed = False
                        kw.update(v)
                    if not changed:
                        continue
                    c = cfg_of(**kw)
                    key = tuple(sorted((k, str(v)) for k, v in c.items()))
                    if key in seen or supported(c) is not None:
                        continue
                    seen.add(key)
                    yield c


def key(c):
    return tuple(sorted((k, str(v)) for k, v in c.items()))
