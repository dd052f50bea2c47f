"""C12, static half: which parameter slots every constraint row and every term of the objective uses.

For one configuration the dependency pattern of each row (on every variable and every parameter slot) is
found by perturbing the slots one at a time, in the NLP of the real code and in the reference
transcription, and the two collections of patterns are compared."""
import collections
import numpy as np
import casadi as ca
from . import env, trans
from .ref import Ref
from .space import FULL, REP, SCHEME, SOT, BOOL, product, mp, key
from .trans import build, witness
from .transcheck import describe

D = 0.173


def columns(W, P, which):
    """base point and one column per (kind, index) in `which`"""
    n = 1 + len(which)
    WW, PP = np.repeat(W[:, :1], n, axis=1), np.repeat(P[:, :1], n, axis=1)
    for k, (i, q) in enumerate(which):
        if i is not None:
            WW[i, k + 1] += D
        if q is not None:
            PP[q, k + 1] += D
    return WW, PP


def real(b, WW, PP):
    n = WW.shape[1]
    f, g = b.fake.fg().map(n)(WW, PP)
    return f.full().reshape(-1), g.full()


def patterns(vals, which):
    d = np.abs(vals - vals[:, :1])[:, 1:] > 1e-9 * (1 + np.abs(vals[:, :1]))
    return [frozenset(which[k] for k in np.flatnonzero(r)) for r in d]


def name(b, w):
    return str(b.fake.nlp['x'][w[0]] if w[0] is not None else b.fake.nlp['p'][w[1]])


def slots_of(b):
    n = (b.mspec.n_pt + b.mspec.n_pg) * b.cfg['N']
    return [q for q in range(b.fake.nlp['p'].shape[0]) if q not in (n, n + 1)]


def compare(c):
    b = build(c)
    W, P = witness(b)
    nw = W.shape[0]
    slots = slots_of(b)
    which = [(i, None) for i in range(nw)] + [(None, q) for q in slots]
    WW, PP = columns(W, P, which)
    f, g = real(b, WW, PP)
    rows = Ref(c, b.mspec, b.ospec, b.prob, WW, PP).build().rows
    uses = lambda s: any(w[0] is None for w in s)
    act = collections.Counter(s for s in patterns(g, which) if uses(s))
    out = []
    for r in rows:
        alts = [s for v in (r.val,) + tuple(r.alts) for s in patterns(np.asarray(v, dtype=float).reshape(1, -1), which)]
        hit = next((s for s in alts if act.get(s, 0) > 0), None)
        if hit is not None:
            act[hit] -= 1
        elif any(uses(s) for s in alts):
            out.append(f'no constraint uses exactly the parameters {sorted(name(b, w) for w in alts[0] if w[0] is None)} of: {r.what}')
    for s, n in act.items():
        if n > 0:
            out.append(f'{n} constraint(s) with {sorted(name(b, w) for w in s if w[0] is not None)[:6]} use the parameters {sorted(name(b, w) for w in s if w[0] is None)}')
    # objective: pairs (parameter, variable) that enter together
    pairs = [(i, q) for q in slots for i in range(nw)]
    W2, P2 = columns(W, P, which + pairs)
    fr, _ = real(b, W2, P2)
    fe = np.broadcast_to(np.asarray(Ref(c, b.mspec, b.ospec, b.prob, W2, P2).build().f, dtype=float), fr.shape)
    pos = {w: k + 1 for k, w in enumerate(which)}

    def mixed(F):
        s = {}
        for q in slots:
            if abs(F[pos[(None, q)]] - F[0]) > 1e-8 * (1 + abs(F[0])):
                s[q] = set()
        for k, (i, q) in enumerate(pairs):
            m = F[1 + len(which) + k] - F[pos[(None, q)]] - F[pos[(i, None)]] + F[0]
            if abs(m) > 1e-8 * (1 + abs(F[0])):
                s.setdefault(q, set()).add(i)
        return s
    a, e = mixed(fr), mixed(fe)
    for q in slots:
        if a.get(q) != e.get(q):
            d = sorted(a.get(q, set()) ^ e.get(q, set()))[:4]
            out.append(f'the objective uses {b.fake.nlp["p"][q]} ' + ('together with other variables than expected: ' + str([str(b.fake.nlp['x'][i]) for i in d])
                                                                      if q in a and q in e else 'unexpectedly' if q in a else 'nowhere'))
    return out, len(which) + len(pairs), len(rows), sum(uses(s) for s in patterns(g, which))


def space(q):
    L = [(1, (2,)), (2, (2, 1)), (3, (1, 2, 1))]
    parts = [dict(mp=mp('Full', 'Four', 'ZSwitch', 'TwoSys', 'Clock'), ocp=[None, FULL], lay=L, fesd=BOOL, scheme=SCHEME),
             dict(mp=mp('Full'), ocp=[FULL], rep=REP, scheme=SCHEME, n_s=[1, 2], lay=L[:2], path=[(False, False), (True, True)], sot=SOT if not q else SOT[:2]),
             dict(mp=mp('Full', 'Four'), ocp=[('cost',), ('term',), ('path',), ('comp_rk',), ('comp_ctrl',), ('comp_glob',)], lay=L[1:], cross=['COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER']),
             dict(mp=mp('Big', 'BigG', 'BigSim'), ocp=[None, FULL], lay=[(1, (2,)), (5, (1, 2, 1, 1, 1))], fesd=BOOL, n_s=[1, 2]),
             dict(mp=mp('GStewart', 'Incl', 'Incl2', 'SimZ'), ocp=[None, ('cost', 'term', 'path')], lay=L[1:], scheme=SCHEME)]
    seen = set()
    for p in parts:
        for c in product(**p):
            if key(c) not in seen:
                seen.add(key(c))
                yield c


def task(c):
    try:
        return trans.with_timeout(60.0, compare, c)
    except Exception as e:
        return [f'{type(e).__name__}: {e}'], 0, 0, 0
