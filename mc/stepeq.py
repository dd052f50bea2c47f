"""C07, second part: the coupling of step sizes on runs of hybrid automata.  Every run of part A of hybrid.py, every assignment of its
segments to finite elements and every split of the segments into unequal elements is plugged into the real NLP; the mode has to
object exactly when two neighbouring elements of a control stage without a mode change between them differ in size."""
import itertools
import numpy as np
from . import env, hybrid, transcheck
from .driver import pmap
from .hybrid import HM, Auto, Ambiguous, Nlp, compositions, guarded, runs, replay_run
from .space import MPCC, CROSS, SCHEME, SE
from .trans import cfg_of, supported
from .transcheck import short, describe

WEIGHTS = {1: [(1,)], 2: [(1, 1), (1, 2), (2, 1)], 3: [(1, 1, 1), (1, 2, 1), (1, 2, 2), (3, 2, 1)], 4: [(1, 1, 1, 1), (1, 1, 2, 2), (2, 1, 1, 1)]}


def allocations(c, segs):
    per = []
    for k, S in enumerate(segs):
        n = c['Nfe'][k]
        if len(S) > n:
            return
        opts = []
        for comp in compositions(n, len(S)):
            for ws in itertools.product(*[WEIGHTS[m] for m in comp]):
                el = []
                for s, w in zip(S, ws):
                    t = 0.0
                    for r in w:
                        h = s[5] * r / sum(w)
                        el.append((s, t, h))
                        t += h
                hk = c['T'] / c['N'] / n
                if max(e[2] for e in el) > (1 + c['gamma']) * hk + 1e-12:
                    continue
                opts.append(el)
        per.append(opts)
    yield from itertools.product(*per)


def free(a, b):
    """may the sizes of two neighbouring elements of these segments differ?"""
    return a[:2] != b[:2] and (a[0] != b[0] or bool(a[1]) != bool(b[1]))


def expected(c, al):
    """number of neighbouring pairs with different sizes and no mode change in between, and without regard to mode changes, and of
    elements that differ from the nominal size"""
    bad = dif = nom = 0
    for k, el in enumerate(al):
        for a, b in zip(el, el[1:]):
            if abs(a[2] - b[2]) > 1e-9:
                dif += 1
                bad += not free(a[0], b[0])
        nom += sum(abs(e[2] - c['T'] / c['N'] / c['Nfe'][k]) > 1e-9 for e in el)
    return bad, dif, nom


def task(item):
    c, q = item
    nlp = Nlp(c)
    au = Auto(HM[c['model']])
    R, amb = runs(c, q)
    res = dict(msg=[], points=0, coupled=0, free=0, equal=0)
    for x0, st, segs in R:
        for al in allocations(c, segs):
            bad, dif, nom = expected(c, al)
            point = {}
            orig = nlp.defect
            nlp.defect = lambda w, p: (point.update(w=w, p=p), orig(w, p))[1]
            d, where = replay_run(nlp, au, x0, st, al)
            del nlp.defect
            f = float(nlp.fun(point['w'], point['p'])[0])
            res['points'] += 1
            res['coupled'] += bad > 0
            res['free'] += dif > bad
            res['equal'] += dif == 0
            se = c['se']
            desc = (f'run from {list(x0)} with inputs {[s[0] for s in st]}, modes {hybrid.switch_words(au, x0, st, segs)}, steps '
                    f'{[[round(float(e[2]), 5) for e in el] for el in al]}')
            if se in ('DIRECT', 'DIRECT_COMPLEMENTARITY', 'HEURISTIC_DELTA_H_COMP'):
                ok = d < 1e-11
                want = bad == 0
                if ok != want:
                    res['msg'].append((f'{se}:accepts' if ok and se == 'HEURISTIC_DELTA_H_COMP' else f'{se}:{c["mpcc"]}:{"accepts" if ok else "refuses"}',
                                       f'{desc}: {"accepted although the steps differ without a switch" if ok else f"refused: {hybrid.text(nlp, where)} is violated by {d:.3g}"}'))
            else:
                want = {'HEURISTIC_MEAN': nom > 0, 'HEURISTIC_DELTA': dif > 0}.get(se, bad > 0)
                if not d < hybrid.TOL:
                    res['msg'].append((f'{se}:infeasible', f'{desc}: {hybrid.text(nlp, where)} is violated by {d:.3g}'))
                if (abs(f) > 1e-11) != want or f < -1e-12:
                    res['msg'].append((f'{se}:cost', f'{desc}: penalty {f}, expected {"a positive one" if want else "none"}'))
    return res


def space(q):
    seen = set()
    mps = [(k, s) for k in HM for s in HM[k].pss if k != 'HBounce' or True]

    def emit(part, mp, lay, **axes):
        for (name, pss), (N, Nfe), *vals in itertools.product(mp, lay, *axes.values()):
            c = cfg_of(model=name, pss=pss, N=N, Nfe=Nfe, gamma=1.0, T=1.5, el=(0.8, 9.0, 0.0), rho=1.0, **dict(zip(axes, vals)))
            if supported(c) is None and str(c) not in seen:
                seen.add(str(c))
                yield part, c
    yield from emit('runs', mps, [(1, (2,)), (1, (3,))] if q else [(1, (2,)), (1, (3,)), (1, (4,)), (2, (2, 3)), (2, (3, 1))], se=SE, scheme=SCHEME, cross=CROSS if not q else CROSS[:1])
    yield from emit('runs, complementarity modes', [('HRamp', 'STEWART'), ('HSlide', 'STEP')], [(1, (3,))] if q else [(1, (3,)), (2, (2, 3))],
                    se=[s for s in SE if s.startswith('DIRECT') or s == 'HEURISTIC_DELTA_H_COMP'],
                    mpcc=[m for m in MPCC if not m.startswith('ELASTIC')] + ['ELASTIC_INEQ', 'ELASTIC_EQ', 'ELASTIC_TWO_SIDED'], cross=CROSS, scheme=SCHEME)


_t = guarded(task)


def _task(it):
    return _t(it[1:])


def run(ck):
    transcheck.run(ck)
    if ck.full():
        return
    items = [(p, c, ck.quick) for p, c in space(ck.quick)]
    cnt = {}

    def on(it, res):
        d = cnt.setdefault(it[0], {})
        d['problems'] = d.get('problems', 0) + 1
        for k, v in res.items():
            if k != 'msg':
                d[k] = d.get(k, 0) + v
        ck.evals += res.get('points', 0)
        ck.nontrivial += res.get('coupled', 0) + res.get('free', 0)
        for key, m in dict(reversed(res['msg'])).items():
            ck.violation(key, f'[{describe(it[1])}] {m}', dict(kind='c07', item=list(it)))

    pmap(ck, _task, items, on, chunk=2)
    for k, d in cnt.items():
        ck.part(k, **d)
    ck.rules.append('Second part: every run of a set of hybrid automata (see C22) x every assignment of its segments to elements x a set of unequal splits of the segments is '
                    'plugged into the unrelaxed NLP: constraint modes must refuse, penalty modes must penalise exactly those points where two neighbouring elements of a stage '
                    'differ in size although no multiplier changes sides between them.')


def replay(data):
    it = data['item']
    c = dict(it[1])
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return [m[1] for m in _task((it[0], c, it[2]))['msg']]
