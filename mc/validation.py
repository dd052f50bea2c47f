"""C21: every single corruption of every field of every base problem must be refused at or before construction; every consistent
combination must be accepted."""
import dataclasses
import enum
import itertools
import numpy as np
import casadi as ca
from . import env, space, trans
from .driver import pmap
from .models import MODELS, Ocp
from .trans import cfg_of, make_opts, supported
from .transcheck import describe

nosnoc = env.nosnoc


def resize(a, n):
    """first-axis resize of a vector"""
    a = np.array(a, dtype=float).flatten()
    return np.resize(np.append(a, [0.37] * (n + 1)), n) if n > len(a) else a[:n]


def base(c):
    """fresh (opts, model arguments, ocp arguments)"""
    spec = MODELS[c['model']]
    store = {}
    real_m, real_o = nosnoc.NosnocModel, nosnoc.NosnocOcp

    def cap(name):
        def f(**kw):
            store[name] = kw
            return None
        return f
    nosnoc.NosnocModel, nosnoc.NosnocOcp = cap('m'), cap('o')
    try:
        spec.build(c['N'])
        if c['ocp'] is not None:
            Ocp(spec, c['ocp']).build()
    finally:
        nosnoc.NosnocModel, nosnoc.NosnocOcp = real_m, real_o
    return make_opts(c), store['m'], store.get('o')


def construct(o, m, oc):
    with env.quiet(), env.real_nlpsol():
        mod = nosnoc.NosnocModel(**m)
        ocp = None if oc is None else nosnoc.NosnocOcp(**oc)
        return nosnoc.NosnocSolver(o, mod, ocp)


def vec_corruptions(n):
    """wrong lengths of a vector that should have n entries"""
    return [k for k in (n + 1, n - 1, 0, 2 * n + 1) if k >= 0 and k != n]


def rows_of(F):
    return F.shape[0]


def corruptions(c):
    """(name, function that corrupts (o, m, oc) in place); names identify what is inconsistent"""
    o, m, oc = base(c)
    spec = MODELS[c['model']]
    N = c['N']
    L = []

    def add(name, f):
        L.append((name, f))
    # --- model vectors
    for fld, n in [('x0', spec.n_x), ('z0', spec.n_z), ('lbz', spec.n_z), ('ubz', spec.n_z), ('p_global_val', spec.n_pg)]:
        for k in dict.fromkeys(vec_corruptions(n)):
            add(f'{fld} of length {k} instead of {n}', lambda o, m, oc, fld=fld, k=k: m.__setitem__(fld, resize(m.get(fld, []), k)))
    for sh in dict.fromkeys([(N + 1, spec.n_pt), (N - 1, spec.n_pt), (N, spec.n_pt + 1), (N, spec.n_pt - 1), (N * max(spec.n_pt, 1),), (spec.n_pt, N)]):
        if min(sh) < 0 or sh == (N, spec.n_pt):
            continue
        add(f'p_time_var_val of shape {sh} instead of {(N, spec.n_pt)}', lambda o, m, oc, sh=sh: m.__setitem__('p_time_var_val', np.full(sh, 0.4)))
    if spec.n_pg:
        add('p_global_val missing', lambda o, m, oc: m.pop('p_global_val'))
    ns = len(spec.subs)
    # --- regions
    if spec.kind != 'inclusion':
        second = 'S' if spec.kind == 'filippov' else 'g_Stewart'
        for i in range(ns):
            add(f'F[{i}] with an extra column', lambda o, m, oc, i=i: m['F'].__setitem__(i, ca.horzcat(m['F'][i], m['F'][i][:, 0])))
            if m['F'][i].shape[1] > 2:
                add(f'F[{i}] with a column missing', lambda o, m, oc, i=i: m['F'].__setitem__(i, m['F'][i][:, 1:]))
            add(f'F[{i}] with one column', lambda o, m, oc, i=i: m['F'].__setitem__(i, m['F'][i][:, 0]))
            add(f'F[{i}] with an extra row', lambda o, m, oc, i=i: m['F'].__setitem__(i, ca.vertcat(m['F'][i], m['F'][i][0, :])))
            if spec.n_x > 1:
                add(f'F[{i}] with a row missing', lambda o, m, oc, i=i: m['F'].__setitem__(i, m['F'][i][1:, :]))
                if spec.n_x != m['F'][i].shape[1]:
                    add(f'F[{i}] transposed', lambda o, m, oc, i=i: m['F'].__setitem__(i, m['F'][i].T))
            if spec.kind == 'filippov':
                add(f'S[{i}] with an extra row', lambda o, m, oc, i=i: m['S'].__setitem__(i, np.vstack([m['S'][i], m['S'][i][0]])))
                add(f'S[{i}] with a row missing', lambda o, m, oc, i=i: m['S'].__setitem__(i, m['S'][i][1:]))
                add(f'S[{i}] with an extra column', lambda o, m, oc, i=i: m['S'].__setitem__(i, np.hstack([m['S'][i], m['S'][i][:, :1]])))
                add(f'S[{i}] with a column missing', lambda o, m, oc, i=i: m['S'].__setitem__(i, m['S'][i][:, 1:]))
                if m['S'][i].shape[0] != m['S'][i].shape[1]:
                    add(f'S[{i}] transposed', lambda o, m, oc, i=i: m['S'].__setitem__(i, m['S'][i].T))
                add(f'c[{i}] with an extra entry', lambda o, m, oc, i=i: m['c'].__setitem__(i, ca.vertcat(m['c'][i], m['c'][i][0])))
                if m['c'][i].shape[0] > 1:
                    add(f'c[{i}] with an entry missing', lambda o, m, oc, i=i: m['c'].__setitem__(i, m['c'][i][1:]))
                if c['pss'] == 'STEWART':
                    def zero(o, m, oc, i=i):
                        S = np.array(m['S'][i])
                        S[0, -1] = 0
                        m['S'][i] = S
                    add(f'S[{i}] with a zero in Stewart mode', zero)
            else:
                add(f'g_Stewart[{i}] with an extra entry', lambda o, m, oc, i=i: m['g_Stewart'].__setitem__(i, ca.vertcat(m['g_Stewart'][i], m['g_Stewart'][i][0])))
                add(f'g_Stewart[{i}] with an entry missing', lambda o, m, oc, i=i: m['g_Stewart'].__setitem__(i, m['g_Stewart'][i][1:]))
        for fld in ('F', second) + (('c',) if spec.kind == 'filippov' else ()):
            add(f'{fld} with an extra system', lambda o, m, oc, fld=fld: m[fld].append(m[fld][0]))
            add(f'{fld} with a system missing', lambda o, m, oc, fld=fld: m[fld].pop())
            add(f'{fld} missing', lambda o, m, oc, fld=fld: m.pop(fld))
        add('general inclusion and Filippov system given', lambda o, m, oc: m.update(f_x=[m['x']], alpha=[ca.SX.sym('al', 1)]))
        if spec.kind == 'filippov':
            add('S and g_Stewart given', lambda o, m, oc: m.update(g_Stewart=[ca.vertcat(*[m['x'][0] * k for k in range(F.shape[1])]) for F in m['F']]))
        else:
            def to_step(o, m, oc):
                o.pss_mode = nosnoc.PssMode.STEP
            add('g_Stewart with the Step mode', to_step)
    else:
        for i in range(ns):
            add(f'alpha[{i}] with an extra entry', lambda o, m, oc, i=i: m['alpha'].__setitem__(i, ca.vertcat(m['alpha'][i], ca.SX.sym('more'))))
            add(f'c[{i}] with an extra entry', lambda o, m, oc, i=i: m['c'].__setitem__(i, ca.vertcat(m['c'][i], m['c'][i][0])))
            add(f'f_x[{i}] with an extra row', lambda o, m, oc, i=i: m['f_x'].__setitem__(i, ca.vertcat(m['f_x'][i], m['f_x'][i][0])))
            add(f'f_x[{i}] with a row missing', lambda o, m, oc, i=i: m['f_x'].__setitem__(i, m['f_x'][i][1:, :]))
        if ns > 1 and m['c'][0].shape[0] != m['c'][1].shape[0]:
            add('alpha blocks of other sizes than the blocks of c', lambda o, m, oc: m.update(c=m['c'][::-1]))
        for fld in ('alpha', 'c', 'f_x'):
            add(f'{fld} with a system missing', lambda o, m, oc, fld=fld: m[fld].pop())
            add(f'{fld} missing', lambda o, m, oc, fld=fld: m.pop(fld))
        add('alpha with an extra system', lambda o, m, oc: m['alpha'].append(ca.SX.sym('more')))
        add('c with an extra system', lambda o, m, oc: m['c'].append(m['c'][0][0]))

        def to_stewart(o, m, oc):
            o.pss_mode = nosnoc.PssMode.STEWART
        add('general inclusion with the Stewart mode', to_stewart)
    fldF = 'F' if spec.kind != 'inclusion' else 'f_x'

    def free(o, m, oc):
        m[fldF][0] = m[fldF][0] + ca.SX.sym('unknown')
    add('a symbol in the dynamics that is not declared', free)

    def notime(o, m, oc):
        m.pop('t_var', None)
        o.time_freezing = True
    add('time freezing without clock state', notime)
    # --- options
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        bad = ['text', None, [1.5, {}]] if not isinstance(v, list) else ['text', None, 3, (2,) * N, np.full(N, 2)]
        if isinstance(v, enum.Enum):
            bad += [0, True]
            other = nosnoc.PssMode.STEP if not isinstance(v, nosnoc.PssMode) else nosnoc.IrkSchemes.RADAU_IIA
            bad += [other, v.name]
        elif isinstance(v, bool):
            bad += [0.5, 2]
        elif isinstance(v, int):
            bad += [2.5, np.array([2, 2])]
        elif isinstance(v, float):
            bad += [nosnoc.PssMode.STEP, np.array([1.0, 2.0])]
        for b in bad:
            add(f'option {f.name} = {b!r}', lambda o, m, oc, f=f, b=b: setattr(o, f.name, b))
    for nfe in [(2,) * (N + 1), (2,) * (N - 1), (2,) * (2 * N)]:
        if nfe:
            add(f'Nfe_list of length {len(nfe)} instead of {N}', lambda o, m, oc, nfe=nfe: setattr(o, 'Nfe_list', list(nfe)))
    for w in (1.5, 'a', None, [2]):
        for k in range(N):
            add(f'Nfe_list with entry {w!r}', lambda o, m, oc, w=w, k=k: setattr(o, 'Nfe_list', [2] * k + [w] + [2] * (N - k - 1)))
    if oc is None:
        return L
    # --- OCP
    npath = 2 if ('path' in c['ocp'] or 'path_eq' in c['ocp']) else 0
    for fld, n in [('lbx', spec.n_x), ('ubx', spec.n_x), ('lbu', spec.n_u), ('ubu', spec.n_u), ('u_guess', spec.n_u), ('lbg', npath), ('ubg', npath),
                   ('lbv_global', spec.n_v), ('ubv_global', spec.n_v), ('v_global_guess', spec.n_v)]:
        for k in dict.fromkeys(vec_corruptions(n)):
            add(f'{fld} of length {k} instead of {n}', lambda o, m, oc, fld=fld, k=k: oc.__setitem__(fld, resize(oc.get(fld, []), k)))
    if 'lbg' in oc:
        add('g_path with an extra row', lambda o, m, oc: oc.__setitem__('g_path', ca.vertcat(oc['g_path'], oc['g_path'][0])))
    if 'g_path_comp' in oc:
        add('g_path_comp with one column', lambda o, m, oc: oc.__setitem__('g_path_comp', oc['g_path_comp'][:, 0]))
        add('g_path_comp with three columns', lambda o, m, oc: oc.__setitem__('g_path_comp', ca.horzcat(oc['g_path_comp'], oc['g_path_comp'][:, 0])))
    for fld in ('f_q', 'f_terminal'):
        add(f'{fld} with two entries', lambda o, m, oc, fld=fld: oc.__setitem__(fld, ca.vertcat(oc.get(fld, ca.SX(1.0)) + m['x'][0], m['x'][0])))
        add(f'{fld} with two columns', lambda o, m, oc, fld=fld: oc.__setitem__(fld, ca.horzcat(oc.get(fld, ca.SX(1.0)) + m['x'][0], m['x'][0])))
    for fld in ('f_q', 'f_terminal', 'g_path', 'g_terminal'):
        add(f'a symbol in {fld} that is not declared', lambda o, m, oc, fld=fld: oc.__setitem__(fld, oc.get(fld, ca.SX(1.0)) + ca.SX.sym('unknown')))
    return L


def task(it):
    kind, c, names = it
    out, n = [], 0
    if kind == 'accept':
        for cc in names:
            n += 1
            try:
                o, m, oc = base(cc)
                trans.with_timeout(60.0, construct, o, m, oc)
            except Exception as e:
                out.append((describe(cc), f'a consistent problem is refused: {type(e).__name__}: {str(e)[:200]}', cc))
        return out, n
    if kind == 'loop':
        return loop_task(c)
    L = corruptions(c)
    for i in names:
        name, f = L[i]
        o, m, oc = base(c)
        n += 1
        f(o, m, oc)
        try:
            trans.with_timeout(60.0, construct, o, m, oc)
        except trans.Timeout:
            out.append((name, f'{name}: no answer', i))
        except (Exception, Warning):
            continue
        else:
            out.append((name, f'{name} is accepted', i))
    return out, n


def loop_task(c):
    o, m, oc = base(c)
    spec = MODELS[c['model']]
    s = construct(o, m, oc)
    out, n = [], 0
    for nsim in (1, 2, 3):
        shapes = [(r, k) for r in range(0, nsim + 3) for k in range(0, spec.n_pg + 2)] + [(nsim * max(1, spec.n_pg),), (nsim,)]
        for sh in dict.fromkeys(shapes):
            n += 1
            ok = sh == (nsim, spec.n_pg)
            try:
                nosnoc.NosnocSimLooper(s, np.array(m['x0']), nsim, p_values=np.full(sh, 0.7))
                acc = True
            except Exception:
                acc = False
            if acc != ok:
                out.append((f'p_values {sh}', f'p_values of shape {sh} for {nsim} steps and {spec.n_pg} parameters is {"accepted" if acc else "refused"}', None))
    n += 1
    o2, m2, _ = base(c)
    return out, n


OC = ('bounds', 'guess', 'cost', 'path', 'term', 'comp_rk', 'comp_ctrl', 'comp_glob')


def bases(q):
    L = [dict(model='Full', N=2, Nfe=(1, 2), ocp=OC), dict(model='Full', pss='STEP', N=3, Nfe=(1, 1, 1), ocp=('cost', 'path_eq')), dict(model='Plain', Nfe=(2,)),
         dict(model='Const', Nfe=(1,), ocp=('bounds', 'path')), dict(model='TwoSys', pss='STEP', N=2, Nfe=(2, 1), ocp=OC), dict(model='TwoSys', N=1, Nfe=(2,)),
         dict(model='Four', N=2, Nfe=(1, 1), ocp=('cost', 'term')), dict(model='GStewart', N=2, Nfe=(2, 2), ocp=OC), dict(model='GStewart2', Nfe=(2,), ocp=('bounds', 'guess', 'comp_glob')),
         dict(model='Incl', pss='STEP', N=2, Nfe=(1, 2), ocp=OC), dict(model='Incl2', pss='STEP', N=3, Nfe=(1, 2, 1), ocp=('term', 'path')), dict(model='Clock', N=2, Nfe=(1, 2), ocp=OC, sot='LOCAL', tf=True),
         dict(model='SimZ', Nfe=(2,)), dict(model='ThreeSys', Nfe=(1,), pss='STEP')]
    if not q:
        L = [dict(b, **d) for b in L for d in (dict(), dict(scheme='GAUSS_LEGENDRE', rep='DIFFERENTIAL'), dict(fesd=False), dict(mpcc='ELASTIC_TWO_SIDED', sot='GLOBAL'), dict(n_s=1, equi=False))]
    return [cfg_of(**b) for b in L]


def accepted(q):
    """consistent problems: everything supported that differs from a base in at most one (thorough: two) choices"""
    if q:
        yield from space.deviations(space.BASES, 1)
        yield from space.product(mp=space.mp(*[m for m in MODELS if not m.endswith('D')]), ocp=[None, OC, ('bounds',), ('path_eq',)], lay=[(1, (2,)), (2, (1, 2))], scheme=space.SCHEME)
    else:
        yield from space.product(mp=space.mp(*[m for m in MODELS if not m.endswith('D')]), ocp=[None, OC, ('bounds',), ('guess', 'term'), ('path_eq',), ('path',), ('comp_rk',), ('comp_glob',)],
                                 lay=space.LAY[:6], scheme=space.SCHEME, rep=space.REP[:2], sot=['NONE', 'LOCAL'])


def run(ck):
    ck.level = 'exploration'
    items, n_cor = [], 0
    for c in bases(ck.quick):
        k = len(corruptions(c))
        n_cor += k
        items += [('corrupt', c, range(i, min(i + 40, k))) for i in range(0, k, 40)]
        if MODELS[c['model']].n_u == 0 and c['ocp'] is None:
            items.append(('loop', c, None))
    acc = list(accepted(ck.quick))
    items += [('accept', None, acc[i:i + 20]) for i in range(0, len(acc), 20)]

    def on(it, r):
        ck.evals += r[1]
        ck.nontrivial += r[1]
        for name, msg, extra in r[0]:
            d = '' if it[1] is None else f'[{describe(it[1])}] '
            if it[0] == 'accept':
                ck.violation('accept:' + name, f'[{name}] {msg}', dict(kind='c21a', cfg=extra))
            elif it[0] == 'loop':
                ck.violation(name, d + msg, dict(kind='c21l', cfg=it[1]))
            else:
                ck.violation(name, d + msg, dict(kind='c21', cfg=it[1], name=name))
    pmap(ck, task, items, on, chunk=1)
    ck.part('corruptions', base_problems=len(bases(ck.quick)), corruptions=n_cor)
    ck.part('consistent problems', number=len(acc))
    L = corruptions(bases(True)[0])
    ck.sample(dict(base=describe(bases(True)[0]), corruptions=[L[i][0] for i in range(0, len(L), max(1, len(L) // 12))]))
    ck.rules.append('Every single corruption (wrong lengths of every vector, wrong shapes of every matrix, missing and extra subsystems, wrong types of every option, wrong '
                    'elements-per-stage lists, undeclared symbols, contradictory inputs, wrong parameter rows of the simulation loop) of every base problem must raise an error by the end of the '
                    'construction with the real NLP solver factory; every listed consistent problem must be accepted.')
    ck.assumptions.append('A raised exception of any type counts as a refusal.')


def norm(c):
    c = dict(c)
    for k in ('Nfe', 'ocp', 'sot_b', 'el', 'fb'):
        if c[k] is not None:
            c[k] = tuple(c[k])
    return c


def replay(data):
    c = norm(data['cfg'])
    if data['kind'] == 'c21a':
        return [m for _, m, _ in task(('accept', None, [c]))[0]]
    if data['kind'] == 'c21l':
        return [m for _, m, _ in loop_task(c)[0]]
    L = corruptions(c)
    return [m for _, m, _ in task(('corrupt', c, [i for i, x in enumerate(L) if x[0] == data['name']]))[0]]
