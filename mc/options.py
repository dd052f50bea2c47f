"""C30: every history of option assignments and constructions against a model of the options object."""
import itertools
import numpy as np
from . import env
from .driver import pmap
from .models import MODELS
from .trans import with_timeout
from .transcheck import vkey

nosnoc = env.nosnoc
OPS = [('comp_tol', 1e-4), ('comp_tol', 3e-7), ('sigma_0', 10.0), ('sigma_0', 0.3), ('homotopy_update_slope', 0.2), ('homotopy_update_slope', 0.5), ('sigma_N', 2.3e-3),
       ('homotopy_update_rule', 'SUPERLINEAR'), ('homotopy_update_rule', 'LINEAR'), ('tol_ipopt', 5e-6), ('nlp_max_iter', 9), ('entry', ('ipopt', 'linear_solver', 'mumps')),
       ('entry', (None, 'print_time', 1)), ('max_iter_homotopy', 3), ('max_iter_homotopy', 0), ('N_stages', 2), ('N_finite_elements', 3), ('Nfe_list', (1, 2)),
       ('do_polishing_step', True), ('do_polishing_step', False), ('build', None)]
DEFAULT = dict(comp_tol=1e-8, sigma_0=1.0, homotopy_update_slope=0.1, sigma_N=1e-8, homotopy_update_rule='LINEAR', homotopy_update_exponent=1.5, max_iter_homotopy=0,
               N_stages=1, N_finite_elements=2, Nfe_list=None, do_polishing_step=False, tol_ipopt=None)
TOLS = ('tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target')


def solver_defaults():
    return {'print_time': 0, 'verbose': False, 'record_time': True,
            'ipopt': {'sb': 'yes', 'max_iter': 500, 'print_level': 0, 'bound_relax_factor': 0, 'mu_strategy': 'adaptive', 'mu_oracle': 'quality-function'}}


class Model:
    """what the user assigned so far"""

    def __init__(self):
        self.o = dict(DEFAULT)
        self.nlp = solver_defaults()

    def assign(self, k, v):
        if k == 'entry':
            (self.nlp if v[0] is None else self.nlp[v[0]])[v[1]] = v[2]
        elif k == 'nlp_max_iter':
            self.nlp['ipopt']['max_iter'] = v
        else:
            self.o[k] = v

    def valid(self):
        return self.o['Nfe_list'] is None or len(self.o['Nfe_list']) == self.o['N_stages']

    def elements(self):
        return list(self.o['Nfe_list']) if self.o['Nfe_list'] is not None else [self.o['N_finite_elements']] * self.o['N_stages']

    def solver_options(self):
        e = {k: dict(v) if isinstance(v, dict) else v for k, v in self.nlp.items()}
        tol = self.o['tol_ipopt'] if self.o['tol_ipopt'] is not None else self.o['comp_tol'] * 1e-2
        e['ipopt'].update({k: tol for k in TOLS})
        return e

    def limit(self):
        o = self.o
        if o['max_iter_homotopy'] > 0:
            return o['max_iter_homotopy']
        n, s = 1, o['sigma_0']
        while s > o['comp_tol'] * (1 + 1e-5):
            s *= o['homotopy_update_slope']
            n += 1
        return n

    def sigmas(self):
        """relaxation parameters when no iterate is complementary"""
        o, s, out = self.o, self.o['sigma_0'], []
        for _ in range(self.limit()):
            out.append(s)
            if s <= o['sigma_N'] * (1 + 1e-9):
                break
            s2 = s * o['homotopy_update_slope']
            s = s2 if o['homotopy_update_rule'] == 'LINEAR' else max(o['sigma_N'], min(s2, s ** o['homotopy_update_exponent']))
        return out + ([0.0] if o['do_polishing_step'] else [])


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return 'structure'
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f'{k} is not passed'
            if k not in b:
                return f'{k} = {a[k]} is passed'
            d = same(a[k], b[k])
            if d:
                return f'{k}: {d}'
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * abs(b):
        return None
    return None if a == b else f'{a} is passed instead of {b}'


def construct(mo, opts):
    """builds a problem, lets the homotopy run to its end; [messages], built"""
    mspec = MODELS['Plain']
    try:
        with env.quiet():
            m = mspec.build(mo.o['N_stages'])
            sol = nosnoc.NosnocSolver(opts, m)
    except Exception as e:
        return ([f'construction is refused: {type(e).__name__}: {str(e)[:150]}'] if mo.valid() else []), False
    if not mo.valid():
        return ['a list of elements per stage of the wrong length is accepted'], False
    fake = env.last_solver()
    out = []
    if fake.plugin != 'ipopt':
        out.append(f'NLP solver is {fake.plugin}')
    d = same(fake.opts, mo.solver_options())
    if d:
        out.append(f'NLP solver options: {d}')
    got = [len(st) for st in sol.problem.ind_x]
    if got != mo.elements():
        out.append(f'{got} finite elements per stage, expected {mo.elements()}')
    fake.script = lambda k, rec: {'x': 0.41 + 0.003 * (np.arange(len(rec['x0'])) % 50)}
    with env.quiet():
        sol.solve()
    n_p = 0     # Plain has no parameters: sigma is the first
    seen = [float(c['p'][n_p]) for c in fake.calls]
    want = mo.sigmas()
    if len(seen) != len(want) or not np.allclose(seen, want, rtol=1e-9, atol=0):
        out.append(f'homotopy parameters {seen}, expected {want}')
    return out, True


def task(words):
    out, states, tr, n = [], set(), 0, 0
    for word in words:
        mo, opts = Model(), nosnoc.NosnocOpts()
        hist = []
        for k, v in list(word) + [('build', None)]:
            hist.append(k if v is None else f'{k}={v}')
            tr += 1
            if k == 'build':
                n += 1
                msgs, ok = construct(mo, opts)
                if msgs:
                    out.append((word, f'{hist}: ' + ' ; '.join(msgs)))
                    break
                if not ok:
                    break
            else:
                mo.assign(k, v)
                if k == 'entry':
                    (opts.opts_casadi_nlp if v[0] is None else opts.opts_casadi_nlp[v[0]])[v[1]] = v[2]
                elif k == 'homotopy_update_rule':
                    setattr(opts, k, nosnoc.HomotopyUpdateRule[v])
                else:
                    setattr(opts, k, list(v) if isinstance(v, tuple) else v)
            states.add(repr((sorted(mo.o.items()), mo.nlp)))
        if len(out) > 1:
            break
    return out, states, tr, n


def _task(words):
    try:
        return with_timeout(600.0, task, words)
    except Exception as e:
        return [(words[0], f'{type(e).__name__}: {e}')], set(), 0, 0


def plan(q):
    words = [()]
    for d in range(1, 4 if q else 5):
        for wd in itertools.product(OPS, repeat=d):
            if any(a[0] == b[0] for a, b in zip(wd, wd[1:])) or wd[-1][0] == 'build':
                continue        # the second assignment of a pair decides; building twice is covered by the final build of shorter words
            if d == 4 and not any(a[0] == 'build' for a in wd[1:3]):
                continue        # longer words only with a construction in between
            words.append(wd)
    for i in range(0, len(words), 60):
        yield words[i:i + 60]


def run(ck):
    ck.level = 'model_checking'
    st = set()

    def on(it, r):
        msgs, states, tr, n = r
        st.update(states)
        ck.transitions += tr
        ck.traces += n
        for word, m in msgs[:1]:
            ck.violation(vkey('C30', m.split(': ', 1)[-1]), m, dict(kind='c30', word=word))
        if len(it) == 60 and len(it[-1]) > 2:
            ck.sample([f'{k}={v}' if v is not None else k for k, v in it[-1]] + ['build'])
    pmap(ck, _task, list(plan(ck.quick)), on, chunk=1)
    ck.states += len(st)
    ck.part('bounds', operations=len(OPS), depth=3 if ck.quick else 4)
    ck.rules.append('Model: the options object as the record of what the user assigned; states are the reachable records, transitions the assignments and constructions. '
                    'Every word of operations up to the bounded length, ended by a construction, is executed on the real code; at every construction the options passed '
                    'to the NLP solver, the number of elements per stage and the complete sequence of homotopy parameters (with an NLP solver that never answers '
                    'with a complementary point) are compared with the model.')


def replay(data):
    word = tuple((k, tuple(tuple(x) if isinstance(x, list) else x for x in v) if isinstance(v, list) else v) for k, v in data['word'])
    return [m for _, m in task([word])[0]]
