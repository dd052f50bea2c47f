"""Environment of the code under test: a controllable NLP solver in place of casadi.nlpsol.

The only nondeterminism of nosnoc is the answer of the NLP solver.  `casadi.nlpsol` is replaced,
before nosnoc is imported, by a factory of `FakeSolver`s that record what they are given and answer
according to a script.  `real_nlpsol()` gives the genuine one back (used by C23 only).
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')

import warnings
warnings.filterwarnings('ignore')
import numpy as np
import casadi as ca

_REAL = ca.nlpsol
_state = {'mode': 'fake', 'last': None, 'all': []}


class FakeSolver:
    """Records the NLP and every call.  `script` maps (call number, kwargs) to the answer."""

    def __init__(self, name, plugin, nlp, opts):
        self.name, self.plugin, self.nlp, self.opts = name, plugin, nlp, opts
        self.calls = []
        self.script = None
        self._fg = None
        self._stats = {}

    def fg(self):
        if self._fg is None:
            n = self.nlp
            self._fg = ca.Function('fg', [n['x'], n['p']], [n['f'], n['g']])
        return self._fg

    def __call__(self, *args, **kw):
        rec = dict(zip(('x0', 'p', 'lbx', 'ubx', 'lbg', 'ubg', 'lam_x0', 'lam_g0'), args))
        rec.update(kw)
        n = self.nlp
        for key, sym, default in (('x0', 'x', 0.0), ('p', 'p', 0.0), ('lbx', 'x', -np.inf), ('ubx', 'x', np.inf),
                                  ('lbg', 'g', -np.inf), ('ubg', 'g', np.inf)):
            rec.setdefault(key, default)
            v = rec[key]
            v = np.array(v if isinstance(v, np.ndarray) else ca.DM(v).full(), dtype=float).flatten()
            m = n[sym].shape[0] if sym in n else 0
            rec[key] = np.full(m, v[0]) if v.size == 1 and m != 1 else v
            if rec[key].size != m:
                raise RuntimeError(f'{key} has {rec[key].size} entries, expected {m}')
        k = len(self.calls)
        self.calls.append(rec)
        ans = self.script(k, rec) if self.script else {}
        x = np.array(ans.get('x', rec['x0']), dtype=float)
        f, g = self.fg()(x, rec['p'])
        self._stats = {'t_proc_total': ans.get('t', 0.5 + k), 't_wall_total': 0.25 + k,
                       'return_status': ans.get('status', 'Solve_Succeeded'),
                       'success': ans.get('status', 'Solve_Succeeded') in ('Solve_Succeeded', 'Solved_To_Acceptable_Level'),
                       'iter_count': ans.get('iter', 10 + k), 'unified_return_status': ''}
        return {'x': ca.DM(x), 'f': f, 'g': g, 'lam_x': ca.DM.zeros(len(x)), 'lam_g': ca.DM.zeros(g.shape[0]),
                'lam_p': ca.DM.zeros(len(rec['p']))}

    def call(self, args):
        return self(**args) if isinstance(args, dict) else list(self(*args).values())

    def stats(self):
        return dict(self._stats)


def _nlpsol(name, plugin, nlp, opts=None, *a, **k):
    if _state['mode'] == 'real':
        return _REAL(name, plugin, nlp, opts if opts is not None else {})
    s = FakeSolver(name, plugin, nlp, opts)
    _state['last'] = s
    _state['all'].append(s)
    del _state['all'][:-4]
    return s


ca.nlpsol = _nlpsol


class real_nlpsol:
    def __enter__(self):
        _state['mode'] = 'real'

    def __exit__(self, *a):
        _state['mode'] = 'fake'


def last_solver():
    return _state['last']


import contextlib
import io


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


import nosnoc  # noqa: E402

if not os.path.abspath(nosnoc.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError(f'nosnoc imported from {nosnoc.__file__}, not from {REPO}')

warnings.showwarning = lambda *a, **k: None
