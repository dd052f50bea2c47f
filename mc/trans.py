"""Build a configuration with the real code, and compare the NLP with the reference."""
import signal
import traceback
import numpy as np
import casadi as ca
from . import env
from .env import quiet
from .models import MODELS, DENSE, Ocp
from .ref import Ref, default_cfg, flat

nosnoc = env.nosnoc
K = 2
TOL = 1e-7


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout('no answer within the time limit')


def with_timeout(sec, fn, *a):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return fn(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def cfg_of(**kw):
    c = default_cfg()
    for k in kw:
        if k not in c:
            raise KeyError(k)
    c.update(kw)
    if c['ocp'] is not None:
        c['ocp'] = tuple(c['ocp'])
    c['Nfe'] = tuple(c['Nfe'])
    if c['pss'] == 'STEWART':
        c['model'] = DENSE.get(c['model'], c['model'])
    return c


def supported(c):
    """None, or the reason why the configuration is outside the supported space"""
    m = MODELS[c['model']]
    if c['pss'] not in m.pss:
        return 'PSS mode does not fit the model'
    if c['mpcc'] == 'FISCHER_BURMEISTER_IP_AUG' and c['fesd'] and c['cross'].startswith('SUM'):
        return 'FISCHER_BURMEISTER_IP_AUG refuses summed multipliers'
    if c['tf'] and m.t_var is None:
        return 'time freezing needs a clock'
    if len(c['Nfe']) != c['N']:
        return 'layout'
    if c['sot'] != 'NONE' and False:
        return ''
    return None


def make_opts(c):
    o = nosnoc.NosnocOpts()
    o.terminal_time = c['T']
    o.use_fesd = c['fesd']
    o.n_s = c['n_s']
    o.irk_scheme = nosnoc.IrkSchemes[c['scheme']]
    o.irk_representation = nosnoc.IrkRepresentation[c['rep']]
    o.pss_mode = nosnoc.PssMode[c['pss']]
    o.cross_comp_mode = nosnoc.CrossComplementarityMode[c['cross']]
    o.mpcc_mode = nosnoc.MpccMode[c['mpcc']]
    o.step_equilibration = nosnoc.StepEquilibrationMode[c['se']]
    o.step_equilibration_sigma = c['se_sigma']
    o.N_stages = c['N']
    if len(set(c['Nfe'])) == 1:
        o.N_finite_elements = c['Nfe'][0]
    else:
        o.N_finite_elements = 7
        o.Nfe_list = list(c['Nfe'])
    o.equidistant_control_grid = c['equi']
    o.g_path_at_fe = c['path_fe']
    o.g_path_at_stg = c['path_stg']
    o.speed_of_time_variables = nosnoc.SpeedOfTimeVariableMode[c['sot']]
    o.speed_of_time_min, o.speed_of_time_max = c['sot_b']
    o.time_freezing = c['tf']
    o.time_freezing_tolerance = c['tf_tol']
    o.objective_scaling_direct = c['direct']
    o.constraint_handling = nosnoc.ConstraintHandling.LEAST_SQUARES if c['lsq'] else nosnoc.ConstraintHandling.EXACT
    o.gamma_h = c['gamma']
    o.rho_h = c['rho']
    o.sigma_0 = c['sigma0']
    o.max_iter_homotopy = 1
    o.s_elastic_0, o.s_elastic_max, o.s_elastic_min = c['el']
    o.fb_ip_aug1_weight, o.fb_ip_aug2_weight = c['fb']
    o.fix_active_set_fe0, o.do_polishing_step = c['fix'], c['polish']
    o.initialization_strategy = nosnoc.InitializationStrategy[c['init']]
    return o


class Built:
    pass


def build(c):
    b = Built()
    b.cfg = c
    b.mspec = MODELS[c['model']]
    with quiet():
        b.model = b.mspec.build(c['N'])
        b.ospec = None if c['ocp'] is None else Ocp(b.mspec, c['ocp'])
        b.ocp = None if b.ospec is None else b.ospec.build()
        b.opts = make_opts(c)
        b.solver = nosnoc.NosnocSolver(b.opts, b.model, b.ocp)
        b.fake = env.last_solver()
        b.prob = b.solver.problem
    return b


def witness(b, seed=0, lo=0.35, hi=1.25):
    nw = b.fake.nlp['x'].shape[0]
    npar = b.fake.nlp['p'].shape[0]
    r = np.random.RandomState(1234 + seed)  # fixed generic witness points, not samples of a space
    W = lo + (hi - lo) * r.rand(nw, K)
    P = lo + (hi - lo) * r.rand(npar, K)
    for q in flat(b.prob.ind_bool):
        W[q, :] = 0.5
    return W, P


def nlp_values(b, W, P):
    fg = b.fake.fg()
    n = W.shape[1]
    f = np.zeros(n)
    g = np.zeros((b.fake.nlp['g'].shape[0], n))
    for k in range(n):
        a, bb = fg(W[:, k], P[:, k])
        f[k] = float(a)
        g[:, k] = bb.full().flatten()
    return f, g


def normalise(val, lb, ub):
    """representation of a row that does not depend on its sign or on a constant moved to the bounds"""
    val = np.array(val, dtype=float)
    if np.isfinite(lb) and np.isfinite(ub):
        s = 0.5 * (lb + ub)
    elif np.isfinite(ub):
        s = ub
    elif np.isfinite(lb):
        s = lb
    else:
        s = 0.0
    val, lb, ub = val - s, lb - s, ub - s
    nz = np.flatnonzero(np.abs(val) > 1e-12)
    if (np.isneginf(lb) and np.isposinf(ub)) or lb == -ub:
        if len(nz) and val[nz[0]] < 0:
            val, lb, ub = -val, -ub, -lb
    elif np.isfinite(lb) and not np.isfinite(ub):
        val, lb, ub = -val, -ub, -lb
    return np.concatenate((val, [clip(lb), clip(ub)]))


def clip(x):
    return float(np.clip(x, -1e12, 1e12))


def match(exp, act):
    """exp: list of lists of alternatives, act: list.  Returns unmatched indices and the assignment."""
    if not act or not exp:
        return list(range(len(exp))), list(range(len(act))), {}
    A = np.array(act)
    fin = np.all(np.isfinite(A), axis=1)
    edges = []
    for alts in exp:
        es = []
        for a in alts:
            d = np.max(np.abs(A - a) / np.minimum(1 + np.abs(a), 10.0), axis=1)
            es += [int(q) for q in np.flatnonzero(fin & (d < TOL)) if q not in es]
        edges.append(es)
    owner, un = {}, []
    for n in range(len(exp)):
        # a free row if there is one, otherwise rows are exchanged (rows with alternatives may have taken it)
        free = next((q for q in edges[n] if q not in owner), None)
        if free is not None:
            owner[free] = n
        elif not augment(n, edges, owner, set()):
            un.append(n)
    return un, [q for q in range(len(A)) if q not in owner], owner


def augment(n, edges, owner, seen):
    for q in edges[n]:
        if q in seen:
            continue
        seen.add(q)
        if q not in owner or augment(owner[q], edges, owner, seen):
            owner[q] = n
            return True
    return False


def compare(b):
    """list of (tags, message)"""
    c, pr = b.cfg, b.prob
    out = []
    W, P = witness(b)
    ref = Ref(c, b.mspec, b.ospec, pr, W, P).build()
    f, g = nlp_values(b, W, P)
    # the NLP solver answers with the first witness point, so that the reported cost can be compared
    b.fake.script = lambda k, rec: {'x': W[:, 0]}
    with quiet():
        res = b.solver.solve()
    call = b.fake.calls[0]
    lbg, ubg = call['lbg'], call['ubg']
    if len(lbg) != g.shape[0] or len(ubg) != g.shape[0]:
        return [(('*',), f'{g.shape[0]} constraints but {len(lbg)}/{len(ubg)} bounds')]
    act = [normalise(g[q], lbg[q], ubg[q]) for q in range(g.shape[0])]
    exp = [[normalise(v, r.lb, r.ub) for v in (r.val,) + tuple(r.alts)] for r in ref.rows]
    un, extra, owner = match(exp, act)
    tags = set()
    for n in un:
        r = ref.rows[n]
        tags |= set(r.tag)
        out.append((r.tag, f'missing constraint: {r.what} [{r.lb}, {r.ub}]'))
    if extra:
        J = ca.jacobian_sparsity(b.fake.nlp['g'], b.fake.nlp['x']) if hasattr(ca, 'jacobian_sparsity') else ca.jacobian(b.fake.nlp['g'], b.fake.nlp['x']).sparsity()
        Jp = ca.jacobian(b.fake.nlp['g'], b.fake.nlp['p']).sparsity()
        groups = index_groups(pr)
        for q in extra:
            deps = {groups.get(i, '?') for i in row_cols(J, q)}
            pdeps = row_cols(Jp, q)
            t = classify(deps, pdeps, ref, tags)
            out.append((t, f'unexpected constraint {q}: {lbg[q]} <= {str(b.fake.nlp["g"][q])[:200]} <= {ubg[q]} (depends on {sorted(deps)})'))
    # objective
    if not np.allclose(f, ref.f, rtol=TOL, atol=TOL):
        deps = objective_difference(b, W, P, f - ref.f)
        t = {'C06'}
        if deps <= {'h', 'theta', 'lam', 'alpha', 'mu', 'elastic'} and deps:
            t.add('C07')
        if 'sot' in deps:
            t.add('C26')
        out.append((tuple(t), f'objective is {f.tolist()}, expected {ref.f.tolist()} (difference depends on {sorted(deps)})'))
    fsol = float(b.fake.fg()(W[:, 0], call['p'])[0])
    if not np.isclose(float(res['cost_val']), fsol, rtol=1e-9, atol=1e-9):
        out.append((('C06',), f'reported cost_val {res["cost_val"]}, objective of the solution is {fsol}'))
    from .results import decode
    out += decode(c, pr, W[:, 0], res, np.array(b.mspec.x0, dtype=float))
    # stopping residual
    comp = [float(pr.comp_res(W[:, k], P[:, k])) for k in range(K)]
    rc = ref.comp_residual()
    if not np.allclose(comp, rc, rtol=TOL, atol=TOL):
        out.append((('C03',), f'complementarity residual is {comp}, expected {rc.tolist()}'))
    if not out:
        out += extremes(b, owner, lbg, ubg)
    # boolean variables
    if c['mpcc'] == 'BOOLEAN':
        nb = flat(pr.ind_bool)
        if len(nb) != ref.nbool or len(set(nb)) != len(nb):
            out.append((('C03',), f'{len(nb)} boolean variables, expected {ref.nbool}'))
        else:
            J = ca.jacobian(b.fake.nlp['g'], b.fake.nlp['x']).sparsity()
            cnt = np.bincount(J.get_triplet()[1], minlength=len(W))
            bad = [q for q in nb if cnt[q] != 4]
            if bad:
                out.append((('C03',), f'boolean variable {bad[0]} enters {cnt[bad[0]]} constraints, expected 4'))
    # bounds and guess
    Bd = ref.bounds()
    lbx, ubx, x0 = call['lbx'], call['ubx'], call['x0']
    nw = len(W)
    if not (len(lbx) == len(ubx) == len(x0) == nw):
        out.append((('*',), f'{nw} variables, {len(lbx)} lower bounds, {len(ubx)} upper bounds, {len(x0)} guesses'))
        return out
    for q in range(nw):
        e = Bd.get(q)
        if e is None or len(e) != 1:
            out.append((('C14', 'C05'), f'w[{q}] is claimed by {[x[4] for x in e or []]}'))
            continue
        lb, ub, w0, tag, what = e[0]
        t = (tag,) if 'lambda' not in what and 'theta' not in what and 'alpha' not in what else (tag, 'C03')
        if lb == 0.0 and lbx[q] > 0 or not close(lbx[q], lb) or not close(ubx[q], ub):
            out.append((t, f'bounds of {what} are [{lbx[q]}, {ubx[q]}], expected [{lb}, {ub}]'))
        if not close(x0[q], w0):
            out.append(((tag, 'C17'), f'guess of {what} is {x0[q]}, expected {w0}'))
    if set(Bd) - set(range(nw)):
        out.append((('C14',), f'index out of range: {sorted(set(Bd) - set(range(nw)))[:5]}'))
    return out


def extremes(b, owner, lbg, ubg):
    """the rows that agree at the witness points agree at points far away as well: one with tiny multipliers and
    relaxation parameters, one with values of either sign and large relaxation parameters"""
    c, pr = b.cfg, b.prob
    W, P = witness(b)
    o = (b.mspec.n_pt + b.mspec.n_pg) * c['N']
    mult = [q for nm in ('ind_theta', 'ind_alpha', 'ind_lam', 'ind_lambda_n', 'ind_lambda_p', 'ind_elastic') for q in flat(getattr(pr, nm))]
    W, P = W.copy(), P.copy()
    W[mult, 0] *= 1e-6
    P[o:o + 2, 0] = 3e-12, 2e-18
    W[:, 1] = 3.0 * np.cos(1.0 + 2.4 * np.arange(len(W))) + 0.1
    P[o:o + 2, 1] = 37.0, 51.0
    W[flat(pr.ind_bool), :] = 0.5
    with np.errstate(all='ignore'):
        ref = Ref(c, b.mspec, b.ospec, pr, W, P).build()
        rc = ref.comp_residual()
    f, g = nlp_values(b, W, P)
    out = []

    def differ(a, e, k):
        if not np.isfinite(e) or abs(e) > 1e11:
            return False
        if not np.isfinite(a):
            return True
        return abs(a - e) > (1e-6 * abs(e) + 1e-14 if k == 0 else 1e-7 * (1 + abs(e)))

    for q, n in owner.items():
        r = ref.rows[n]
        for k in range(2):
            ok = False
            for v in (r.val,) + tuple(r.alts):
                e0 = normalise([float(np.broadcast_to(v, (2,))[k])], r.lb, r.ub)
                a0 = normalise([g[q, k]], lbg[q], ubg[q])
                ok = ok or not differ(a0[0], e0[0], k) or (e0[1] == -e0[2] and not differ(-a0[0], e0[0], k))
            if not ok:
                out.append((r.tag, f'constraint {r.what} is {a0[0]} at {("tiny", "large")[k]} values of multipliers and relaxation parameters, expected {e0[0]}'))
                break
        if len(out) > 3:
            break
    for k in range(2):
        e = float(np.broadcast_to(ref.f, (2,))[k])
        if differ(f[k], e, 1):
            out.append((('C06', 'C07') if k else ('C06',), f'objective is {f[k]} at {("tiny", "large")[k]} values of multipliers and relaxation parameters, expected {e}'))
        a, e = float(pr.comp_res(W[:, k], P[:, k])), float(np.broadcast_to(rc, (2,))[k])
        if differ(a, e, k):
            out.append((('C03',), f'complementarity residual is {a} at {("tiny", "large")[k]} values of multipliers, expected {e}'))
    return out


def close(a, b):
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def row_cols(sp, q):
    r, cc = sp.get_triplet()
    return [j for i, j in zip(r, cc) if i == q]


def index_groups(pr):
    out = {}
    for nm, attr in (('x', 'ind_x'), ('v', 'ind_v'), ('z', 'ind_z'), ('theta', 'ind_theta'), ('lam', 'ind_lam'),
                     ('mu', 'ind_mu'), ('alpha', 'ind_alpha'), ('lam', 'ind_lambda_n'), ('lam', 'ind_lambda_p'),
                     ('u', 'ind_u'), ('h', 'ind_h'), ('sot', 'ind_sot'), ('vg', 'ind_v_global'), ('elastic', 'ind_elastic'),
                     ('bool', 'ind_bool')):
        for q in flat(getattr(pr, attr)):
            out.setdefault(q, nm)
    return out


def classify(deps, pdeps, ref, missing_tags):
    """property an unexpected row belongs to.  If something is missing, it is most likely the same."""
    o = ref.npar * ref.N
    mult = deps & {'theta', 'lam', 'alpha'}
    if 'bool' in deps or 'elastic' in deps or (o in pdeps or o + 1 in pdeps):
        t = {'C07'} if 'h' in deps and 'x' not in deps and len([1 for d in deps if d == 'h']) else {'C03'}
        t |= {'C08'} if deps & {'x', 'u', 'z', 'vg'} or not mult else set()
    elif deps and deps <= {'h'}:
        t = {'C04'}
    elif 'h' in deps and mult and not deps & {'x', 'v'}:
        t = {'C07'}
    elif deps & {'h', 'v'}:
        t = {'C01'}
    elif deps & {'theta', 'lam', 'mu', 'alpha'}:
        t = {'C02'}
    else:
        t = {'C05', 'C26', 'C02'}
    return tuple(t | missing_tags) if missing_tags else tuple(t)


def objective_difference(b, W, P, diff):
    """groups of variables the difference between actual and expected objective depends on"""
    c, pr = b.cfg, b.prob
    groups = index_groups(pr)
    byg = {}
    for q, nm in groups.items():
        byg.setdefault(nm, []).append(q)
    deps = set()
    r = np.random.RandomState(77)
    for nm, idx in byg.items():
        W2 = W.copy()
        W2[idx, :] = 0.4 + 0.7 * r.rand(len(idx), K)
        ref = Ref(c, b.mspec, b.ospec, pr, W2, P).build()
        f, _ = nlp_values(b, W2, P)
        if not np.allclose(f - ref.f, diff, rtol=1e-6, atol=1e-6):
            deps.add(nm)
    return deps


def check_cfg(c, limit=20.0):
    """violations (list of (tags, message)) of one configuration"""
    try:
        return with_timeout(limit, lambda: compare(build(c)))
    except Timeout as e:
        return [(('*',), f'timeout: {e}')]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{f.filename.split("/")[-1]}:{f.lineno}' for f in tb][-3:]
        return [(('*',), f'{type(e).__name__}: {str(e)[:300]} at {where}')]
