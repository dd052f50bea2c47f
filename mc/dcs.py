"""C10 / C11: the complementarity system inside the NLP against the geometry of the regions.

A specification is a list of subsystems, each given by a switching matrix S (all dense sign matrices up to row order, all
partitions of the sign cube into subcubes), by Stewart functions (all weak orderings of their values) or by a general inclusion.
For every sign/magnitude pattern of the switching functions and every active set of multipliers the equality constraints of the NLP
are solved for the remaining multipliers and the complete NLP (bounds, equalities, complementarity at zero relaxation) decides
whether that active set is feasible."""
import itertools
from functools import lru_cache
import numpy as np
import casadi as ca
from . import env
from .driver import pmap
from .ref import flat

nosnoc = env.nosnoc
TOL = 1e-8


# --- specifications ------------------------------------------------------------------------------
@lru_cache(None)
def partitions(n):
    """all partitions of the sign cube {-1,1}^n into at least two subcubes, as tuples of rows"""
    verts = list(itertools.product((1, -1), repeat=n))
    faces = [f for f in itertools.product((1, -1, 0), repeat=n)]
    cover = {f: frozenset(v for v in verts if all(a == 0 or a == b for a, b in zip(f, v))) for f in faces}
    out = []

    def rec(done, left):
        if not left:
            if len(done) > 1:
                out.append(tuple(done))
            return
        v = min(left, key=verts.index)
        for f in faces:
            if v in cover[f] and cover[f] <= left:
                rec(done + [f], left - cover[f])
    rec([], frozenset(verts))
    return out


def dense(n):
    return tuple(itertools.product((1, -1), repeat=n))


def specs(q):
    """(pss, systems): a system is ('S', rows), ('g', n_f) or ('i', n_c)"""
    for pss in ('STEWART', 'STEP'):
        for n in (1, 2):
            for perm in itertools.permutations(dense(n)):
                yield pss, (('S', perm),)
        for r in (2, 3):
            for sub in itertools.combinations(dense(2), r):
                yield pss, (('S', sub),)
        d3 = dense(3)
        for k in range(0, 8, 4 if q else 1):
            yield pss, (('S', d3[k:] + d3[:k]),)
            yield pss, (('S', tuple(reversed(d3[k:] + d3[:k]))),)
        if not q:
            for k in range(1, 8):
                yield pss, (('S', d3[:k] + d3[k + 1:]),)
        a, b = (('S', ((1,), (-1,)))), ('S', ((-1,), (1,)))
        d = ('S', dense(2))
        e = ('S', tuple(reversed(dense(2))))
        for ss in [(a, b), (b, b), (a, d), (e, b), (a, b, a)] + ([] if q else [(b, d, a), (d, e), (a, a, b, b)]):
            yield pss, ss
    for p in partitions(2):
        for perm in itertools.permutations(p):
            yield 'STEP', (('S', perm),)
    for p in partitions(3):
        if q and len(p) > 6:
            continue
        yield 'STEP', (('S', p),)
        if not q:
            yield 'STEP', (('S', tuple(reversed(p))),)
            yield 'STEP', (('S', p[1:] + p[:1]),)
    for p in partitions(2):
        for ss in [(a, ('S', p)), (('S', p), a)] + ([] if q else [(('S', p), e)]):
            yield 'STEP', ss
    for n in (2, 3, 4):
        yield 'STEWART', (('g', n),)
    for ss in [(2, 2), (2, 3), (3, 2)] + ([] if q else [(2, 4), (4, 2), (2, 2, 2), (3, 3)]):
        yield 'STEWART', tuple(('g', k) for k in ss)
    for ss in [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1)] + ([] if q else [(1, 1, 1), (2, 2), (3, 1)]):
        yield 'STEP', tuple(('i', k) for k in ss)


def n_sw(s):
    """number of switching functions"""
    return len(s[1][0]) if s[0] == 'S' else s[1]


def n_mult(s, pss):
    return len(s[1]) if s[0] == 'S' and pss == 'STEWART' else n_sw(s)


def offs(k):
    return 0.3 * np.cos(1.0 + k)


def coef(k):
    return 0.6 + 0.15 * (k % 4)


def field(s, j, nx):
    """constant and linear part of the vector field of region j of system s"""
    i = np.arange(nx)
    a = np.sin(1.3 + 2.1 * s + 0.9 * j + 1.7 * i) + 0.2 * j
    d = 0.4 * np.cos(0.5 + 0.7 * s + 1.1 * j + 0.3 * i)
    return a, d


class Spec:
    def __init__(self, pss, systems):
        self.pss, self.systems = pss, systems
        self.ns = [n_sw(s) for s in systems]
        self.nx = sum(self.ns) + 1
        self.first = np.concatenate([[0], np.cumsum(self.ns)]).astype(int)

    def build(self, x0, fesd=False, nfe=1, n_s=1, scheme='RADAU_IIA', cross=None, T=0.7):
        nx, n = self.nx, self.ns
        x = ca.SX.sym('x', nx)
        sw = [ca.vertcat(*[coef(self.first[s] + k) * (x[int(self.first[s] + k)] - offs(self.first[s] + k)) for k in range(n[s])]) for s in range(len(n))]
        kw = dict(x=x, x0=np.array(x0, dtype=float))
        F = []
        for s, sy in enumerate(self.systems):
            if sy[0] == 'i':
                continue
            nf = len(sy[1]) if sy[0] == 'S' else sy[1]
            F.append(ca.horzcat(*[ca.DM(field(s, j, nx)[0]) + ca.DM(field(s, j, nx)[1]) * x for j in range(nf)]))
        if self.systems[0][0] == 'i':
            al = [ca.SX.sym(f'al{s}', n[s]) for s in range(len(n))]
            kw.update(c=sw, alpha=al, f_x=[self.incl(x, al)] if len(n) == 1 else self.split(x, al))
        elif self.systems[0][0] == 'g':
            kw.update(F=F, g_Stewart=sw)
        else:
            kw.update(F=F, c=sw, S=[np.array(s[1]) for s in self.systems])
        o = nosnoc.NosnocOpts()
        o.terminal_time, o.N_stages, o.N_finite_elements, o.n_s = T, 1, nfe, n_s
        o.use_fesd = fesd
        o.irk_scheme = nosnoc.IrkSchemes[scheme]
        o.irk_representation = nosnoc.IrkRepresentation.INTEGRAL
        o.pss_mode = nosnoc.PssMode[self.pss]
        o.mpcc_mode = nosnoc.MpccMode.SCHOLTES_INEQ
        if cross:
            o.cross_comp_mode = nosnoc.CrossComplementarityMode[cross]
        o.max_iter_homotopy = 0
        with env.quiet():
            self.solver = nosnoc.NosnocSolver(o, nosnoc.NosnocModel(**kw))
        self.fake = env.last_solver()
        self.pr = self.solver.problem
        return self

    # right-hand side of a general inclusion: multi-affine in alpha, with products across systems
    def incl_parts(self, x, al):
        nx = self.nx
        A = [al[s][k] for s in range(len(self.ns)) for k in range(self.ns[s])]
        out = []
        for i in range(nx):
            r = 0.3 * np.sin(i + 1.0) + 0.2 * x[i]
            for k, a in enumerate(A):
                r = r + (0.7 + 0.3 * k - 0.21 * i) * a
            for k in range(len(A) - 1):
                r = r + (0.4 - 0.15 * k + 0.1 * i) * A[k] * A[k + 1]
            out.append(r)
        return out

    def incl(self, x, al):
        return ca.vertcat(*self.incl_parts(x, al))

    def split(self, x, al):
        p = self.incl_parts(x, al)
        m = len(self.ns)
        cut = [round(i * self.nx / m) for i in range(m + 1)]
        return [ca.vertcat(*p[cut[i]:cut[i + 1]]) for i in range(m)]

    # --- reference -----------------------------------------------------------------------------
    def state(self, c):
        """state in which the switching functions have the values c"""
        return np.array([v / coef(k) + offs(k) for k, v in enumerate(c)] + [0.37])

    def adjacent(self, s, c):
        """regions of system s that touch the point with switching values c"""
        sy = self.systems[s]
        if sy[0] == 'g':
            return [j for j in range(len(c)) if c[j] <= min(c) + 1e-12]
        return [j for j, row in enumerate(sy[1]) if all(a == 0 or v == 0 or a * v > 0 for a, v in zip(row, c))]

    def rhs(self, x, mult):
        if self.systems[0][0] == 'i':
            return np.array([float(v) for v in self.incl_parts(x, mult)])
        tot = np.zeros(self.nx)
        for s, sy in enumerate(self.systems):
            if self.pss == 'STEWART':
                wgt = mult[s]
            else:
                wgt = []
                for row in sy[1]:
                    t = 1.0
                    for k, a in enumerate(row):
                        t *= mult[s][k] if a == 1 else (1 - mult[s][k]) if a == -1 else 1.0
                    wgt.append(t)
            for j, t in enumerate(wgt):
                a, d = field(s, j, self.nx)
                tot = tot + t * (a + d * x)
        return tot

    def split_c(self, c):
        return [tuple(c[self.first[s]:self.first[s + 1]]) for s in range(len(self.ns))]

    def admissible(self, c, pat):
        """pat: per system the support (Stewart) or the values of alpha (Step)"""
        for s, cs in enumerate(self.split_c(c)):
            if self.pss == 'STEWART':
                if not set(pat[s]) <= set(self.adjacent(s, cs)):
                    return False
            elif not all((v == 0) or (a == 1 and v > 0) or (a == 0 and v < 0) for v, a in zip(cs, pat[s])):
                return False
        return True

    def covered(self, c):
        return self.systems[0][0] == 'i' or self.pss == 'STEP' or all(self.adjacent(s, cs) for s, cs in enumerate(self.split_c(c)))

    def patterns(self):
        per = []
        for s, sy in enumerate(self.systems):
            m = n_mult(sy, self.pss)
            if self.pss == 'STEWART':
                per.append([t for r in range(1, m + 1) for t in itertools.combinations(range(m), r)])
            else:
                per.append(list(itertools.product((0.0, 1.0, 0.35), repeat=m)))
        return itertools.product(*per)

    def mult(self, pat):
        """values of theta / alpha of a pattern; unequal weights"""
        out = []
        for s, p in enumerate(pat):
            if self.pss == 'STEP':
                out.append(np.array(p))
                continue
            v = np.zeros(n_mult(self.systems[s], self.pss))
            w = np.array([1.0 + 0.5 * k for k in range(len(p))])
            v[list(p)] = w / w.sum()
            out.append(v)
        return out

    def signs(self, levels):
        n = sum(self.ns)
        for c in itertools.product(levels, repeat=n):
            yield c


# --- the NLP as an oracle --------------------------------------------------------------------------
class Oracle:
    """feasibility of one element of the NLP without FESD"""

    def __init__(self, sp):
        self.sp = sp
        f, pr = sp.fake, sp.pr
        w, p, g = f.nlp['x'], f.nlp['p'], f.nlp['g']
        self.nw, self.np_ = w.shape[0], p.shape[0]
        self.fun = ca.Function('g', [w, p], [g, ca.jacobian(g, w), ca.jacobian(g, p)])
        self.lbg, self.ubg = np.array(pr.lbg, dtype=float), np.array(pr.ubg, dtype=float)
        self.lbw, self.ubw = np.array(pr.lbw, dtype=float), np.array(pr.ubw, dtype=float)
        self.ix = list(pr.ind_x[0][0][0]) if not isinstance(pr.ind_x[0][0][0], (int, np.integer)) else list(pr.ind_x[0][0])
        pick = lambda ind: [flat(q) for q in ind[0][0][0]]
        if sp.pss == 'STEWART':
            self.ith, self.il, self.imu = pick(pr.ind_theta), pick(pr.ind_lam), flat(pr.ind_mu[0][0][0])
        else:
            self.ith, self.iln, self.ilp = pick(pr.ind_alpha), pick(pr.ind_lambda_n), pick(pr.ind_lambda_p)
        self.px0 = list(range(self.np_ - sp.nx, self.np_))
        p0 = np.zeros(self.np_)
        p0[self.px0] = 0.31
        w0 = 0.21 + 0.013 * np.arange(self.nw)
        _, _, jp = [np.array(q) for q in self.fun(w0, p0)]
        self.dyn = np.where(np.abs(jp[:, self.px0]).max(1) > 1e-12)[0] if len(jp) else []
        self.dx0 = jp[np.ix_(self.dyn, self.px0)]
        eq = np.where(self.lbg == self.ubg)[0]
        self.eq = np.array([i for i in eq if i not in set(self.dyn)], dtype=int)

    def solve(self, c, pat):
        """(feasible, unique, vector field, full multipliers)"""
        sp = self.sp
        x = sp.state(c)
        w = np.zeros(self.nw)
        w[self.ix] = x
        mult = sp.mult(pat)
        free = []
        for s in range(len(sp.ns)):
            w[self.ith[s]] = mult[s]
            if sp.pss == 'STEWART':
                free += [q for j, q in enumerate(self.il[s]) if j not in pat[s]]
            else:
                free += [q for q, a in zip(self.iln[s], pat[s]) if a == 0.0]
                free += [q for q, a in zip(self.ilp[s], pat[s]) if a == 1.0]
        if sp.pss == 'STEWART':
            free += self.imu
        p = np.zeros(self.np_)
        p[self.px0] = x
        g, J, _ = [np.array(q) for q in self.fun(w, p)]
        g = g.flatten()
        A = J[np.ix_(self.eq, free)]
        unique = True
        if free:
            sol, _, rank, _ = np.linalg.lstsq(A, -g[self.eq], rcond=None)
            unique = rank == len(free)
            w[free] = sol
        # initial state that makes the element's dynamics hold
        if len(self.dyn) != sp.nx:
            raise ValueError(f'{len(self.dyn)} constraints depend on the initial state instead of {sp.nx}')
        g = np.array(self.fun(w, p)[0]).flatten()
        p[self.px0] = x - np.linalg.solve(self.dx0, g[self.dyn])
        f = (x - p[self.px0]) / 0.7
        g = np.array(self.fun(w, p)[0]).flatten()
        bad = max([0.0] + list(np.maximum(self.lbg - g, g - self.ubg)) + list(np.maximum(self.lbw - w, w - self.ubw)))
        return bad <= TOL, unique, f, bad


def levels(sp, q):
    n = sum(sp.ns)
    if n <= 2:
        return (-2.0, -0.5, 0.0, 0.5, 2.0)
    if q or n > 3:
        return (-0.4, 0.0, 0.7)
    return (-2.0, -0.4, 0.0, 0.7)


def check_spec(item):
    (pss, systems), q = item
    sp = Spec(pss, systems)
    out, n, sol = [], 0, 0
    try:
        sp.build(sp.state([0.5] * sum(sp.ns)))
        orc = Oracle(sp)
    except Exception as e:
        return [(None, None, f'{type(e).__name__}: {e}')], 0, 0
    pats = list(sp.patterns())
    for c in sp.signs(levels(sp, q)):
        if not sp.covered(c):
            continue
        for pat in pats:
            n += 1
            try:
                ok, uniq, f, bad = orc.solve(c, pat)
            except Exception as e:
                return out + [(c, pat, f'{type(e).__name__}: {e}')], n, sol
            want = sp.admissible(c, pat)
            if ok != want:
                out.append((c, pat, f'multipliers supported on {pat} are {"feasible" if ok else f"infeasible (by {bad:.3g})"} although the point '
                            f'{"is" if want else "is not"} in or at the boundary of these regions'))
            elif ok:
                sol += 1
                ref = sp.rhs(sp.state(c), sp.mult(pat))
                if np.abs(f - ref).max() > 1e-7:
                    out.append((c, pat, f'vector field {f.tolist()} instead of {ref.tolist()}'))
                elif not uniq:
                    out.append((c, pat, 'the switching multipliers are not unique'))
            if len(out) > 2:
                return out, n, sol
    return out, n, sol


def dname(sp):
    pss, systems = sp
    return f'{pss} ' + ' x '.join(f'S={[list(r) for r in s[1]]}' if s[0] == 'S' else f'{s[1]} Stewart functions' if s[0] == 'g' else f'inclusion with {s[1]} steps'
                                  for s in systems)


def uniq_specs(q):
    seen = set()
    for s in specs(q):
        if s not in seen:
            seen.add(s)
            yield s


def run(ck):
    ck.level = 'exploration'
    items = [(s, ck.quick) for s in uniq_specs(ck.quick)]
    items.sort(key=lambda it: -sum(n_sw(s) for s in it[0][1]))
    tot = dict(sol=0)

    def on(it, r):
        out, n, sol = r
        ck.evals += n
        tot['sol'] += sol
        ck.nontrivial += sol
        if len(ck.samples) < 3 and sol:
            ck.sample(dict(spec=dname(it[0]), points_times_active_sets=n, feasible=sol))
        for c, pat, msg in out[:1]:
            ck.violation(f'{dname(it[0])}', f'{dname(it[0])}, switching values {c}: {msg}', dict(kind='c10', spec=it[0], quick=ck.quick, c=c, pat=pat))
    done = pmap(ck, check_spec, items, on, chunk=4)
    ck.part('specifications', number=done, of=len(items), feasible=tot['sol'])
    ck.rules.append('All listed switching specifications (every row order of the dense sign matrices up to two switching functions, all partitions of the sign cube '
                    'into subcubes, Stewart functions, general inclusions, products of subsystems) times all sign/magnitude patterns of the switching functions '
                    'times all active sets of the multipliers; distinct_nontrivial counts the feasible ones, whose vector field is compared.')
    ck.assumptions.append('Within one active set the complementarity system is affine, so one point per sign pattern and active set decides it; '
                          'the dependence on controls, parameters and algebraic states is decided by C01/C02.')


# --- C11 -------------------------------------------------------------------------------------------
class Slots:
    """which parameter multiplies which convex multiplier of the first element (read off the NLP)"""

    def __init__(self, fake, pr, pss, first, n):
        """first, n: position and number of the initial multipliers in the parameter vector"""
        w, p, g = fake.nlp['x'], fake.nlp['p'], fake.nlp['g']
        sl = list(range(first, first + n))
        psym = ca.vertcat(*[p[i] for i in sl]) if n else ca.SX(0, 1)
        J = ca.Function('J', [w, p], [ca.jacobian(g, psym)])
        nw, npar = w.shape[0], p.shape[0]
        sgn = np.where(np.isinf(np.array(pr.ubg, dtype=float)), -1.0, 1.0)[:, None]
        base = sgn * np.array(J(np.full(nw, 0.0), np.full(npar, 0.5)))
        src = pr.ind_theta if pss == 'STEWART' else pr.ind_alpha
        self.map = {}       # (kind, system, component) -> slot, over all stages of the first element
        for st in src[0][0]:
            for s, ind in enumerate(st):
                for j, q in enumerate(flat(ind)):
                    w1 = np.zeros(nw)
                    w1[q] = 1.0
                    d = sgn * np.array(J(w1, np.full(npar, 0.5))) - base
                    pos = sorted(set(np.where(d > 1e-9)[1].tolist()))
                    neg = sorted(set(np.where(d < -1e-9)[1].tolist()))
                    want = [('lam', pos)] if pss == 'STEWART' else [('neg', pos), ('pos', neg)]
                    for kind, L in want:
                        if len(L) != 1:
                            raise Mismatch(f'multiplier {j} of system {s} in stage variable w[{q}] is complementary to {len(L)} initial multipliers')
                        key = (kind, s, j)
                        if self.map.setdefault(key, sl[L[0]]) != sl[L[0]]:
                            raise Mismatch(f'multiplier {j} of system {s} is complementary to different initial multipliers in different stages')
                    if pss == 'STEWART' and neg:
                        raise Mismatch(f'multiplier {j} of system {s} enters with the wrong sign')
        if sorted(self.map.values()) != sl:
            raise Mismatch(f'{len(set(self.map.values()))} of the {n} initial multipliers are used')


class Mismatch(Exception):
    pass


def expected(pss, sw):
    """sw: per system (kind, values): Stewart functions, or switching functions in Step mode"""
    out = {}
    for s, v in enumerate(sw):
        v = [float(q) for q in v]
        for j, q in enumerate(v):
            if pss == 'STEWART':
                out[('lam', s, j)] = q - min(v)
            else:
                out[('neg', s, j)] = max(-q, 0.0)
                out[('pos', s, j)] = max(q, 0.0)
    return out


def compare(slots, p, exp):
    if set(slots.map) != set(exp):
        return 'the multipliers of the first element are not those of the model'
    for k, i in slots.map.items():
        if not abs(p[i] - exp[k]) <= (1e-10 if abs(exp[k]) > 1e-3 or exp[k] == 0.0 else 1e-12) * (1 + abs(exp[k])):
            name = dict(lam='lambda', neg='lambda_n', pos='lambda_p')[k[0]]
            return f'{name}[system {k[1]}][{k[2]}] of the initial state is {p[i]:.6g}, expected {exp[k]:.6g}'
    return None


TINY = (3e-7, 2e-5)     # initial states next to a switching surface, on both sides


def task11(it):
    (pss, systems), par, q = it
    sp = Spec(pss, systems)
    out, n, nt = [], 0, 0
    try:
        sp.build(sp.state([0.5] * sum(sp.ns)), fesd=True, **par)
        nlam = sum(n_mult(s, pss) for s in systems) * (1 if pss == 'STEWART' else 2)
        npar = sp.fake.nlp['p'].shape[0]
        if npar != 2 + nlam + sp.nx:
            raise Mismatch(f'{npar} parameters instead of {2 + nlam + sp.nx}')
        slots = Slots(sp.fake, sp.pr, pss, 2, nlam)
        w, p, g = sp.fake.nlp['x'], sp.fake.nlp['p'], sp.fake.nlp['g']
        dep = np.array(ca.DM(ca.which_depends(g, p[2:2 + nlam], 1, True))).flatten() > 0
        G = ca.Function('G', [w, p], [g])
        lbg, ubg = np.array(sp.pr.lbg, dtype=float), np.array(sp.pr.ubg, dtype=float)
        th = sp.pr.ind_theta if pss == 'STEWART' else sp.pr.ind_alpha
        st = [[flat(ind) for ind in stage] for stage in th[0][0]]
        pats = list(sp.patterns())
        near = [tuple(d) for d in itertools.product((-TINY[1], -TINY[0], TINY[0], TINY[1], 0.4), repeat=min(sum(sp.ns), 3))] if sum(sp.ns) <= 3 else []
        for c in list(sp.signs(levels(sp, True))) + near:
            if not sp.covered(c):
                continue
            sp.solver.set('x0', sp.state(c))
            with env.quiet():
                sp.solver.solve()
            pv = sp.fake.calls[-1]['p'].copy()
            sw = []
            for s, cs in enumerate(sp.split_c(c)):
                sy = systems[s]
                sw.append([-sum(a * v for a, v in zip(r, cs)) for r in sy[1]] if sy[0] == 'S' and pss == 'STEWART' else cs)
            n += 1
            d = compare(slots, pv, expected(pss, sw))
            if d:
                out.append((c, None, f'switching values {c}: {d}'))
                break
            if any(0.0 < abs(q) < 1e-3 for q in c):
                continue
            pv[0] = pv[1] = 0.0
            for pat in pats:
                wv = np.zeros(w.shape[0])
                for stage in st:
                    for s, m in enumerate(sp.mult(pat)):
                        wv[stage[s]] = m
                gv = np.array(G(wv, pv)).flatten()
                ok = bool(np.all((gv >= lbg - TOL)[dep]) and np.all((gv <= ubg + TOL)[dep]))
                n += 1
                want = sp.admissible(c, pat)
                nt += want
                if ok != want:
                    out.append((c, pat, f'switching values {c}: multipliers {pat} are {"" if ok else "not "}complementary to the initial multipliers'))
                    break
            if len(out) > 1:
                break
    except Exception as e:
        out.append((None, None, f'{type(e).__name__}: {e}'))
    return out, n, nt


PAR = [dict(), dict(n_s=2, nfe=2), dict(n_s=2, scheme='GAUSS_LEGENDRE', cross='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'),
       dict(n_s=1, nfe=3, cross='COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'), dict(n_s=3, scheme='GAUSS_LEGENDRE')]


def plan11(q):
    for i, s in enumerate(uniq_specs(True)):
        if sum(n_sw(y) for y in s[1]) > 2 and q and len(s[1]) == 1 and i % 3:
            continue
        for par in PAR[:1] + [PAR[1 + i % 4]] if q else PAR:
            yield s, par, q


# sequences of updates -------------------------------------------------------------------------------
OPS = [('x0', 0), ('x0', 1), ('x0', 2), ('pt', 1), ('pt', 2), ('pg', 1), ('pg', 2), ('solve', 0), ('u', 1), ('w', 1)]
CF11 = [dict(model='Four', N=2, Nfe=(1, 2), n_s=1), dict(model='Four', pss='STEP', N=2, Nfe=(2, 2), n_s=1), dict(model='Full', N=2, Nfe=(1, 2), n_s=1),
        dict(model='TwoSys', Nfe=(2,), n_s=1), dict(model='TwoSys', pss='STEP', Nfe=(1,)), dict(model='SimZ', Nfe=(2,), n_s=1), dict(model='SimZ', pss='STEP', Nfe=(1,)),
        dict(model='ZSwitch', N=2, Nfe=(1, 1), n_s=1), dict(model='ZSwitch', N=2, Nfe=(2, 1), n_s=1, rootz=True), dict(model='ZSwitch', pss='STEP', N=1, Nfe=(2,), rootz=True),
        dict(model='Incl2', pss='STEP', N=2, Nfe=(1, 2), n_s=1), dict(model='Incl', pss='STEP', Nfe=(2,), n_s=1), dict(model='GStewart', Nfe=(2,), n_s=1),
        dict(model='GStewart2', Nfe=(1,)), dict(model='ThreeSys', Nfe=(1,)), dict(model='ThreeSys', pss='STEP', Nfe=(1,), scheme='GAUSS_LEGENDRE'),
        dict(model='Four', N=2, Nfe=(1, 1), n_s=1, init='ALL_XCURRENT_WOPT_PREV'), dict(model='ZSwitch', Nfe=(1,), rootz=True, init='EXTERNAL'),
        dict(model='Clock', N=2, Nfe=(1, 1), n_s=1, sot='LOCAL'), dict(model='ZSwitch', Nfe=(2,), rootz=True, init='ALL_XCURRENT_WOPT_PREV'),
        dict(model='Big', N=5, Nfe=(1, 2, 1, 1, 1), n_s=1), dict(model='Big', pss='STEP', N=1, Nfe=(2,), n_s=1), dict(model='BigG', N=5, Nfe=(1, 1, 1, 1, 1), n_s=1),
        dict(model='BigSim', Nfe=(5,), n_s=1), dict(model='BigSim', pss='STEP', Nfe=(1,), n_s=1)]


def task11w(it):
    cfg, words = it
    from . import trans
    from .models import MODELS, E
    cfg = dict(cfg)
    rootz = cfg.pop('rootz', False)
    c = trans.cfg_of(**cfg)
    m = MODELS[c['model']]
    out, n, tr = [], 0, 0
    try:
        slots = None
        for word in words:
            with env.quiet():
                o = trans.make_opts(c)
                o.rootfinder_for_initial_z = rootz
                mod = m.build(c['N'])
                sol = nosnoc.NosnocSolver(o, mod)
            fake = env.last_solver()
            fake.script = lambda k, rec: {'x': 0.31 + 0.07 * np.cos(np.arange(len(rec['x0'])) + k)}
            x0, pt, pg = np.array(m.x0, dtype=float), m.pt_val(c['N']), m.pg_val()
            nlam = 2 * sum(m.n_c()) if c['pss'] == 'STEP' else sum(m.n_f())
            if slots is None:
                slots = Slots(fake, sol.problem, c['pss'], c['N'] * (m.n_pt + m.n_pg) + 2, nlam)
            for op in list(word) + [('solve', 0)]:
                k, v = op
                tr += 1
                if k == 'x0':
                    x0 = np.array(m.x0, dtype=float) * (1, -1.3, 0.2)[v] + (0.0, 0.4, -0.9)[v] * np.array([(-1)**i for i in range(m.n_x)])
                    sol.set('x0', x0)
                elif k == 'pt':
                    pt = m.pt_val(c['N']) * (-1.5 if v == 1 else 2.0) + 0.1 * v
                    sol.set('p_time_var', pt)
                elif k == 'pg':
                    pg = m.pg_val() * (-1.2 if v == 1 else 1.9) + 0.05 * v
                    sol.set('p_global', pg)
                elif k == 'u':
                    sol.set('u', np.full((c['N'], m.n_u), 0.77))
                elif k == 'w':
                    try:
                        sol.set('w', np.full(fake.nlp['x'].shape[0], 0.66))
                    except Warning:     # announces that the states will be overwritten
                        pass
                else:
                    base = len(fake.calls)
                    with env.quiet():
                        sol.solve()
                    z = list(m.z0 or [0.0] * m.n_z)
                    if rootz:
                        z = [0.5 * (x0[0] - 0.5 * x0[1] + 0.3 * pg[0])]
                    e = E(x=list(x0), u=[0.0] * m.n_u, z=z, pt=list(pt[0]), pg=list(pg), v=[0.0] * m.n_v)
                    sw = [m.switch_values(e, s, c['pss']) if c['pss'] == 'STEWART' else m.subs[s]['c'](e) for s in range(len(m.subs))]
                    for cl in fake.calls[base:]:
                        d = compare(slots, cl['p'], expected(c['pss'], sw))
                        n += 1
                        if d:
                            out.append((word, f'after {[a + str(b) for a, b in word]}: {d}'))
                            break
            if len(out) > 1:
                break
    except Exception as e:
        out.append((words[0], f'{type(e).__name__}: {e}'))
    return out, n, tr


def plan11w(q):
    from .models import MODELS
    for cfg in CF11:
        m = MODELS[cfg['model']]
        ops = [o for o in OPS if not (o[0] == 'pt' and not m.n_pt or o[0] == 'pg' and not m.n_pg or o[0] == 'u' and not m.n_u)]
        words = [wd for d in range(0, 4 if q else 5) for wd in itertools.product(ops, repeat=d)]
        if q:
            words = [wd for wd in words if all(a != b for a, b in zip(wd, wd[1:]))]
        for i in range(0, len(words), 60):
            yield cfg, words[i:i + 60]


def run11(ck):
    ck.level = 'exploration'
    tot = dict(nt=0, words=0)

    def on(it, r):
        ck.evals += r[1]
        tot['nt'] += r[2]
        ck.nontrivial += r[2]
        for c, pat, msg in r[0][:1]:
            ck.violation(dname(it[0]), f'{dname(it[0])} {it[1]}: {msg}', dict(kind='c11', spec=it[0], par=it[1], quick=it[2]))
    items = list(plan11(ck.quick))
    n1 = pmap(ck, task11, items, on, chunk=4)
    ck.sample(dict(spec=dname(items[len(items) // 2][0]), options=items[len(items) // 2][1]))

    def onw(it, r):
        ck.evals += r[1]
        ck.nontrivial += r[1]
        tot['words'] += len(it[1])
        if len(it[1]) > 20:
            ck.sample(dict(cfg=str(it[0]), word=[a + str(b) for a, b in it[1][-1]] + ['solve']))
        for word, msg in r[0][:1]:
            ck.violation(str(it[0]), f'{it[0]}: {msg}', dict(kind='c11w', cfg=it[0], words=[word]))
    n2 = pmap(ck, task11w, list(plan11w(ck.quick)), onw, chunk=1)
    ck.part('specifications', number=n1, admissible_selections=tot['nt'])
    ck.part('update sequences', configurations=len(CF11), words=tot['words'])
    ck.rules.append('(a) every switching specification of C10 times every sign/magnitude pattern of the initial state times every selection of the convex multipliers '
                    'of the first element: complementary to the initial multipliers the solver passes iff admissible, and each initial multiplier has its exact value '
                    '(which parameter belongs to which multiplier is read off the NLP); (b) every word of updates of initial state, parameters, start point and solves '
                    'up to the bounded length for every listed configuration: values at every NLP solve.')
    ck.assumptions.append('Where a switching function depends on an algebraic state, its value is the declared guess, or with rootfinder_for_initial_z the solution of the '
                          'algebraic equations at the current initial state and first-stage parameters.')


def tup(x):
    return tuple(tup(q) for q in x) if isinstance(x, list) else x


def replay(data):
    spec = tup(data['spec'])
    if data['kind'] == 'c11':
        return [m for _, _, m in task11((spec, data['par'], data['quick']))[0]]
    if data['kind'] == 'c11w':
        r = task11w((dict(data['cfg'], Nfe=tuple(data['cfg']['Nfe'])), [tuple(tuple(o) for o in wd) for wd in data['words']]))
        return [m for _, m in r[0]]
    return [f'{c} {p}: {m}' for c, p, m in check_spec((spec, data['quick']))[0]]
