"""Runs one check, writes its evidence file, prints the verdict."""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_PROCS', os.cpu_count() or 8))


class Check:
    """Collects what one run covered."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.level = 'exploration'
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.viol = []          # (key, message, replay data)
        self.fresh = 0
        self.known = {(k['property'], k['key']) for k in known_findings()}
        self.t0 = time.time()
        self.max_viol = int(os.environ.get("VERIF_MAXVIOL", 12))
        self.states = self.transitions = self.traces = self.evals = self.nontrivial = 0
        self.rules = []
        self.parts = {}
        self.complete = True

    def full(self):
        return self.fresh >= self.max_viol

    def violation(self, key, msg, data):
        if (self.pid, str(key)) in self.known:      # keep one of each, they do not stop the exploration
            if not any(k == str(key) for k, _, _ in self.viol):
                self.viol.append((str(key), str(msg), data))
            return
        self.fresh += 1
        self.viol.append((str(key), str(msg), data))

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def part(self, name, **kw):
        self.parts[name] = kw


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def pmap(check, fn, items, on, chunk=8):
    """fn(item) in NPROC processes, on(item, result) in order of arrival; stops when the check has
    collected enough violations.  Returns the number of items done."""
    items = list(items)
    if not items:
        return 0
    n = 0
    if NPROC == 1 or len(items) < 4:
        for it in items:
            on(it, fn(it))
            n += 1
            if check.full():
                check.complete = False
                break
        return n
    ctx = mp.get_context('fork')
    _job[:] = [fn, items]       # inherited by the workers, not pickled
    pool = ctx.Pool(min(NPROC, len(items)), _init)
    try:
        for idx, r in pool.imap_unordered(_call, range(len(items)), chunksize=max(1, min(chunk, len(items) // (4 * NPROC) + 1))):
            on(items[idx], r)
            n += 1
            if check.full():
                check.complete = False
                break
    finally:
        pool.terminate()
        pool.join()
    return n


_job = [None, None]


def _call(i):
    return i, _job[0](_job[1][i])


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in (sorted(x, key=str) if isinstance(x, (set, frozenset)) else x)]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def known_findings():
    try:
        with open(os.path.join(ROOT, 'known_findings.json')) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(pid, tier, seed)
    try:
        from . import registry
        if '--replay' in argv:
            with open(argv[argv.index('--replay') + 1]) as f:
                d = json.load(f)
            msgs = registry.replay(pid, d['data'])
            for m in msgs:
                print(m)
            print('reproduced' if msgs else 'not reproduced')
            return 1 if msgs else 0
        registry.CHECKS[pid](ck)
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        # the machinery could not digest the tree: a tree that builds but cannot be driven breaks the property
        ck.violation('machinery', f'{type(e).__name__}: {e}', {'traceback': tb})
    return finish(ck)


def finish(ck):
    known = {k['key']: k for k in known_findings() if k['property'] == ck.pid and k.get('status') != 'fixed'}
    seen, new = {}, []
    for key, msg, data in ck.viol:
        if key in known:
            seen.setdefault(key, msg)
        else:
            new.append((key, msg, data))
    for key in seen:
        print(f'KNOWN-FINDING: property={ck.pid} {known[key]["what"]}')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'out'), exist_ok=True)
    cov = dict(ck.cov)
    if ck.level == 'model_checking':
        cov.update(states=ck.states, transitions=ck.transitions, traces_validated_against_impl=ck.traces)
        if ck.evals:
            cov['evaluations'] = ck.evals
    else:
        cov.update(evaluations=ck.evals, distinct_nontrivial=ck.nontrivial)
    cov['rule'] = ' '.join(ck.rules)
    cov['samples'] = jsonable(ck.samples)
    cov['exhaustive'] = bool(ck.complete)
    if ck.parts:
        cov['parts'] = jsonable(ck.parts)
    ev = dict(property=ck.pid, tier='thorough' if ck.tier == 'thorough' else 'quick', seed=ck.seed, level=ck.level,
              coverage=cov, assumptions=ck.assumptions, wall_s=round(time.time() - ck.t0, 2), violations=len(new))
    with open(os.path.join(ROOT, 'evidence', f'{ck.pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not new:
        print(f'{ck.pid}: property held on everything explored '
              f'({ck.states or ck.evals} {"states" if ck.states else "cases"}, {ev["wall_s"]} s)')
        return 0
    done = set()
    for key, msg, data in new:
        if key in done:
            continue
        done.add(key)
        h = hashlib.sha1((key + msg).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, 'out', f'{ck.pid}-{h}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=ck.pid, key=key, message=msg, data=jsonable(data)), f, indent=1)
        print(f'{ck.pid}: {msg[:600]}')
        print(f'VIOLATION property={ck.pid} replay={path}')
        if len(done) >= 6:
            break
    return 1


if __name__ == '__main__':
    sys.exit(main())
