"""Writes MANIFEST.json from the registry and the notes below."""
import json
import os
import re
ROOT = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(ROOT, 'mc', 'registry.py')).read()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TRANS = ('bounded exhaustive enumeration of configurations; reference transcription model compared with the NLP the code builds',
         'exploration',
         'Complete within the listed configuration bounds (see evidence); symbolic expressions are identified by their values at two generic '
         'points; trusts the reference transcription in mc/ref.py and the casadi expression evaluator.')
NOTES = {p: TRANS for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C26')}
NOTES['C07'] = ('bounded exhaustive enumeration of configurations and of active-set patterns; reference model', 'exploration', TRANS[2])
NOTES['C09'] = ('bounded exhaustive enumeration of configurations, exact and least-squares NLP compared pairwise', 'exploration', TRANS[2])
NOTES['C14'] = ('bounded exhaustive enumeration of configurations with a scripted NLP solver; independent decoder', 'exploration',
                'Complete within the configuration bounds; the reference decoder uses the index maps of the problem, which are checked on their own and '
                'against the NLP (C01..C05).')
NOTES['C15'] = ('explicit-state enumeration of all words of active regions, replayed on the real code', 'model_checking',
                'All words over the region alphabet up to the listed lengths and layouts; the NLP solver is a script.')
exec(open(os.path.join(ROOT, 'notes.py')).read()) if os.path.exists(os.path.join(ROOT, 'notes.py')) else None
NA = {'C28': 'The order of convergence is an asymptotic statement about real-valued trajectories of nonlinear systems (a limit of error ratios as the step size '
             'goes to zero); there is no bounded set of executions whose exhaustive enumeration decides it, and its algebraic content (order conditions of '
             'the tableaux, exactness of the transcription) is decided by C19, C01 and C22.'}
checks = []
claimed = set(re.findall(r"CHECKS\['(C\d+)'\]", src)) | set(re.findall(r"'(C\d\d)'", src.split('CHECKS = ')[1].split('\n')[0]))
for p in props:
    pid = p['id']
    if pid not in claimed:
        NA.setdefault(pid, 'The check for this property is not built yet.')
        continue
    t, lv, note = NOTES[pid]
    checks.append(dict(property=pid, quick_cmd=f'./run.sh -m mc.driver {pid}', thorough_cmd=f'./run.sh -m mc.driver {pid} --thorough',
                       evidence_file=f'evidence/{pid}.json', technique=t, level=lv, level_note=note))
m = dict(version=1, setup_cmd='./run.sh -m mc.selftest', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo are needed: the only source of nondeterminism, the NLP solver, is replaced from outside (mc/env.py).')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not applicable:', sorted(NA))
