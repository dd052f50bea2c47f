"""property id -> function that runs its check; replay of recorded counterexamples"""
from . import transcheck as T
from . import results as R
from . import homotopy
from . import protocol
from . import loop
from . import isolation
from . import rkcheck
from . import dcs
from . import automodel
from . import validation
from . import hybrid
from . import stepeq
from . import fixing
from . import smoothed
from . import dumping
from . import simulate
from . import vectorfield
from . import options
from . import observers
from . import optimal

CHECKS = {p: T.run for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C26')}
CHECKS['C09'] = T.run_c09
CHECKS['C12'] = protocol.run
CHECKS['C17'] = protocol.run
CHECKS['C16'] = loop.run
CHECKS['C18'] = isolation.run
CHECKS['C13'] = homotopy.run
CHECKS['C14'] = R.run_c14
CHECKS['C15'] = R.run_c15
CHECKS['C19'] = rkcheck.run
CHECKS['C10'] = dcs.run
CHECKS['C11'] = dcs.run11
CHECKS['C20'] = automodel.run
CHECKS['C21'] = validation.run
CHECKS['C22'] = hybrid.run
CHECKS['C07'] = stepeq.run
CHECKS['C24'] = fixing.run
CHECKS['C25'] = smoothed.run
CHECKS['C27'] = dumping.run
CHECKS['C23'] = simulate.run
CHECKS['C29'] = vectorfield.run
CHECKS['C30'] = options.run
CHECKS['C31'] = observers.run
CHECKS['C32'] = optimal.run


def replay(pid, data):
    if data.get('kind') == 'cfg':
        return T.replay(pid, data)
    if data.get('kind') == 'lsq':
        return T.replay_c09(data)
    if data.get('kind') in ('c14', 'c15'):
        return R.replay(data)
    if data.get('kind') == 'c13':
        return homotopy.replay(data)
    if data.get('kind') in ('protocol', 'slots'):
        return protocol.replay(pid, data)
    if data.get('kind') == 'c16':
        return loop.replay(data)
    if data.get('kind') in ('c18', 'c18r'):
        return isolation.replay(data)
    if data.get('kind') == 'c19':
        return rkcheck.replay(data)
    if data.get('kind') in ('c10', 'c11', 'c11w'):
        return dcs.replay(data)
    if data.get('kind') == 'c20':
        return automodel.replay(data)
    if data.get('kind') in ('c21', 'c21a', 'c21l'):
        return validation.replay(data)
    if data.get('kind') == 'c22':
        return hybrid.replay(data)
    if data.get('kind') == 'c07':
        return stepeq.replay(data)
    if data.get('kind') == 'c24':
        return fixing.replay(data)
    if data.get('kind') == 'c25':
        return smoothed.replay(data)
    if data.get('kind') == 'c27':
        return dumping.replay(data)
    if data.get('kind') == 'c23':
        return simulate.replay(data)
    if data.get('kind') == 'c29':
        return vectorfield.replay(data)
    if data.get('kind') == 'c30':
        return options.replay(data)
    if data.get('kind') == 'c31':
        return observers.replay(data)
    if data.get('kind') == 'c32':
        return optimal.replay(data)
    raise SystemExit(f'cannot replay {data.get("kind")}')
