"""Setup: nothing is compiled; makes sure that the code under test can be imported and the machinery tells a wrong
reference from a right one (one configuration, with one expectation deliberately changed)."""
import sys
from . import tableau, trans
from .space import BASES

bad = 0
for b in BASES:
    c = trans.cfg_of(**b)
    r = trans.check_cfg(c)
    print('base configuration', c['model'], c['pss'], 'matches' if not r else r[0][1][:200])
orig = tableau.rk
tableau.rk = lambda s, n: (orig(s, n)[0] * (1 + 1e-5), orig(s, n)[1], orig(s, n)[2])
c = trans.cfg_of(rep='DIFFERENTIAL')
if not trans.check_cfg(c):
    print('the comparison does not notice a changed tableau')
    bad = 1
sys.exit(bad)
