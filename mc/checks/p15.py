"""P15: pump flow law."""
import numpy as np
from mc import nets, controls

LEVEL = 'model_checking'
FLOOR = {t: {'pump in range': 300, 'pump low': 300, 'pump high': 100, 'pump off': 300, 'pump dry': 200, 'transfers': 5000}
         for t in ('quick', 'thorough')}
ASSUMPTIONS = ['curves whose shut-off head is not below their operating range (a_p >= dH_max)',
               'states within 1e-9 m of a regime boundary are not judged']


def rows():
    out = []
    for zp in (0., .3):
        for a, b, c in ((6., 8., 1.5), (4., 20., 2.), (5., 15., 1.), (4., 3., .8)):
            for lo, hi in ((.2, 1.2), (-.5, 4.)):
                out.append(nets.pump(0, 1, z_p=zp, a_p=a, b_p=b, c_p=c, dH_min=lo, dH_max=hi))
    out.append(nets.pump(1, 0, z_p=.1, dH_min=.1))
    return out


def run(tier, seed):
    n = 13 if tier == 'quick' else 27
    h = list(np.linspace(.02, 2.6, n)) + [.5, .8]
    u = [None, 0., .4, 1.] if tier == 'quick' else [None, 0., .1, .3, .5, .75, 1.]
    q = [0., .2] if tier == 'quick' else [0., .2, .05, 1e-3]
    return controls.run('pumps', rows(), tier, h, u, q)
