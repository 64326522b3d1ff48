"""P14: weir flow law."""
import numpy as np
from mc import nets, controls

LEVEL = 'model_checking'
FLOOR = {t: {'weir submerged': 300, 'weir free': 300, 'weir dry': 300, 'reverse': 300, 'transfers': 5000}
         for t in ('quick', 'thorough')}
ASSUMPTIONS = ['states within 1e-9 m of a regime boundary are not judged']


def rows():
    out = []
    for zw in (0., .5):
        for L, s in ((.8, .5), (1.2, 0.), (0., 1.)):
            for y in (.3, 1.):
                out.append(nets.weir(0, 1, z_w=zw, L=L, s=s, y_max=y, Cr=1.8 - .3 * zw, Ct=1.2 + .2 * y))
    out.append(nets.weir(1, 0, z_w=.3))
    return out


def run(tier, seed):
    n = 13 if tier == 'quick' else 27
    h = list(np.linspace(.02, 2.1, n)) + [.5, .8, 1.3]
    u = [None, 0., .4, 1.] if tier == 'quick' else [None, 0., .1, .3, .5, .75, 1.]
    q = [0., .2] if tier == 'quick' else [0., .2, -.4, 1e-3]
    return controls.run('weirs', rows(), tier, h, u, q)
