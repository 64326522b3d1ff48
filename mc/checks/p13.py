"""P13: orifice flow law."""
import numpy as np
from mc import nets, controls

LEVEL = 'model_checking'
KINDS = ('submerged', 'free', 'weir', 'dry', 'blocked')
FLOOR = {t: dict({'orifice ' + k: 300 for k in KINDS}, reverse=300, transfers=5000, iterated=300) for t in ('quick', 'thorough')}
ASSUMPTIONS = ['the opening keeps its documented shape with its height scaled by the setting; its area is taken at the heads before the step, the head difference after it',
               'states within 1e-9 m of a regime boundary are not judged']


def rows():
    out = []
    for o in ('side', 'bottom'):
        for zo in (0., .4):
            out.append(nets.ori(0, 1, orientation=o, z_o=zo))
    g = dict(circular=dict(g1=.5, g2=0., g3=0.), triangular=dict(g1=.5, g2=.8, g3=0.), trapezoidal=dict(g1=.5, g2=.4, g3=.5),
             parabolic=dict(g1=.5, g2=.6, g3=0.), elliptical=dict(g1=.5, g2=.9, g3=0.), rect_open=dict(g1=.5, g2=.4, g3=0.),
             wide=dict(g1=.5, g2=2., g3=0.), force_main=dict(g1=.3, g2=0., g3=0.))
    for i, (s, d) in enumerate(g.items()):
        out.append(nets.ori(0, 1, orientation=('side', 'bottom')[i % 2], shape=s, z_o=.1, C=.5 + .05 * i, y_max=d['g1'], **d))
    out.append(nets.ori(0, 1, oneway=True))
    out.append(nets.ori(0, 1, oneway=True, orientation='bottom', z_o=.3, A=.5))
    for o in ('side', 'bottom'):
        r = nets.ori(0, 1, orientation=o, A=.16, y_max=.4, z_o=.1)
        for k in ('shape', 'g1', 'g2', 'g3'):
            del r[k]
        out.append(r)
    return out


def run(tier, seed):
    n = 11 if tier == 'quick' else 21
    h = list(np.linspace(.02, 2.1, n)) + [.45, .5, .70001]
    u = [None, 0., .3, 1.] if tier == 'quick' else [None, 0., .1, .3, .5, .75, 1.]
    q = [0., .2] if tier == 'quick' else [0., .2, -.4, 1e-3]
    return controls.run('orifices', rows(), tier, h, u, q)
