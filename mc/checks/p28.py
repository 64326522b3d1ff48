"""P28: water quality never changes the hydraulics it rides on."""
import itertools
import numpy as np
from mc import core, nets
from mc.checks import _wq, p08

LEVEL = 'model_checking'
FLOOR = {'quick': {'histories': 8000, 'compared': 40000, 'quality_calls': 20000, 'models': 8000}, 'thorough': {'histories': 90000}}
ASSUMPTIONS = ['twins run the same hydraulic calls in the same process: every quantity has to be the same to the last bit']

OPS = ['head', 'draw', 'long', 'new', 'wq', 'free', 'feed', 'own', 'kalman', 'load', 'set']
NETS = ('chain', 'tee', 'loop', 'flipped', 'flat-3', 'drop-dry', 'control-owp', 'twin-controls', 'twin-controls-sparse',
        'loop-permuted', 'tee-tabular', 'flat-curves', 'no-storage', 'chain-mobile')

DEEP = ('chain', 'flipped', 'control-owp', 'loop-permuted', 'tee-tabular', 'chain-mobile')


def catalogue():
    c = {n.name: n for n in _wq.catalogue()}
    n = _wq.ends(nets.chain(('rect_open', 'rect_open'), drop=.6, h=.3, internal_links=4, mobile_elements=True), 'chain-mobile')
    n.sl[1].update(dx=25.)
    c[n.name] = n
    return [c[x] for x in NETS]


TABLES = ('dx_ik', 'A_ik', 'B_ik', 'R_ik', 'A_uk', 'B_uk', 'R_uk', 'A_dk', 'B_dk', 'R_dk', 'A_sj', 'z_inv_j', 'z_inv_uk', 'z_inv_dk',
          'h_Ik', 'dx_uk', 'dx_dk', 'theta_uk', 'theta_dk', 'A_SIk', 'A_SIk_', 'V_sj', 'Q_in', 'Q_0Ik', 'z_inv_Ik', 'S_o_ik', 'min_depth')
SAVED = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk')


def observe(m):
    d = {k: np.array(v) for k, v in _wq.view(m).items() if k != 'c'}
    for k in TABLES:
        v = getattr(m, '_' + k, None)
        if v is not None:
            d['_' + k] = np.array(v, float)
    for k in SAVED:
        d['saved ' + k] = np.array(m.states[k])
    d['t'] = np.array([m.t])
    return d


class Twin:
    """one hydraulic model, with or without quality models"""
    def __init__(self, net, rep, quality):
        self.net, self.rep, self.quality = net, rep, quality
        self.m = net.build()
        self.ws = []
        self.acts = dict(_wq.actions(net))
        self.dt = 2.

    def op(self, o):
        """True if it is a call on the hydraulic model"""
        net, m = self.net, self.m
        if o in self.acts:
            a = self.acts[o]
            m.step(**_wq.todo(m, a))
            if m.mobile_elements:
                m.reposition_junctions()
            self.dt = a['dt']
            return True
        if o == 'load':
            m.load_state(m.states)
            return True
        if not self.quality:
            return False
        M = net.M
        nI = net.NK * (net.kw['internal_links'] + 1)
        self.rep.count('quality_calls')
        if o == 'new':
            k = len(self.ws)
            self.ws.append(_wq.quality(m, net, _wq.span(net, k), K=k * 1e-3, D=.1))
            self.rep.count('models')
        for k, w in enumerate(self.ws):
            if o == 'wq':
                w.step(dt=self.dt, c_0j=np.full(M, 1. + k), c_bc=np.full(M, .4))
            elif o == 'free':
                w.step(dt=7.)
            elif o == 'feed':
                w.step(dt=self.dt, Q_0j=np.full(M, .3), c_0j=np.full(M, 2.), Q_0Ik=np.full(nI, 1e-3), c_0Ik=np.full(nI, .5))
            elif o == 'own' and m.t > m.states['t']:
                w.step()
            elif o == 'kalman':
                w.step(dt=self.dt)
                w.Kalman_Filter_WQ2(np.array([.8]), self.dt, 0)
            elif o == 'set':
                w.c_j[:] = 3.
                w.c_Ik[:] = 2.
                w.c_ik[:] = 1.
                w.c_uk[:] = 1.
                w.c_dk[:] = 1.
        return False


def job(net, depth, first):
    rep = core.Report()
    for seq in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + seq
        case = dict(net=net.name, calls=('head', 'new') + seq + ('draw', 'long'))
        a, b = Twin(net, rep, True), Twin(net, rep, False)
        for k, o in enumerate(case['calls']):
            a.op(o)
            b.op(o)
            va, vb = observe(a.m), observe(b.m)
            rep.transitions += 1
            rep.count('compared')
            bad = [x for x in vb if not np.array_equal(va.get(x), vb[x], equal_nan=True)]
            if bad:
                rep.violate('hydraulic quantity %s differs from a run without quality' % bad[0],
                            dict(case, at=k), all=bad, signature='%s:%s' % (net.name, bad[0]))
                return rep
            rep.state(va['H'], va['Q'], *[w.c_j for w in a.ws])
        rep.count('histories')
        rep.traces += 1
    rep.sample(dict(net=net.name, first=first, depth=depth, calls=OPS))
    return rep


def run(tier, seed):
    def depth(n):
        return (3 if n.name in DEEP else 2) if tier == 'quick' else 4
    return core.run_jobs(job, [(n, depth(n), o) for n in catalogue() for o in OPS])
