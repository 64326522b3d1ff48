"""P07: still water stays still; a closed network settles to a level surface."""
import itertools
import numpy as np
from mc import core, nets, hydro
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'still_steps': 5000, 'settled': 40}, 'thorough': {'still_steps': 50000, 'settled': 100}}
ASSUMPTIONS = ['level surface above every conduit and structure opening; pumps off',
               'settling judged by the spread of heads after 400 steps of 20 s from every start in the alphabet']
# orifice flow goes with the square root of the head difference, so rounding of heads (1e-15)
# shows up as flows of 1e-8 and, over an hour, heads of 1e-6: nets with orifices get wider limits
TOL = {False: (1e-8, 1e-6), True: (1e-4, 5e-3)}


def closed_catalogue():
    out = [n for n in hb.configs('quick') if 'dry' not in n.name and 'surch' not in n.name
           and 'endcells' not in n.name]
    res = []
    for n in out:
        n = n.copy(n.name)
        n.pumps = n.pumps          # pumps stay, switched off
        res.append(n)
    for base in (nets.tee(), nets.control(which='owp')):
        for kw in (dict(auto_permute=True), dict(sparse=True), dict(inertial_damping=True)):
            res.append(base.copy(base.name + '-' + list(kw)[0], **kw))
    for a in (dict(orientation='bottom', z_o=.2), dict(shape='circular', g1=.4, g2=0., y_max=.4), dict(oneway=True)):
        n = nets.control(which='o').copy('control-o-' + '-'.join(a))
        n.orifices[0].update(a)
        n.orifices[1].update({k: v for k, v in a.items() if k == 'oneway'})
        res.append(n)
    # end cells belong with the momentum end method (with 'z' their slope is not accounted for)
    for xu, xd in ((4., 6.), (5., 0.), (0., 5.)):
        n = nets.chain(('rect_open', 'wide'), h=.8, bc_method='b').copy('chain-endcells-b-%g-%g' % (xu, xd))
        for r in n.sl:
            r.update(dx_uk=xu, dx_dk=xd)
        res.append(n)
    n = nets.tee(bc_method='b').copy('tee-b')
    res.append(n)
    n = nets.chain(('rect_open', 'wide'), h=.8, drop=0.).copy('chain-endcells-flat')
    for r in n.sl:
        r.update(dx_uk=4., dx_dk=6.)
    res.append(n)
    n = nets.tee().copy('tee-tabular')
    for r in n.sj:
        r.update(storage='tabular', table='t%d' % (len(n.sj) % 2), map_x=0.)
    n.storages = {'t0': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.])),
                  't1': dict(h=np.array([0., 5.]), A=np.array([12., 8.]))}
    res.append(n)
    return res


def set_level(m, net, lay, level):
    perm = np.asarray(m.permutations)
    m.H_j = np.full(net.M, level)
    x = np.asarray(m.x_Ik, float)
    h = np.zeros(x.size)
    for K in lay.K:
        xs = x[K['I']]
        L = K['dx'].sum() + K['xu'] + K['xv']
        h[K['I']] = level - (K['zu'] - (K['zu'] - K['zv']) * (K['xu'] + xs - xs[0]) / L)
    m.h_Ik = h
    m.Q_ik = np.zeros(m.Q_ik.size)
    m.Q_uk = np.zeros(net.NK)
    m.Q_dk = np.zeros(net.NK)
    for o, rows in (('Q_o', net.orifices), ('Q_w', net.weirs), ('Q_p', net.pumps)):
        if rows:
            setattr(m, o, np.zeros(len(rows)))
    return h


def ctl(net, u):
    d = {}
    if net.orifices:
        d['u_o'] = np.full(len(net.orifices), u)
    if net.weirs:
        d['u_w'] = np.full(len(net.weirs), u)
    if net.pumps:
        d['u_p'] = np.zeros(len(net.pumps))
    return d


def still(net, level, depth):
    rep = core.Report()
    lay = hydro.Layout(net)
    m = net.build()
    set_level(m, net, lay, level)
    h0 = m.h_Ik.copy()
    acts = {'1ms': (1e-3, 1., 1), '1s': (1., .5, 1), '30s': (30., 1., 1), 'hour': (3600., .2, 1), 'iter': (10., 1., 3)}

    def apply(m, a):
        dt, u, it = acts[a]
        m.step(dt=dt, num_iter=it, head_tol=1e-12, **ctl(net, u))

    def visit(m, _, hist, out):
        rep.count('still_steps')
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
        case = dict(net=net.name, options=net.kw, level=level, history=hist)
        dH = np.abs(m.H_j - level).max()
        dh = np.abs(m.h_Ik - h0).max()
        q = np.abs(np.concatenate([m.Q_ik, m.Q_uk, m.Q_dk] + [getattr(m, o) for o, r in
                                  (('Q_o', net.orifices), ('Q_w', net.weirs), ('Q_p', net.pumps)) if r])).max()
        rep.counts['worst_H_e12'] = max(rep.counts.get('worst_H_e12', 0), int(dH * 1e12))
        rep.counts['worst_Q_e12'] = max(rep.counts.get('worst_Q_e12', 0), int(q * 1e12))
        tol_h, tol_q = TOL[bool(net.orifices)]
        if not (dH <= tol_h and dh <= tol_h and q <= tol_q):
            rep.violate('still water moves: head change %.3g, depth change %.3g, flow %.3g' % (dH, dh, q), case)
            return False
        return True

    core.explore(m, list(acts), apply, depth, visit, rep)
    rep.sample(dict(net=net.name, level=level, alphabet=list(acts)))
    return rep


def settle(net, start):
    """no boundaries, no inflow: heads approach one level"""
    rep = core.Report()
    net = net.copy()
    for r in net.sj:
        r['bc'] = False
    lay = hydro.Layout(net)
    m = net.build()
    top = max(r['z_inv'] for r in net.sj)
    set_level(m, net, lay, top + 1.3)
    H = m.H_j.copy()
    for j, s in enumerate(start):
        H[j] += s
    m.H_j = H
    spread0 = H.max() - H.min()
    hi, lo = H.max(), H.min()
    for i in range(400):
        m.step(dt=20., **ctl(net, 1.))
        rep.transitions += 1
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
    rep.traces += 1
    rep.count('settled')
    spread = m.H_j.max() - m.H_j.min()
    case = dict(net=net.name, options=net.kw, start=start)
    if not spread <= .1 * spread0 + 1e-3:
        rep.violate('spread of heads %.4f m after 400 steps, %.4f m at the start: %s' % (spread, spread0, m.H_j), case)
    if not (m.H_j.max() <= hi + 1e-6 and m.H_j.min() >= lo - 1e-6):
        rep.violate('settled outside the initial range of heads: %s' % m.H_j, case)
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 5
    jobs = []
    for n in closed_catalogue():
        top = max(r['z_inv'] for r in n.sj)
        for level in (top + .9, top + 1.4, top + 2.7):
            jobs.append((n, level, depth))
    rep = core.run_jobs(still, jobs)
    jobs = []
    for n in (nets.flat(), nets.chain(('rect_open', 'circular'), bc_last=False), nets.tee(), nets.loop(),
              nets.parallel(), nets.flipped(), nets.control(which='ow'), nets.drop_net()):
        alpha = (0., .5) if tier == 'quick' else (0., .3, .9)
        for s in itertools.product(alpha, repeat=n.M):
            if len(set(s)) > 1:
                jobs.append((n, s))
    rep.merge(core.run_jobs(settle, jobs))
    return rep
