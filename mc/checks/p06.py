"""P06: the hydraulic state stays finite and within its physical range."""
import numpy as np
from mc import core, nets, hydro
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 10000, 'dry': 200, 'full': 100}, 'thorough': {'steps': 100000, 'dry': 200, 'full': 100}}
ASSUMPTIONS = ['the rated range of a pump ends at or below its shut-off head (dH_max <= a_p)',
               'the upper limit of conduit depths applies to interior junctions, where the table gives one and the recurrence methods are used (the end depths follow the adjoining head)',
               'input magnitudes up to 20 m3/s on networks whose conduits carry about 1 m3/s']


def catalogue():
    out = []
    for n in hb.configs('quick'):
        if n.name in ('chain-6link', 'tee-2link', 'loop-ctrl', 'chain-endcells', 'loop-sparse'):
            continue
        out.append(n)
    extra = []
    for base in (nets.tee(), nets.control(which='owp'), nets.drop_net(), nets.loop(method='lsq')):
        n = base.copy(base.name + '-capped')
        for r in n.sj:
            r['max_depth'] = 3.
        for r in n.sl:
            r['max_depth'] = 1.5
        extra.append(n)
    for base, kw in ((extra[0], dict(banded=True)), (extra[1], dict(banded=True)), (extra[1], dict(sparse=True)), (extra[0], dict(method='f'))):
        extra.append(base.copy(base.name + '-' + '-'.join(kw), **kw))
    n = nets.control(which='owp', h=1e-5).copy('control-dry')
    extra.append(n)
    return out + extra


def actions(net):
    M = net.M
    free = [j for j in range(M) if not net.sj[j]['bc']]
    z = np.array([r['z_inv'] for r in net.sj])
    qs = {}
    qs['flood'] = np.zeros(M)
    qs['flood'][free[0]] = 20.
    qs['suck'] = np.zeros(M)
    qs['suck'][free] = -3.
    qs['tail'] = np.zeros(M)
    qs['tail'][free[-1]] = 8.
    acts = {'flood': dict(Q_in=qs['flood'], dt=5., H_bc=z + .01),
            'suck': dict(Q_in=qs['suck'], dt=60., H_bc=z.copy()),
            'tail': dict(Q_in=qs['tail'], dt=.2, H_bc=z + 2.8),
            'none': dict(Q_in=None, dt=300., H_bc=None),
            'again': dict(Q_in=qs['tail'] - qs['flood'], dt=20., H_bc=z + .4, num_iter=4, head_tol=0.),
            'tiny': dict(Q_in=qs['suck'] * -1e-6, dt=1e-3, H_bc=None)}
    for i, a in enumerate(acts.values()):
        for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
            if rows:
                a[key] = np.array([[1., 0., .3][(i + j) % 3] for j in range(len(rows))])
    return acts


def job(net, first, depth):
    rep = core.Report()
    lay = hydro.Layout(net)
    acts = actions(net)
    m = net.build()
    z = np.array([r['z_inv'] for r in net.sj])
    top = z + np.array([r['max_depth'] for r in net.sj])
    bc = np.array([r['bc'] for r in net.sj])
    mind = net.kw.get('min_depth', 1e-5)
    lsq = net.kw.get('method') == 'lsq'       # has no upper limit inside conduits
    hmax = np.concatenate([[np.inf] + [np.inf if lsq else K['hmax']] * (lay.nl - 1) + [np.inf] for K in lay.K])

    def apply(m, a):
        hb.do(m, acts[a])

    def visit(m, _, hist, out):
        case = dict(net=net.name, options=net.kw, history=hist)
        rep.count('steps')
        named = dict(H_j=m.H_j, h_Ik=m.h_Ik, Q_ik=m.Q_ik, Q_uk=m.Q_uk, Q_dk=m.Q_dk, A_ik=m.A_ik, B_ik=m.B_ik,
                     R_ik=m.R_ik, Pe_ik=m.Pe_ik, A_uk=m.A_uk, A_dk=m.A_dk, A_sj=m.A_sj, V_j=m.V_j)
        for o, k in (('Q_o', net.orifices), ('Q_w', net.weirs), ('Q_p', net.pumps)):
            if k:
                named[o] = getattr(m, o)
        for k, v in named.items():
            if not np.isfinite(v).all():
                rep.violate('%s is not finite: %s' % (k, v), case)
                return False
        for k in ('A_ik', 'B_ik', 'R_ik', 'Pe_ik', 'A_uk', 'A_dk', 'A_sj', 'V_j'):
            if (named[k] < 0).any():
                rep.violate('%s is negative: %s' % (k, named[k]), case)
                return False
        if (m.H_j < z - 1e-12).any() or (m.H_j > top + 1e-9).any():
            rep.violate('head outside [invert, invert + maximum depth]: %s' % m.H_j, case)
            return False
        if (m.h_Ik < mind * (1 - 1e-9)).any() or (m.h_Ik > hmax + 1e-9).any():
            rep.violate('depth in conduit outside [minimum, maximum]: %s' % m.h_Ik, case)
            return False
        if (m.h_Ik <= mind * 1.01).any():
            rep.count('dry')
        if (m.H_j >= top - 1e-9).any():
            rep.count('full')
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
        return True

    if first is not None:
        apply(m, first)
        rep.transitions += 1
        if visit(m, None, (first,), None):
            core.explore(m, list(acts), apply, depth, visit, rep, prefix=(first,))
    rep.sample(dict(net=net.name, first=first, depth=depth))
    return rep


def run(tier, seed):
    depth = 4 if tier == 'quick' else 6
    jobs = [(n, f, depth) for n in catalogue() for f in actions(n)]
    return core.run_jobs(job, jobs)
