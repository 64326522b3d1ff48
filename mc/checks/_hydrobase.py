"""Shared exploration for the governing-equation properties P01-P04: every action
sequence up to a depth over the network catalogue and its solver options."""
import numpy as np
from mc import core, nets, hydro


def configs(tier):
    """(network, constructor overrides) pairs"""
    out = []
    for n in nets.basic():
        out.append(n)
    for n in nets.shapes():
        out.append(n)
    for n in nets.controls():
        out.append(n)
    out.append(nets.twin_controls())
    out.append(nets.outfall())
    out.append(nets.outfall(sparse=True).copy('outfall-sparse'))
    out.append(nets.outfall(banded=True).copy('outfall-banded'))
    # solver / method / option variants
    out.append(nets.twin_controls(sparse=True).copy('twin-controls-sparse'))
    out.append(nets.tee(method='f').copy('tee-f'))
    out.append(nets.loop(method='lsq').copy('loop-lsq'))
    out.append(nets.loop(sparse=True).copy('loop-sparse'))
    out.append(nets.control(which='owp', sparse=True).copy('control-sparse'))
    out.append(nets.loop(banded=True).copy('loop-banded'))
    out.append(nets.control(which='owp', banded=True).copy('control-banded'))
    out.append(nets.twin_controls(banded=True, sparse=True).copy('twin-controls-sparse-banded'))
    out.append(nets.flat(inertial_damping=False, internal_links=1).copy('flat-1link'))
    out.append(nets.tee(internal_links=2).copy('tee-2link'))
    out.append(nets.chain(('circular',), internal_links=6).copy('chain-6link'))
    for fm in ('hw', 'dw'):
        n = nets.tee().copy('tee-' + fm)
        for r in n.sl:
            r['friction_method'] = fm
            r['n'] = 120. if fm == 'hw' else .0015
        out.append(n)
    n = nets.loop().copy('loop-ctrl')
    for r in n.sl[:2]:
        r.update(ctrl=True, A_c=.4, C=1.5)
    out.append(n)
    n = nets.chain(('rect_open', 'wide'), h=.8).copy('chain-endcells')
    for r in n.sl:
        r.update(dx_uk=4., dx_dk=6.)
    out.append(n)
    b = n.copy('chain-endcells-b', bc_method='b')
    b.sl[0].update(n=.03, friction_method='cm')
    b.sl[1].update(n=120., friction_method='hw', C_uk=.4, C_dk=.9)
    out.append(b)
    out.append(nets.tee(bc_method='b').copy('tee-b'))
    out.append(nets.flat(inertial_damping=True).copy('flat-damped'))
    n = nets.chain(('rect_open', 'circular'), drop=1.2, h=.25, inertial_damping=True).copy('steep-damped')
    out.append(n)
    for meth in ('b', 'f', 'lsq'):
        for nl in (3, 9) if meth != 'lsq' else (3,):
            # flow against and along the direction of solution with very short steps
            # (least squares squares the condition number: few elements only)
            sj = [dict(z_inv=.02, h_0=.5, c=30., bc=True), dict(z_inv=.01, h_0=.7, c=20.), dict(z_inv=0., h_0=.9, c=30., bc=True)]
            sl = [nets.link(0, 1, 'rect_open', dx=60., h_0=.6, Q_0=-.3, g2=1.5),
                  nets.link(1, 2, 'circular', dx=40., h_0=.7, Q_0=.2)]
            out.append(nets.Net('brisk-%s-%d' % (meth, nl), sj, sl, internal_links=nl, method=meth))
    out.append(nets.drop_net(h=1e-5).copy('drop-dry'))
    out.append(nets.chain(('rect_open', 'circular'), h=1e-5).copy('chain-dry'))
    out.append(nets.chain(('circular',), h=2.6, bc_last=False).copy('chain-surcharged'))
    out.append(nets.tee(min_depth=.02).copy('tee-mindepth'))
    out.append(nets.chain(('rect_open', 'circular'), h=1e-5, min_depth=.04).copy('chain-mindepth-dry'))
    n = nets.flipped().copy('flipped-offsets')
    n.sl[0].update(in_offset=.1, out_offset=.25, C_uk=.2, C_dk=1.1)
    n.sl[1].update(in_offset=.05, out_offset=.0, C_uk=.9, C_dk=.3)
    out.append(n)
    return out


def action_list(net, tier):
    M = net.M
    free = [j for j in range(M) if not net.sj[j]['bc']]
    last = free[-1]
    def q(**kw):
        v = np.zeros(M)
        for j, x in kw.items():
            v[int(j[1:])] = x
        return v
    nl = net.kw['internal_links']
    qI = np.zeros(net.NK * (nl + 1))
    qI[nl // 2::nl + 1] = .05
    qI[:] += 1e-3
    Hb = np.array([r['z_inv'] for r in net.sj], float)
    acts = [
        ('rest', dict(Q_in=q(), dt=2.)),
        ('head', dict(Q_in=q(**{'j%d' % free[0]: .5}), dt=5.)),
        ('tail', dict(Q_in=q(**{'j%d' % last: 1.2}), dt=5., H_bc=Hb + 1.1)),
        ('long', dict(Q_in=q(**{'j%d' % free[0]: .05}), dt=60., H_bc=Hb + .25)),
        ('draw', dict(Q_in=q(**{'j%d' % free[0]: -.08}), dt=1.)),
        ('side', dict(Q_in=q(), dt=3., Q_0Ik=qI)),
    ]
    if net.name.startswith('brisk'):
        acts = [('short', dict(Q_in=q(), dt=.02)), ('shorter', dict(Q_in=q(j1=.1), dt=.002)), ('tenth', dict(Q_in=q(j1=-.1), dt=.2)),
                ('one', dict(Q_in=q(), dt=1., H_bc=Hb + np.array([.5, 0, .9]))), ('turn', dict(Q_in=q(), dt=3., H_bc=Hb + np.array([1., 0, .6]))),
                ('side', dict(Q_in=q(), dt=.05, Q_0Ik=qI))]
    n_o, n_w, n_p = len(net.orifices), len(net.weirs), len(net.pumps)
    for i, (name, a) in enumerate(acts):
        if n_o:
            a['u_o'] = np.array([[1., .5, .2][(i + j) % 3] for j in range(n_o)])
        if n_w:
            a['u_w'] = np.array([[.9, .3, 1.][(i + j) % 3] for j in range(n_w)])
        if n_p:
            a['u_p'] = np.array([[1., .4, 0.][(i + j) % 3] for j in range(n_p)])
    return acts


def iterated(acts, *names, n=3):
    """some actions as steps of several passes"""
    return {k: dict(a, num_iter=n, head_tol=0.) if k in names else a for k, a in dict(acts).items()}


def do(m, a):
    """apply one action; the caller's arrays are handed over as copies"""
    m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()})


def explore_net(net, depth, judge, tier, first=None, num_iter=1):
    """judge(rep, step, lay, history) is called on every transition"""
    rep = core.Report()
    lay = hydro.Layout(net)
    acts = action_list(net, tier)
    table = dict(acts)
    names = [n for n, _ in acts]
    m = net.build()
    hold = {}

    def apply(m, name):
        hold['b'] = hydro.before(m)
        a = dict(table[name])
        if num_iter > 1:
            # the last pass takes its coefficients at the outcome of the passes before it
            a['head_tol'] = 0.
            b = core.snap(m)
            do(m, dict(a, num_iter=num_iter - 1))
            hold['i'] = hydro.before(m)
            core.restore(m, b)
            a['num_iter'] = num_iter
            rep.count('iterated')
        do(m, a)
        return a

    def visit(m, bef, hist, a):
        if not np.isfinite(np.concatenate([m.H_j, m.h_Ik, m.Q_ik])).all():
            rep.violate('non-finite state', dict(net=net.name, history=hist))
            return False
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
        s = hydro.Step(lay, hold['b'], m, a['Q_in'], a['dt'], Q_Ik=a.get('Q_0Ik'), it=hold.get('i'))
        judge(rep, s, lay, hist)
        return True

    acts_now = names
    if first is not None:
        # shard on the first action
        base = first
        apply(m, base)
        rep.transitions += 1
        visit(m, None, (base,), dict(table[base]))
        core.explore(m, acts_now, apply, depth, visit, rep, prefix=(base,))
    else:
        core.explore(m, acts_now, apply, depth, visit, rep)
    if rep.traces:
        rep.sample(dict(net=net.name, options={k: str(v) for k, v in net.kw.items()}, alphabet=names,
                        depth=depth, final_H=m.H_j.tolist()))
    return rep


def run_all(tier, judge, depth=None, filt=None, num_iter=1):
    depth = depth or (4 if tier == 'quick' else 6)
    jobs = []
    for net in configs(tier):
        if filt and not filt(net):
            continue
        names = [n for n, _ in action_list(net, tier)]
        for f in names:
            jobs.append((net, depth, judge, tier, f, num_iter))
    return core.run_jobs(explore_net, jobs)
