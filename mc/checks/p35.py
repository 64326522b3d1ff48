"""P35: only differences of elevation matter, the clock may start at any time, and map coordinates play no part.

Twin models: one as tabulated, the other with every elevation raised or lowered by the same amount (and the map moved).
Every action sequence to a depth is taken by both in lock step, with hydraulics alone, with water quality on top, and
inside simulations that start at another time."""
import itertools
import numpy as np
import pandas as pd
from mc import core, nets, sims
from mc.checks import _hydrobase as hb, _wq, p31

LEVEL = 'model_checking'
FLOOR = {'quick': {'hydraulics': 15000, 'tabulated': 300, 'quality': 1500, 'simulated': 1000},
         'thorough': {'hydraulics': 100000, 'quality': 10000, 'simulated': 3000}}
ASSUMPTIONS = ['agreement to 1e-5 (1e-4 with orifices): the constructor settles the network with a step of a microsecond, which turns rounding of '
               'elevations into flows of 1e-8 m3/s',
               'dry networks and heads exactly at a threshold of a structure are left out: there rounding of elevations decides the branch taken']
TOL = 1e-5
LEVELS = (4.75, -9.5)
CLOCKS = (7200., 86400.)


def raised(net, z, moved=True):
    n = net.copy()
    for j, r in enumerate(n.sj):
        r['z_inv'] += z
        if moved:
            r.update(map_x=1000. - 3. * j, map_y=-20. + (j * j) % 5)
    return n


def look(m, z):
    inv = np.argsort(np.asarray(m.permutations))
    d = dict(H=m.H_j[inv] - z, h=m.h_Ik, Q=m.Q_ik, Qu=m.Q_uk, Qd=m.Q_dk, A=m.A_sj[inv], V=m.V_j[inv], x=m.x_Ik, bed=m._z_inv_Ik - z,
             dx=m._dx_ik, S=m._S_o_ik)
    d = {k: np.array(v, float) for k, v in d.items()}
    for o in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + o[1:]):
            d[o] = np.array(getattr(m, o), float)
    return d


def unlike(a, b, tol):
    for k in a:
        if a[k].shape != b[k].shape or not core.close(a[k], b[k], tol, tol):
            return k


def lift(a, z):
    a = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()}
    if 'H_bc' in a:
        a['H_bc'] = a['H_bc'] + z
    return a


def together(rep, a, b, z, acts, first, depth, case, key, perm=None):
    tol = 1e-4 if a.n_o else TOL
    k = unlike(look(a, 0.), look(b, z), tol)
    if k:
        rep.violate('%s differs at the start when the datum is moved' % k, case)
        return

    def rec(hist, names):
        if len(hist) == depth:
            rep.traces += 1
            return True
        sa, sb = core.snap(a), core.snap(b)
        for nm in names:
            core.restore(a, sa)
            core.restore(b, sb)
            act = acts[nm]
            if perm is not None:
                act = {k: (v[perm] if k in ('Q_in', 'H_bc') else v) for k, v in act.items()}
            a.step(**lift(act, 0.))
            b.step(**lift(act, z))
            rep.transitions += 1
            rep.count(key)
            x, y = look(a, 0.), look(b, z)
            rep.state(x['H'], x['h'], x['Q'])
            k = unlike(x, y, tol)
            if k:
                rep.violate('%s is %s, with the datum moved %s' % (k, x[k], y[k]), dict(case, ops=hist + (nm,)))
                return False
            if not rec(hist + (nm,), list(acts)):
                return False
        core.restore(a, sa)
        core.restore(b, sb)
        return True
    rec((), [first] if first else list(acts))


def hydraulics(net, z, first, depth):
    rep = core.Report()
    a, b = net.build(), raised(net, z).build()
    perm = np.asarray(a.permutations)
    together(rep, a, b, z, hb.iterated(hb.action_list(net, 'quick'), 'long'), first, depth, dict(net=net.name, datum=z), 'hydraulics', perm)
    if rep.traces:
        rep.sample(dict(net=net.name, datum=z, options={k: str(v) for k, v in net.kw.items()}, final=a.H_j.tolist()))
    return rep


def tabulated(net, z, depth):
    """inverts of interior junctions given in a table"""
    from pipedream_solver.hydraulics import SuperLink
    rep = core.Report()
    kw = {k: v for k, v in net.kw.items() if k != 'internal_links'}

    def make(n):
        sl, links, juncs = p31.explicit(n, (3,) * n.NK)
        t = n.tables()
        t['superlinks'] = sl
        return SuperLink(links=links, junctions=juncs, **t, **kw)
    a, b = make(net), make(raised(net, z))
    acts = hb.iterated(hb.action_list(net, 'quick'), 'long')
    together(rep, a, b, z, acts, None, depth, dict(net=net.name, datum=z, junctions='tabulated'), 'tabulated')
    return rep


def quality(net, z, depth):
    rep = core.Report()
    c0 = _wq.span(net, 1, .2, 3.)
    par = _wq.varied(net)
    mk = [lambda m, n: _wq.quality(m, n, c0, **par)]
    A, B = _wq.World(net, mk), _wq.World(raised(net, z), mk)
    con = dict(c_0j=np.linspace(1., 3., net.M), c_0Ik=np.full(net.NK * (net.kw['internal_links'] + 1), .8), c_bc=np.linspace(.2, .6, net.M))
    acts = dict(_wq.actions(net))
    tol = 1e-4 if net.orifices else TOL

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return True
        sa, sb = A.snap(), B.snap()
        for nm, act in acts.items():
            A.restore(sa)
            B.restore(sb)
            A.step(act, [con])
            B.step(lift(act, z), [con])
            rep.transitions += 1
            rep.count('quality')
            x, y = _wq.conc(A.m, A.w[0]), _wq.conc(B.m, B.w[0])
            rep.state(_wq.flat(x))
            k = unlike(x, y, tol)
            if k:
                rep.violate('c_%s is %s, with the datum moved %s' % (k, x[k], y[k]), dict(net=net.name, datum=z, ops=hist + (nm,)))
                return False
            if not rec(hist + (nm,)):
                return False
        A.restore(sa)
        B.restore(sb)
        return True
    rec(())
    return rep


def simulated(kind, permute, z, clock, method, depth):
    """the same simulation at another level and another time of day"""
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    net = sims.scene(kind, permute)
    M = net.M
    Z = np.array([r['z_inv'] for r in net.sj]) + .8 + .1 * np.arange(M)
    # the error of adaptive steps is relative to the heads: other clock only
    ops = ['sampled', 'long', 'filter'] if z else ['sampled', 'adaptive', 'filter']
    case = dict(scene=net.name, datum=z, clock=clock, interpolation=method)

    def make(z, clock):
        n = raised(net, z, moved=False)
        tab = sims.series(n, 'qhi')
        for t in tab.values():
            t.index = [x + clock for x in t.index]
        m = n.build()
        s = Simulation(m, dt=4., interpolation_method=method, min_dt=.5, max_dt=30., tol=.05, Qcov=.02, Rcov=.3, **tab)
        return s

    def run(z, clock, seq):
        s = make(z, clock)
        p = np.asarray(s.model.permutations)
        out = []
        s.__enter__()

        def put():
            v = sims.view(s.model)
            v['H_j'] = v['H_j'] - z
            v['t'] = s.t - clock
            v['dt'] = s.dt
            v['cov'] = np.array(s.P_x_k_k)
            out.append(v)
        put()
        for op in seq:
            if op == 'sampled':
                s.step(dt=6.)
                s.record_state()
            elif op == 'long':
                s.step(dt=17.)
                s.record_state()
            elif op == 'adaptive':
                s.step(dt=min(max(s.compute_step_size(), .5), 30.), subdivisions=2, retries=1, tol=.5, norm=2)
                s.record_state()
            else:
                s.kalman_filter((Z + z)[p], dt=6.)
            put()
        s.__exit__(None, None, None)
        h = s.states
        rec = dict(H=h.H_j.values - z, t=np.asarray(h.H_j.index, float) - clock, Q=h.Q_ik.values, h=h.h_Ik.values)
        return out, rec
    for seq in itertools.product(ops, repeat=depth):
        if seq[0] == 'filter':
            continue
        (x, rx), (y, ry) = run(0., 0., seq), run(z, clock, seq)
        rep.traces += 1
        rep.transitions += len(seq)
        rep.count('simulated')
        tol = 1e-4 if net.orifices else TOL
        for i, (u, v) in enumerate(zip(x, y)):
            rep.state(u['H_j'], u['Q_ik'])
            k = sims.differs(u, v, tol)
            if k:
                rep.violate('%s is %s, at another level and time %s' % (k, u[k], v[k]), dict(case, ops=seq[:i]))
                return rep
        k = unlike(rx, ry, tol)
        if k:
            rep.violate('recorded %s differs at another level and time' % k, dict(case, ops=seq))
            return rep
    return rep


def dispatch(kind, *a):
    return dict(hydraulics=hydraulics, tabulated=tabulated, quality=quality, simulated=simulated)[kind](*a)


def catalogue():
    out = [n for n in hb.configs('quick') if not n.name.startswith('brisk') and not n.name.endswith('-dry')]
    n = nets.tee().copy('tee-tabular')
    for j, r in enumerate(n.sj):
        r.update(storage='tabular', table='t%d' % (j % 2))
    n.storages = {'t0': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.])), 't1': dict(h=np.array([.2, 5.]), A=np.array([12., 18.]))}
    out.append(n)
    n = nets.tee().copy('tee-capped')
    for r in n.sj[:2]:
        r['max_depth'] = 1.4
    for r in n.sl:
        r['max_depth'] = 2.5
    out.append(n)
    out.append(nets.loop(auto_permute=True).copy('loop-permuted'))
    out.append(nets.control(which='owp', auto_permute=True).copy('control-permuted'))
    out.append(nets.outfall())
    for k in (1, 4):
        out.append(nets.chain(('rect_open', 'circular'), drop=.6, h=.4, mobile_elements=True, internal_links=3 + k).copy('mobile-%d' % k))
    return out


def run(tier, seed):
    depth = 3 if tier == 'quick' else 4
    jobs = []
    for net in catalogue():
        for z in LEVELS:
            for nm, _ in hb.action_list(net, 'quick'):
                jobs.append(('hydraulics', net, z, nm, depth))
    for net in (nets.tee(), nets.flipped(), nets.drop_net(), nets.irregular()):
        for z in LEVELS:
            jobs.append(('tabulated', net, z, depth - 1))
    for net in _wq.catalogue():
        if net.name.endswith('-dry'):
            continue
        if net.weirs:
            net = net.copy()
            for j, r in enumerate(net.sj):
                r['h_0'] += .013 * (j + 1)
        for z in LEVELS:
            jobs.append(('quality', net, z, depth - 1))
    for kind in ('chain', 'tee', 'bc2', 'control', 'flat'):
        for permute in (False, True):
            for method in ('linear', 'nearest'):
                for z, c in [(z, CLOCKS[0]) for z in LEVELS] + [(0., c) for c in CLOCKS]:
                    jobs.append(('simulated', kind, permute, z, c, method, depth + (tier != 'quick')))
    return core.run_jobs(dispatch, jobs)
