"""P05: prescribed heads are imposed exactly, and only at boundary superjunctions."""
import itertools
import numpy as np
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'bc_heads': 20000, 'twins': 4000}, 'thorough': {'bc_heads': 100000, 'twins': 20000}}
ASSUMPTIONS = ['prescribed heads lie between invert and invert plus maximum depth (others are clamped, P06)',
               'with renumbering the inputs are handed over in the model\'s own order (permutations), as documented']


def networks():
    out = [nets.chain(('rect_open',), bc_last=False), nets.chain(('rect_open', 'circular'), bc_last=False),
           nets.tee(), nets.loop(), nets.parallel(), nets.flipped(), nets.control(which='owp'),
           nets.chain(('trapezoidal', 'wide', 'rect_open'), bc_last=False)]
    for n in out:
        for r in n.sj:
            r['bc'] = False
    return out


SOLVERS = [('dense', {}, None), ('sparse', dict(sparse=True), None), ('banded', {}, True), ('permuted', dict(auto_permute=True), None)]


def job(net, subset, solver, depth):
    rep = core.Report()
    net = net.copy()
    for j in range(net.M):
        net.sj[j]['bc'] = j in subset
    name, kw, banded = solver
    m = net.build(**kw)
    perm = np.asarray(m.permutations)
    z = np.array([r['z_inv'] for r in net.sj])[perm]
    bc = np.array([r['bc'] for r in net.sj])[perm]
    M = net.M
    if not np.array_equal(np.asarray(m.bc), bc):
        rep.violate('boundary flags %s, table says %s' % (m.bc, bc), dict(net=net.name, solver=name))
        return rep
    stag = z + .3 + .4 * np.arange(M)
    ctl = {}
    if net.orifices:
        ctl['u_o'] = np.ones(len(net.orifices))
    if net.weirs:
        ctl['u_w'] = .7 * np.ones(len(net.weirs))
    if net.pumps:
        ctl['u_p'] = np.ones(len(net.pumps))
    q = np.zeros(M)
    q[0] = .6
    q[-1] = -.05
    acts = {'keep': dict(H_bc=None, Q_in=None, dt=4.),
            'low': dict(H_bc=z + .02, Q_in=q, dt=10.),
            'stag': dict(H_bc=stag, Q_in=None, dt=30.),
            'high': dict(H_bc=stag[::-1].copy() + 1.5, Q_in=q[::-1].copy(), dt=1.)}

    def apply(m, a):
        kw = dict(acts[a], **ctl)
        if banded is not None:
            kw['banded'] = banded
        H0 = m.H_j.copy()
        base = core.snap(m)
        res = []
        for variant in (0, 1):
            if variant:
                if kw['H_bc'] is None:
                    break
                core.restore(m, base)
                h = kw['H_bc'].copy()
                h[~bc] += 1e3 * (1 + np.arange((~bc).sum()))
                kw = dict(kw, H_bc=h)
            m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
            res.append((m.H_j.copy(), m.h_Ik.copy(), m.Q_ik.copy()))
        # iterated version of the same step ends at the same prescribed heads
        core.restore(m, base)
        m.step(num_iter=3, head_tol=1e-8, **{k: (v.copy() if isinstance(v, np.ndarray) else v)
                                             for k, v in dict(acts[a], **ctl).items()})
        itd = m.H_j.copy()
        core.restore(m, base)
        m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v)
                  for k, v in dict(acts[a], **ctl, **({} if banded is None else dict(banded=banded))).items()})
        return H0, acts[a]['H_bc'], res, itd

    def visit(m, _, hist, out):
        H0, Hb, res, itd = out
        want = H0 if Hb is None else Hb
        case = dict(net=net.name, boundaries=list(subset), solver=name, history=hist)
        if not np.isfinite(m.H_j).all():
            rep.violate('non-finite heads', case)
            return False
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
        for label, H in (('single', m.H_j), ('iterated', itd)):
            bad = np.abs(H - want)[bc] > 1e-9
            rep.count('bc_heads', int(bc.sum()))
            if bad.any():
                rep.violate('prescribed %s, got %s (%s step)' % (want[bc], H[bc], label), case)
                return False
        if len(res) == 2 and not bc.all():
            rep.count('twins')
            if not all(np.array_equal(a, b) for a, b in zip(*res)):
                rep.violate('value prescribed at a free superjunction changes the result: %s vs %s'
                            % (res[0][0], res[1][0]), case)
                return False
        return True

    core.explore(m, list(acts), apply, depth, visit, rep)
    rep.sample(dict(net=net.name, boundaries=list(subset), solver=name))
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 4
    jobs = []
    for net in networks():
        for r in range(1, net.M + 1):
            for s in itertools.combinations(range(net.M), r):
                for sol in SOLVERS:
                    jobs.append((net, s, sol, depth))
    return core.run_jobs(job, jobs)
