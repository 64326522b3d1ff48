"""P25: water of one concentration everywhere stays so under any hydraulics."""
import numpy as np
from mc import core
from mc.checks import _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 20000, 'clamped': 200, 'reversed': 2000, 'diffusive': 5000}, 'thorough': {'steps': 200000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'quality is stepped once after every hydraulic step with the same dt', 'no decay']
C0 = 2.5


def job(net, depth, first):
    rep = core.Report()
    mk = [lambda m, n: _wq.quality(m, n, C0), lambda m, n: _wq.quality(m, n, C0, D=.3), lambda m, n: _wq.quality(m, n, C0, D=_wq.varied(n)['D'])]
    w = _wq.World(net, mk)
    nI = net.NK * (net.kw['internal_links'] + 1)
    con = dict(c_0j=np.full(net.M, C0), c_0Ik=np.full(nI, C0), c_bc=np.full(net.M, C0))
    acts = [(a, h, [con] * 3) for a, h in _wq.actions(net)]
    lay = _wq.Layout(net)

    def judge(world, hist):
        for k, q in enumerate(world.w):
            c = _wq.conc(world.m, q)
            for e in c:
                if not np.all(np.abs(c[e] - C0) <= 1e-8 * C0):
                    rep.violate('uniform concentration %g became %s..%s' % (C0, c[e].min(), c[e].max()),
                                dict(net=net.name, history=hist, diffusion=('none', 'even', 'uneven')[k]), element=e, signature='%s:%s' % (net.name, e))
                    return False
            rep.evaluations += flat_size(c)
        return True

    def visit(world, bef, act, hist):
        rep.count('steps')
        rep.count('diffusive')
        if _wq.clamped(net, lay, world.m):
            rep.count('clamped')
        if (world.m.Q_ik < -1e-6).any() or (world.m.Q_uk < -1e-6).any() or (world.m.Q_dk < -1e-6).any():
            rep.count('reversed')
        return judge(world, hist)
    if judge(w, ()):
        _wq.explore(w, acts, depth, visit, rep, first)
    rep.sample(dict(net=net.name, actions=[a[0] for a in acts], depth=depth))
    return rep


def flat_size(c):
    return sum(v.size for v in c.values())


def run(tier, seed):
    depth = 4 if tier == 'quick' else 5
    return core.run_jobs(job, [(n, depth, a) for n in _wq.catalogue(tier) for a, _ in _wq.actions(n)])
