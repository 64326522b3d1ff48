"""P27: for one hydraulic history concentrations are linear in their sources, and constituents do not affect each other."""
import numpy as np
from mc import core
from mc.checks import _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 5000, 'superposed': 10000, 'alone': 5000, 'responses': 40000}, 'thorough': {'steps': 30000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'quality is stepped once after every hydraulic step with the same dt and the inputs of that step',
               'limits on concentrations (c_min, c_max) are not reached: all sources are non-negative']
PAR = [dict(D=0., K=0.), dict(D=.3, K=2e-3), dict(D='uneven', K='uneven')]


def basis(net):
    """[(name, initial state, inflow concentration at superjunctions, at junctions, boundary concentration)], and weights"""
    M = net.M
    nl = net.kw['internal_links']
    nI, ni = net.NK * (nl + 1), net.NK * nl
    z = lambda n: np.zeros(n)
    e = lambda n, j: np.eye(n)[j]
    out = [('initial at superjunction %d' % j, (z(nI), z(ni), e(M, j)), z(M), z(nI), z(M)) for j in range(M)]
    out += [('initial in conduits', (_wq.span(net)[0], _wq.span(net)[1], z(M)), z(M), z(nI), z(M))]
    out += [('inflow at superjunction %d' % j, (z(nI), z(ni), z(M)), e(M, j), z(nI), z(M)) for j in range(M)]
    out += [('inflow at junctions', (z(nI), z(ni), z(M)), z(M), np.ones(nI), z(M))]
    out += [('boundary %d' % j, (z(nI), z(ni), z(M)), z(M), z(nI), e(M, j)) for j in net.bcs()]
    w = np.array([[1., 2.5, .3, 7.][k % 4] for k in range(len(out))])
    return out, w


def job(net, depth, first, par):
    rep = core.Report()
    B, wt = basis(net)
    tot = lambda k: sum(w * b[k] for w, b in zip(wt, B))
    ini = tuple(sum(w * b[1][x] for w, b in zip(wt, B)) for x in range(3))
    src = [(b[1], b[2], b[3], b[4]) for b in B]
    all_ = (ini, tot(2), tot(3), tot(4))
    twice = (tuple(1e3 * x for x in ini), 1e3 * all_[1], 1e3 * all_[2], 1e3 * all_[3])
    ws = src + [all_, twice]
    mk = lambda s: (lambda m, n: _wq.quality(m, n, s[0], **(_wq.varied(n) if par == 2 else PAR[par])))
    con = lambda s: dict(c_0j=s[1], c_0Ik=s[2], c_bc=s[3])
    world = _wq.World(net, [mk(s) for s in ws])
    lone = _wq.World(net, [mk(all_)])
    hyds = _wq.actions(net)
    acts = [(a, h, [con(s) for s in ws]) for a, h in hyds]
    alone = {a: h for a, h in hyds}
    case = dict(net=net.name, **PAR[par])

    def judge(hist):
        c = [_wq.flat(_wq.conc(world.m, q)) for q in world.w]
        n = len(B)
        rep.count('responses', n)
        s = sum(w * x for w, x in zip(wt, c[:n]))
        tol = 1e-9 * (1 + np.abs(c[n]).max())
        rep.count('superposed')
        rep.evaluations += s.size
        if not (np.abs(s - c[n]) <= tol).all():
            k = int(np.argmax(np.abs(s - c[n])))
            rep.violate('superposed responses give %.9g, the model %.9g' % (s[k], c[n][k]), dict(case, history=hist), signature=net.name + ':sum')
            return False
        if not (np.abs(1e3 * c[n] - c[n + 1]) <= 1e3 * tol).all():
            rep.violate('a thousandfold of every source gives %g times' % (c[n + 1].max() / c[n].max()), dict(case, history=hist), signature=net.name + ':scale')
            return False
        return True

    def rec(hist, names):
        if len(hist) >= depth:
            rep.traces += 1
            return
        s0, s1 = world.snap(), lone.snap()
        for nm in names:
            world.restore(s0)
            lone.restore(s1)
            world.step(alone[nm], [con(s) for s in ws])
            lone.step(alone[nm], [con(all_)])
            rep.transitions += 1
            rep.count('steps')
            h = hist + (nm,)
            if not judge(h):
                continue
            a, b = _wq.flat(_wq.conc(world.m, world.w[len(B)])), _wq.flat(_wq.conc(lone.m, lone.w[0]))
            rep.state(a, world.m.H_j)
            rep.count('alone')
            if not np.array_equal(a, b):
                rep.violate('a constituent changes by %g when others are computed beside it' % np.abs(a - b).max(), dict(case, history=h), signature=net.name + ':alone')
                continue
            rec(h, list(alone))
        world.restore(s0)
        lone.restore(s1)
    if judge(()):
        rec((), [first])
    rep.sample(dict(net=net.name, sources=[b[0] for b in B], actions=[a for a, _ in hyds], depth=depth))
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 4
    return core.run_jobs(job, [(n, depth, a, p) for n in _wq.catalogue(tier) for a, _ in _wq.actions(n) for p in range(len(PAR))])
