"""P41: concentrations recovered from either end of a conduit are the same, and are the ones reported.

After every transition of every sequence of hydraulic actions and concentration inputs: the concentrations of all elements given by the
recurrences from the downstream and from the upstream end equal the reported ones, and solving the inside of the conduits in the
other direction leaves the reported concentrations as they are."""
import numpy as np
from mc import core
from mc.checks import _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 15000, 'recovered': 400000, 'resolved': 15000, 'uneven': 5000, 'reversed': 1000},
         'thorough': {'steps': 90000, 'recovered': 2000000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'limits on concentrations wide enough not to be met; conduits with an element that neither stores nor receives water are not judged']
KINDS = ('plain', 'diffusive', 'decaying', 'uneven')


def job(net, depth, first):
    rep = core.Report()
    nl = net.kw['internal_links']
    nI = net.NK * (nl + 1)
    sp = _wq.span(net, lo=.2, hi=3.)
    v = _wq.varied(net)
    wide = dict(c_min=-1e12, c_max=1e12)
    mk = [lambda m, n: _wq.quality(m, n, sp, **wide), lambda m, n: _wq.quality(m, n, sp, D=.3, **wide),
          lambda m, n: _wq.quality(m, n, sp, K=2e-3, D=.02, **wide), lambda m, n: _wq.quality(m, n, sp, K=v['K'], D=v['D'], **wide)]
    w = _wq.World(net, mk)
    a = np.arange
    c1 = dict(c_0j=1. + .5 * (a(net.M) % 3), c_0Ik=.4 + .3 * (a(nI) % 4), c_bc=2. - .6 * (a(net.M) % 3))
    acts = [(n, h, [c1 if i % 3 else dict(c_bc=c1['c_bc'] * (1 + i))] * len(mk)) for i, (n, h) in enumerate(_wq.actions(net))]

    def visit(world, bef, act, hist):
        rep.count('steps')
        if (world.m.Q_ik < -1e-6).any():
            rep.count('reversed')
        for kind, q in zip(KINDS, world.w):
            case = dict(net=net.name, history=hist, model=kind)
            cI, ci = np.array(q.c_Ik), np.array(q.c_ik)
            own = ci
            cb, cf = q.link_concentrations_from_recurrence()
            den = np.array(q._lambda_Ik)
            good = np.ones(net.NK, bool)
            for k in range(net.NK):
                I = slice(k * (nl + 1) + 1, k * (nl + 1) + nl)
                good[k] = bool((den[I] > 1e-9).all())
            for k in np.flatnonzero(good):
                i = slice(k * nl, k * nl + nl)
                sc = 1e-7 * max(1., np.abs(ci[i]).max(), np.abs(cI[k * (nl + 1):(k + 1) * (nl + 1)]).max())
                rep.count('recovered', 2 * nl)
                for nm, got in (('downstream', cb), ('upstream', cf)):
                    if np.shape(got) != np.shape(own) or not np.all(np.abs(got[i] - own[i]) <= sc):
                        rep.violate('from the %s end conduit %d has concentrations %s, reported %s' % (nm, k, got[i] if np.shape(got) == np.shape(own) else np.shape(got), own[i]),
                                    case, signature='%s:%s' % (net.name, nm))
                        return False
            base = core.snap(q)
            q.solve_internals_forwards()
            for k in np.flatnonzero(good):
                i, I = slice(k * nl, k * nl + nl), slice(k * (nl + 1), (k + 1) * (nl + 1))
                if not (core.close(q.c_ik[i], ci[i], 1e-7, 1e-8) and core.close(q.c_Ik[I], cI[I], 1e-7, 1e-8)):
                    rep.violate('solved forwards conduit %d has %s at its links, %s at its junctions, reported %s and %s' % (k, q.c_ik[i], q.c_Ik[I], ci[i], cI[I]),
                                case, signature='%s:forwards' % net.name)
                    return False
            core.restore(q, base)
            rep.count('resolved')
            if kind == 'uneven':
                rep.count('uneven')
        return True
    _wq.explore(w, acts, depth, visit, rep, first)
    rep.sample(dict(net=net.name, actions=[x[0] for x in acts], depth=depth))
    return rep


def run(tier, seed):
    depth = 4 if tier == 'quick' else 5
    return core.run_jobs(job, [(n, depth, x) for n in _wq.catalogue(tier) for x, _ in _wq.actions(n)])
