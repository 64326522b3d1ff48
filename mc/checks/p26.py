"""P26: concentrations are finite, never negative, within the configured limits, and create no new extremes."""
import numpy as np
from mc import core
from mc.checks import _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 10000, 'free': 20000, 'limited': 10000, 'limit_active': 3000, 'decaying': 20000, 'reversed': 5000, 'clamped': 400},
         'thorough': {'steps': 150000, 'limit_active': 5000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'quality is stepped once after every hydraulic step with the same dt and the inputs of that step']
LIM = (.4, 1.3)
# diffusion and decay that differ from element to element are filled in for the network at hand
MODELS = [dict(D=0., K=0.), dict(D=.5, K=0.), dict(D=0., K=5e-3), dict(D=.2, K=1., ), dict(D=.1, K=0., c_min=LIM[0], c_max=LIM[1]),
          dict(D='uneven', K=0.), dict(D='uneven', K='uneven')]


def actions(net):
    """the usual ones, and very short and very long steps"""
    acts = _wq.actions(net)
    d = dict(acts)
    acts.append(('tiny', dict(d['head'], dt=1e-3)))
    acts.append(('huge', dict(d['tail'], dt=600.)))
    return acts


def inputs(net):
    M = net.M
    nI = net.NK * (net.kw['internal_links'] + 1)
    out = {}
    for s, (a, h) in enumerate(actions(net)):
        c = dict(c_0j=np.array([[0., 30., 1.2, .4][(s + j) % 4] for j in range(M)]),
                 c_0Ik=np.array([[2., 0., .5][(s + j) % 3] for j in range(nI)]))
        if s % 2:
            c['c_bc'] = np.array([[.7, 20., 0.][(s + j) % 3] for j in range(M)])
        out[a] = c
    return out


def job(net, depth, first):
    rep = core.Report()
    ini = _wq.span(net, 0, 0., 2.)
    M = net.M
    nI = net.NK * (net.kw['internal_links'] + 1)
    cin = inputs(net)
    w = _wq.World(net, [(lambda m, n, p=p: _wq.quality(m, n, ini, **{x: (_wq.varied(n)[x] if v == 'uneven' else v) for x, v in p.items()})) for p in MODELS])
    acts = [(a, h, [cin[a]] * len(MODELS)) for a, h in actions(net)]
    bc = net.bcs()
    lay = _wq.Layout(net)

    def bad(rep, what, case, sig):
        rep.violate(what, case, signature='%s:%s' % (net.name, sig))
        return False

    def visit(world, bef, act, hist):
        rep.count('steps')
        if _wq.clamped(net, lay, world.m):
            rep.count('clamped')
        if (world.m.Q_ik < -1e-6).any() or (world.m.Q_uk < -1e-6).any() or (world.m.Q_dk < -1e-6).any():
            rep.count('reversed')
        hyd = act[1]
        for k, q in enumerate(world.w):
            p = MODELS[k]
            case = dict(net=net.name, history=hist, **p)
            c0, c1 = _wq.flat(bef[1 + k]), _wq.flat(_wq.conc(world.m, q))
            rep.evaluations += c1.size
            if not np.isfinite(c1).all():
                return bad(rep, 'concentration is not finite', case, 'finite')
            if c1.min() < 0.:
                return bad(rep, 'concentration %g is negative' % c1.min(), case, 'sign')
            if 'c_min' in p:
                rep.count('limited')
                if c1.min() < LIM[0] or c1.max() > LIM[1]:
                    return bad(rep, 'concentrations %g..%g leave the limits' % (c1.min(), c1.max()), case, 'limits')
                if (c1 == LIM[0]).any() or (c1 == LIM[1]).any():
                    rep.count('limit_active')
                continue
            con = act[2][k]
            src = [c0]
            Qj = hyd.get('Q_in', np.zeros(M))
            src.append(con['c_0j'][Qj > 0])
            QI = hyd.get('Q_0Ik', np.zeros(nI))
            src.append(con['c_0Ik'][QI > 0])
            if 'c_bc' in con:
                src.append(con['c_bc'][bc])
            s = np.concatenate(src)
            lo, hi = s.min(), s.max()
            tol = 1e-9 * (1 + hi)
            rep.count('decaying' if p['K'] else 'free')
            if c1.max() > hi + tol:
                return bad(rep, 'concentration %.9g exceeds all that was there or came in (%.9g)' % (c1.max(), hi), case, 'max')
            if not p['K'] and c1.min() < lo - tol:
                return bad(rep, 'concentration %.9g is below all that was there or came in (%.9g)' % (c1.min(), lo), case, 'min')
        # decay only lowers
        a, b = _wq.flat(_wq.conc(world.m, world.w[0])), _wq.flat(_wq.conc(world.m, world.w[2]))
        if (b > a + 1e-9 * (1 + a.max())).any():
            return bad(rep, 'decay raises a concentration by %g' % (b - a).max(), dict(net=net.name, history=hist), 'decay')
        return True
    if all(np.isfinite(_wq.flat(_wq.conc(w.m, q))).all() for q in w.w):
        _wq.explore(w, acts, depth, visit, rep, first)
    else:
        bad(rep, 'concentration is not finite in a new model', dict(net=net.name), 'finite')
    rep.sample(dict(net=net.name, actions=[a[0] for a in acts], depth=depth))
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 5
    return core.run_jobs(job, [(n, depth, a) for n in _wq.catalogue(tier) for a, _ in actions(n)])
