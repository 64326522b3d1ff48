"""P39: the documented ways of finding depths and flows inside conduits give the same answer.

Models that differ only in `method` (b, f, lsq) go through every action sequence side by side; after every step heads, depths and
flows agree, in every conduit in which no method had to hold a depth at its limit."""
import itertools
import numpy as np
from mc import core, hydro, nets
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 50000, 'conduits': 120000, 'uneven': 2000}, 'thorough': {'steps': 400000, 'conduits': 1000000, 'uneven': 20000}}
ASSUMPTIONS = ['conduits in which a method held a depth at its minimum or maximum are not compared in that step; the models then go on from the state of the first',
               'agreement to 1e-6 (least squares squares the condition number: up to six elements)',
               'non-negative least squares is undocumented and not compared']
METHODS = ('b', 'f', 'lsq')
TOL = 1e-6


def catalogue():
    out = []
    for n in hb.configs('quick'):
        if 'method' in n.kw:
            continue
        out.append(n)
    for nl in (1, 2, 5):
        out.append(nets.loop(internal_links=nl).copy('loop-%dlink' % nl))
    n = nets.tee().copy('tee-capped')
    for r in n.sl:
        r['max_depth'] = .9
    out.append(n)
    return out


def agree(rep, ms, at, case, limit, mind):
    """compare the models; True if they may go on separately"""
    b = ms['b']
    ok = True
    for k, m in ms.items():
        if not core.close(m.H_j, b.H_j, TOL, TOL):
            rep.violate('heads are %s with %s, %s with b' % (m.H_j, k, b.H_j), case)
            return None
    for k, (I, i) in enumerate(at):
        if any((m.h_Ik[I] <= mind * 1.01).any() or (m.h_Ik[I] >= limit[k] - 1e-9).any() for m in ms.values()):
            ok = False
            rep.count('limited')
            continue
        rep.count('conduits')
        for nm, m in ms.items():
            sc = 1 + np.abs(b.Q_ik[i]).max()
            if not (core.close(m.h_Ik[I], b.h_Ik[I], TOL, TOL) and np.abs(m.Q_ik[i] - b.Q_ik[i]).max() <= TOL * sc):
                rep.violate('conduit %d has depths %s and flows %s with %s, %s and %s with b'
                            % (k, m.h_Ik[I], m.Q_ik[i], nm, b.h_Ik[I], b.Q_ik[i]), case)
                return None
            if not (core.close(m.Q_uk[k], b.Q_uk[k], TOL, TOL) and core.close(m.Q_dk[k], b.Q_dk[k], TOL, TOL)):
                rep.violate('conduit %d takes and gives %s, %s with %s, %s, %s with b' % (k, m.Q_uk[k], m.Q_dk[k], nm, b.Q_uk[k], b.Q_dk[k]), case)
                return None
    return ok


def walk(rep, ms, acts, at, depth, limit, mind, case0, count, first=()):
    meth = {k: m._method for k, m in ms.items()}

    def step(name):
        for m in ms.values():
            hb.do(m, acts[name])
        rep.transitions += len(ms)
        rep.count(count)
        rep.state(ms['b'].H_j, ms['b'].h_Ik, ms['b'].Q_ik)

    def sync():
        st = core.snap(ms['b'])
        for k, m in ms.items():
            if k != 'b':
                core.restore(m, st)
                m._method = meth[k]

    def after(hist):
        ok = agree(rep, ms, at, dict(case0, history=hist), limit, mind)
        if ok is False:
            sync()
        return ok is not None

    def rec(hist):
        if len(hist) >= depth:
            rep.traces += 1
            return
        st = {k: core.snap(m) for k, m in ms.items()}
        for name in acts:
            for k, m in ms.items():
                core.restore(m, st[k])
            step(name)
            if after(hist + (name,)):
                rec(hist + (name,))
    for name in first:
        step(name)
        if not after(tuple(first)):
            return
    rec(tuple(first))


def job(net, first, depth):
    rep = core.Report()
    lay = hydro.Layout(net)
    ms = {k: net.copy(method=k).build() for k in METHODS}
    at = [(K['I'], K['i']) for K in lay.K]
    limit = [K['hmax'] for K in lay.K]
    walk(rep, ms, dict(hb.action_list(net, 'quick')), at, depth, limit, net.kw.get('min_depth', 1e-5),
         dict(net=net.name, options=net.kw), 'steps', (first,))
    rep.sample(dict(net=net.name, first=first, depth=depth))
    return rep


def uneven(kind, counts, depth):
    from mc.checks import p31
    rep = core.Report()
    net = p31.join(p31.separate(kind))
    net.sj = [dict(z_inv=.5 - .12 * j, h_0=.6, a=0., b=0., c=6. + j, storage='functional', bc=False, max_depth=np.inf, map_x=0., map_y=0.)
              for j in range(len(kind) + 1)]
    net.sl = [dict(r, sj_0=k, sj_1=k + 1) for k, r in enumerate(net.sl)]
    ms = {k: p31.build_explicit(net, counts, method=k) for k in METHODS}
    I, i = np.cumsum([0] + [c + 1 for c in counts]), np.cumsum([0] + list(counts))
    at = [(slice(I[k], I[k + 1]), slice(i[k], i[k + 1])) for k in range(len(counts))]
    q = np.zeros(net.M)
    q[0] = .3
    qi = np.full(I[-1], .004)
    acts = {'in': dict(Q_in=q, dt=3.), 'out': dict(Q_in=-.2 * q, dt=7.), 'side': dict(dt=2., Q_0Ik=qi), 'rest': dict(dt=20.)}
    walk(rep, ms, acts, at, depth, [np.inf] * len(counts), 1e-5, dict(conduits=kind, elements=counts), 'uneven')
    rep.sample(dict(conduits=kind, elements=counts, depth=depth))
    return rep


def both(kind, *a):
    return job(*a) if kind == 'job' else uneven(*a)


def run(tier, seed):
    depth = 4 if tier == 'quick' else 5
    jobs = [('job', n, f, depth) for n in catalogue() for f in dict(hb.action_list(n, tier))]
    jobs += [('uneven', kind, c, 3 if tier == 'quick' else 5) for kind, n in (('ab', 2), ('bac', 3)) for c in itertools.product((1, 2, 4), repeat=n)]
    return core.run_jobs(both, jobs)
