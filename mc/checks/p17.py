"""P17: water balance and bounds of infiltration.  All sequences of (step size, rain,
ponding set from outside) to the depth bound, for every soil and both classes; after every
step the balance, the bounds and a one-step independent reference are compared."""
import itertools
import math
import numpy as np
from mc import core, soil

LEVEL = 'model_checking'
FLOOR = {'quick': {'saturated': 5000, 'ponded': 2000, 'ponds_within_the_step': 2000, 'absorbed': 2000, 'drizzle': 2000,
                   'dry': 500, 'new_event': 500},
         'thorough': {'saturated': 50000, 'dry': 5000, 'new_event': 5000}}
ASSUMPTIONS = ['rain is non-negative; the ponded depth is only changed from outside between steps',
               'nothing is compared about the saturation mark when rounding decides which side of the limit a step is on']

# (dt, rain as a multiple of Ks, ponded depth set beforehand or None)
ACTS = [(60., 0., None), (60., .4, None), (60., 3., None), (60., 40., None), (900., 0., None), (900., 1., None),
        (3600., 4., None), (900., 25., None), (1800., 0., .004), (400000., 0., None)]
MORE = [(10., 1.3, None), (300., 0., .02), (40000., 0., None), (7200., 2., .001), (1e6, 0., None)]


def classes():
    from pipedream_solver.hydrology import GreenAmpt as N
    from pipedream_solver.infiltration import GreenAmpt as S
    return {'compiled': N, 'scalar': S}


def judge(m, ref, before, dt, i, act, cls, names, hist, rep):
    """every element of m after one step from `before`"""
    case0 = dict(soils=names, cls=cls, history=hist)
    for n, nm in enumerate(names):
        so = ref[nm]
        b, a = before[n], soil.state(m, n)
        case = dict(case0, soil=nm, before=b, after=a, Q=float(m.Q[n]), rain=float(i[n]), dt=dt)
        tol = 2e-7 + 1e-9 * max(b['F'], a['F'])
        if not all(math.isfinite(v) for v in a.values()) or not math.isfinite(m.Q[n]):
            rep.violate('state of the soil not finite', case)
            return False
        ia = i[n] + b['d'] / dt
        # water balance and bounds, from the step's own numbers
        if not -1e-12 <= a['f'] * dt <= ia * dt + tol:
            rep.violate('infiltration rate outside 0 .. available water', case, available=ia)
            return False
        cap = so.ponded(max(b['F'], 0.), dt, b['theta_d']) - max(b['F'], 0.)
        if a['f'] * dt > cap + tol:
            rep.violate('infiltrated more than the soil can take under unlimited supply', case, capacity=cap / dt)
            return False
        if a['F'] < 0:
            rep.violate('cumulative infiltration negative', case)
            return False
        if ia > 0 and abs(a['F'] - b['F'] - a['f'] * dt) > 1e-12 + 1e-9 * a['F']:
            rep.violate('cumulative infiltration did not change by rate times time step', case)
            return False
        if abs(m.Q[n] - max(i[n] - a['f'], 0.) * so.A) > 1e-12 + 1e-9 * i[n] * so.A:
            rep.violate('runoff is not the rain in excess of infiltration times the area', case)
            return False
        if a['d'] < 0 or abs(b['d'] + (i[n] - a['f']) * dt - a['d']) > tol:
            rep.violate('ponded depth did not change by rain minus infiltration', case)
            return False
        if not (-1e-12 <= a['theta_du'] <= so.dmax + 1e-12 and -1e-12 <= a['theta_d'] <= so.dmax + 1e-12):
            rep.violate('moisture outside residual .. saturated', case)
            return False
        # one-step reference
        e, Q, kase, slack = so.step(b, dt, i[n])
        rep.count(kase.replace(' ', '_'))
        sure = slack > 1e-6
        if abs(a['F'] - e['F']) > tol + 1e-5 * (so.kr * so.dmax * so.Lu * dt if kase == 'dry' else 0):
            if sure or kase not in ('dry', 'new event'):
                rep.violate('cumulative infiltration is not that of the soil (%s)' % kase, case, expected=e)
                return False
        if sure:
            if abs(a['theta_du'] - e['theta_du']) > 1e-9 + 2e-5 * so.dmax + 3e-7 / so.Lu \
                    or abs(a['theta_d'] - e['theta_d']) > 1e-9 + 2e-5 * so.dmax:
                rep.violate('moisture deficit is not that of the soil (%s)' % kase, case, expected=e)
                return False
            if abs(a['T'] - e['T']) > 1e-5 * max(so.Tr, dt):
                rep.violate('time to the next event is not that of the soil (%s)' % kase, case, expected=e)
                return False
            if a['is_saturated'] != e['is_saturated']:
                rep.violate('soil marked %ssaturated (%s)' % ('' if a['is_saturated'] else 'un', kase), case, expected=e)
                return False
    return True


def apply(m, ref, names, act, shift):
    dt, r, d = act
    if d is not None:
        m.d = np.array([d * (1 + n) / 2 for n in range(len(names))])
    # each soil sees its own multiple, so that one step mixes all cases
    mult = [r * (1. if n % 2 == 0 else shift) for n in range(len(names))]
    i = np.array([x * ref[nm].K for x, nm in zip(mult, names)])
    before = [soil.state(m, n) for n in range(len(names))]
    i0 = i.copy()
    m.step(dt, i)
    if not np.array_equal(i, i0):
        i[:] = i0
    return before, dt, i


def job(cls, names, first, depth, acts, shift):
    rep = core.Report()
    ref = {n: soil.Soil(**soil.SOILS[n]) for n in names}
    m = classes()[cls](soil.table(names))

    def rec(hist):
        for act in acts:
            s = core.snap(m)
            before, dt, i = apply(m, ref, names, act, shift)
            rep.transitions += 1
            h = hist + (act,)
            rep.state(*[list(soil.state(m, n).values()) for n in range(len(names))])
            ok = judge(m, ref, before, dt, i, act, cls, names, h, rep)
            if ok and m.iter_count != len(h) or abs(m.t - sum(x[0] for x in h)) > 1e-9 * m.t:
                rep.violate('clock or counter of the infiltration model wrong', dict(cls=cls, history=h, t=m.t, n=m.iter_count))
                ok = False
            if ok and len(h) < depth:
                rec(h)
            else:
                rep.traces += 1
            core.restore(m, s)
            if len(rep.violations) > 5:
                return
    hist = ()
    for act in first:
        before, dt, i = apply(m, ref, names, act, shift)
        hist += (act,)
        rep.transitions += 1
        if not judge(m, ref, before, dt, i, act, cls, names, hist, rep):
            return rep
    rec(hist)
    rep.sample(dict(cls=cls, soils=names, first=first, shift=shift, depth=depth))
    return rep


def run(tier, seed):
    names = list(soil.SOILS)
    sets = [(ACTS, 4, (2.5,))] if tier == 'quick' else [(ACTS, 5, (1., 2.5, .2)), (ACTS + MORE, 4, (.6, 4.))]
    jobs = [(c, names, (a,), depth, acts, sh) for acts, depth, shifts in sets
            for c in ('compiled', 'scalar') for a in acts for sh in shifts]
    return core.run_jobs(job, jobs)


def coverage(rep):
    return dict(bounds='5 soils together, both classes, all sequences of 10 actions to depth 4 (thorough: depth 5, three rain distributions, and 15 actions to depth 4)')
