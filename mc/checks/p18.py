"""P18: Green-Ampt relation and independence of soil elements.  In every state reached by
action sequences: the ponded Green-Ampt equation holds, splitting a step in two does not
matter, a wetter soil takes less, and every subset and order of the elements, in either
class, gives each element what it gets alone."""
import itertools
import math
import numpy as np
from mc import core, soil
from mc.checks.p17 import ACTS, MORE, classes

LEVEL = 'model_checking'
FLOOR = {'quick': {'equation': 5000, 'splits': 5000, 'orderings': 3000, 'capacity_pairs': 1000},
         'thorough': {'equation': 50000, 'splits': 50000, 'orderings': 10000}}
ASSUMPTIONS = ['splitting is compared where the soil can take no more than falls at the start of the step, or where no water is ponded and the rain is constant']
VARS = ('f', 'F', 'd', 'Q', 'T', 'theta_d', 'theta_du')


def rains(ref, names, r, shift):
    return {nm: r * (1. if k % 2 == 0 else shift) * ref[nm].K for k, nm in enumerate(soil.SOILS)}


def do(m, ref, names, act, shift):
    dt, r, d = act
    allnames = list(soil.SOILS)
    if d is not None:
        m.d = np.array([d * (1 + allnames.index(nm)) / 2 for nm in names])
    i = rains(ref, names, r, shift)
    m.step(dt, np.array([i[nm] for nm in names]))
    return dt, i


def same(a, b, tolF):
    """two elements' outcomes (dicts with Q) agree"""
    dtF = tolF
    for k in ('F', 'd'):
        if abs(a[k] - b[k]) > dtF:
            return k
    for k in ('theta_d', 'theta_du', 'T'):
        if abs(a[k] - b[k]) > 1e-9 * (1 + abs(a[k])) + (0 if k == 'T' else 1e-4):
            return k
    return None


def full(m, n):
    s = soil.state(m, n)
    s['Q'] = float(m.Q[n])
    return s


def job_seq(cls, first, depth, acts, shift):
    """the ponded equation and step splitting in every reached state"""
    rep = core.Report()
    names = list(soil.SOILS)
    ref = {n: soil.Soil(**soil.SOILS[n]) for n in names}
    m = classes()[cls](soil.table(names))

    def rec(hist):
        for act in acts:
            s = core.snap(m)
            if act[2] is not None:
                m.d = np.array([act[2] * (1 + n) / 2 for n in range(len(names))])
            b = [soil.state(m, n) for n in range(len(names))]
            base = core.snap(m)
            act_ = (act[0], act[1], None)
            dt, i = do(m, ref, names, act_, shift)
            rep.transitions += 1
            h = hist + (act,)
            a = [full(m, n) for n in range(len(names))]
            rep.state(*[list(x.values()) for x in a])
            after = core.snap(m)
            parts = {}
            for w in (.5, .3):
                core.restore(m, base)
                do(m, ref, names, (dt * w, act[1], None), shift)
                do(m, ref, names, (dt * (1 - w), act[1], None), shift)
                parts[w] = [full(m, n) for n in range(len(names))]
            core.restore(m, after)
            for n, nm in enumerate(names):
                so, x, y = ref[nm], b[n], a[n]
                ia = i[nm] + x['d'] / dt
                td = x['theta_d']
                aa = so.psi * td
                supply_ok = so.rate(x['F'], td) <= i[nm] * (1 - 1e-9)
                tol = 3e-7 + 1e-9 * y['F']
                case = dict(soil=nm, cls=cls, history=h, shift=shift, before=x, after=y, rain=i[nm], dt=dt)
                cap = so.ponded(x['F'], dt, td) - x['F']
                if x['is_saturated'] and cap < ia * dt * (1 - 1e-9) and x['F'] > 0:
                    rep.count('equation')
                    lhs = y['F'] - x['F'] - (aa * math.log((y['F'] + aa) / (x['F'] + aa)) if aa > 0 else 0.)
                    slope = y['F'] / (y['F'] + aa)
                    if abs(lhs - so.K * dt) > 1e-12 + slope * tol:
                        rep.violate('saturated infiltration does not satisfy the Green-Ampt equation', case, lhs=lhs, rhs=so.K * dt)
                crossing = x['d'] == 0 and not x['is_saturated'] and i[nm] > so.K * (1 + 1e-9) and x['F'] >= 0 \
                    and so.rate(x['F'], td) > i[nm] * (1 + 1e-9)
                Fs = so.K * aa / (i[nm] - so.K) if i[nm] > so.K else math.inf
                near = min([abs(x['F'] + i[nm] * q * dt - Fs) for q in (1, .5, .3)])
                light = x['d'] == 0 and not x['is_saturated'] and 0 < i[nm] <= so.K
                if supply_ok or (crossing and near > 1e-6) or light:
                    for w, z in parts.items():
                        rep.count('splits')
                        k = same(y, z[n], 2 * tol)
                        if k or (y['is_saturated'] != z[n]['is_saturated']):
                            rep.violate('splitting the step changed %s' % (k or 'is_saturated'), case, split=w, in_two=z[n])
            if rep.violations:
                return
            if len(h) < depth:
                rec(h)
            else:
                rep.traces += 1
            core.restore(m, s)
    hist = ()
    for act in first:
        do(m, ref, names, act, shift)
        hist += (act,)
    rec(hist)
    rep.sample(dict(cls=cls, first=first, depth=depth))
    return rep


def job_sets(first, depth, acts, shift, nsub):
    """every subset and order of the soils, both classes, lock-step with each soil alone"""
    rep = core.Report()
    C = classes()
    allnames = list(soil.SOILS)
    ref = {n: soil.Soil(**soil.SOILS[n]) for n in allnames}
    groups = [g for k in nsub for g in itertools.permutations(allnames, k)]
    alone = {(c, nm): C[c](soil.table([nm])) for c in C for nm in allnames}
    many = {(c, g): C[c](soil.table(list(g))) for c in C for g in groups}

    def compare(hist):
        base = {nm: full(alone['scalar', nm], 0) for nm in allnames}
        for nm in allnames:
            z = full(alone['compiled', nm], 0)
            y = base[nm]
            k = same(y, z, 3e-7 * len(hist))
            if k or (y['is_saturated'] != z['is_saturated'] and y['d'] > 1e-6):
                rep.violate('compiled and scalar class disagree on %s' % (k or 'is_saturated'),
                            dict(soil=nm, history=hist, shift=shift, scalar=y, compiled=z))
        for (c, g), m in many.items():
            rep.count('orderings')
            for n, nm in enumerate(g):
                y, z = full(alone[c, nm], 0), full(m, n)
                bad = [k for k in y if abs(y[k] - z[k]) > 1e-13 + 1e-12 * abs(y[k])]
                if bad:
                    rep.violate('soil simulated with others differs from the soil alone in %s' % bad[0],
                                dict(cls=c, soils=g, soil=nm, history=hist, shift=shift, alone=y, together=z))
                    return

    def rec(hist):
        for act in acts:
            s1 = {k: core.snap(m) for k, m in alone.items()}
            s2 = {k: core.snap(m) for k, m in many.items()}
            for (c, nm), m in alone.items():
                do(m, ref, [nm], act, shift)
            for (c, g), m in many.items():
                do(m, ref, g, act, shift)
            rep.transitions += 1
            h = hist + (act,)
            compare(h)
            rep.state(*[list(full(m, 0).values()) for m in alone.values()])
            if rep.violations:
                return
            if len(h) < depth:
                rec(h)
            else:
                rep.traces += 1
            for k, m in alone.items():
                core.restore(m, s1[k])
            for k, m in many.items():
                core.restore(m, s2[k])
    for act in first:
        for (c, nm), m in alone.items():
            do(m, ref, [nm], act, shift)
        for (c, g), m in many.items():
            do(m, ref, g, act, shift)
    compare(first)
    rec(first)
    return rep


def job_capacity(cls, dt):
    """capacity over a step falls as cumulative infiltration grows (all else equal)"""
    rep = core.Report()
    names = list(soil.SOILS)
    grid = np.array([1e-6, 1e-5, 1e-4, 5e-4, 1e-3, 3e-3, .01, .03, .1, .3, 1., 5.])
    for nm in names:
        so = soil.Soil(**soil.SOILS[nm])
        for frac in (1., .6, .2, 0.):
            m = classes()[cls](soil.table([nm] * len(grid)))
            m.F[:] = grid
            m.theta_d[:] = so.dmax * frac
            m.is_saturated[:] = True
            m.step(dt, np.full(len(grid), 1e3))
            rep.transitions += 1
            rep.traces += 1
            rep.state(m.F, m.f)
            f = m.f.copy()
            for n in range(len(grid) - 1):
                rep.count('capacity_pairs')
                if f[n + 1] > f[n] + 1e-7 / dt:
                    rep.violate('capacity grew with cumulative infiltration', dict(soil=nm, cls=cls, dt=dt, F=grid[n:n + 2], f=f[n:n + 2]))
            for n in range(len(grid)):
                want = (so.ponded(grid[n], dt, so.dmax * frac) - grid[n]) / dt
                if abs(f[n] - want) * dt > 3e-7 + 1e-8 * grid[n] or f[n] < so.K - 1e-7 / dt:
                    rep.violate('capacity differs from the Green-Ampt capacity', dict(soil=nm, cls=cls, dt=dt, F=grid[n], f=f[n], want=want))
    return rep


def dispatch(kind, *a):
    return globals()[kind](*a)


def run(tier, seed):
    q = tier == 'quick'
    acts = ACTS
    jobs = []
    for c in ('compiled', 'scalar'):
        for sh in ((2.5,) if q else (1., 2.5, .2)):
            jobs += [('job_seq', c, (a,), 4 if q else 5, acts, sh) for a in acts]
        jobs += [('job_capacity', c, dt) for dt in ((1., 60., 3600.) if q else (.1, 1., 10., 60., 600., 3600., 86400.))]
    few = [ACTS[0], ACTS[1], ACTS[3], ACTS[5], ACTS[6], ACTS[8]]
    jobs += [('job_sets', (a,), 3, few if q else ACTS, 2.5, (2, 3) if q else (2, 3, 5)) for a in ACTS]
    if q:
        jobs += [('job_sets', (a,), 3, [ACTS[3], ACTS[4], ACTS[8]], .2, (5,)) for a in few]
    jobs.sort(key=lambda j: 0 if j[0] == 'job_sets' else 1)
    return core.run_jobs(dispatch, jobs)


def coverage(rep):
    return dict(bounds='5 soils, both classes, sequences of 10 actions to depth 3 (4); all orders of 2 and 3 soils (and of all 5)')
