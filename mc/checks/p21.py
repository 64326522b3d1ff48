"""P21: suggested step sizes.  All histories of step sizes and errors over a grid, every
recommended filter and limit combination; bounds, monotonicity in the current error and
the documented formula.  Histories are given directly and built up by real steps."""
import itertools
import math
from collections import deque
import numpy as np
from mc import core, nets, sims

LEVEL = 'model_checking'
FLOOR = {'quick': {'suggestions': 100000, 'monotone_pairs': 50000, 'from_steps': 500}, 'thorough': {'suggestions': 1000000}}
ASSUMPTIONS = ['three accepted steps with a finite positive error on record; before that the current step size is kept']

FILTERS = {'h0100': [1, 0, 0, 0, 0], 'h0211': [1 / 2, 1 / 2, 0, 1 / 2, 0], 'h211': [1 / 6, 1 / 6, 0, 0, 0],
           'h0312': [1 / 4, 1 / 2, 1 / 4, 3 / 4, 1 / 4], 'h312': [1 / 18, 1 / 9, 1 / 18, 0, 0],
           'h0321': [5 / 4, 1 / 2, -3 / 4, -1 / 4, -3 / 4], 'h321': [1 / 3, 1 / 18, -5 / 18, -5 / 6, -1 / 6]}


def formula(tol, dts, errs, c, lo, hi, rlo, rhi, safety, k):
    b1, b2, b3, a2, a3 = c
    f = (tol / errs[0])**(b1 / k) * (tol / errs[1])**(b2 / k) * (tol / errs[2])**(b3 / k) \
        * (dts[0] / dts[1])**(-a2) * (dts[1] / dts[2])**(-a3)
    f = min(max(f, rlo), rhi) * safety
    return min(max(f * dts[0], lo), hi)


def make(**kw):
    from pipedream_solver.simulation import Simulation
    n = sims.scene('flat')
    m = n.build()
    return Simulation(m, **kw), m, n


def job_grid(name, tier):
    rep = core.Report()
    es = [1e-12, 1e-3, .2, .5, 1., 30., 1e9] if tier == 'quick' else [2.3e-16, 1e-9, 1e-3, .1, .2, .5, 1., 4., 30., 1e4, 1e12]
    ds = [.5, 10., 80.] if tier == 'quick' else [.01, .5, 7., 10., 80.]
    lims = [(1., 200., 1e-10, 1e10), (5., 20., .5, 2.), (.1, 1e4, .2, 5.)]
    for lo, hi, rlo, rhi in lims:
        sim, m, n = make(dt=10., min_dt=lo, max_dt=hi, min_rel_change=rlo, max_rel_change=rhi)
        c = FILTERS[name]
        if list(getattr(sim, name)) != c:
            rep.violate('recommended filter coefficients differ from the documented ones', dict(filter=name, got=getattr(sim, name)))
            return rep
        for dts in itertools.product(ds, repeat=3):
            for e2, e1 in itertools.product(es, repeat=2):
                last = None
                for tol, safety, k in ((.5, 1., 2), (.25, .9, 2), (1., 1., 3)) if tier != 'quick' else ((.25, .9, 2), (1., 1., 3)):
                    last = None
                    for e0 in es:
                        errs = (e0, e1, e2)
                        args = dict(tol=tol, coeffs=list(c), safety_factor=safety, k=k)
                        got = sim.filter_step_size(dts=list(dts), errs=list(errs), **args)
                        want = formula(tol, dts, errs, c, lo, hi, rlo, rhi, safety, k)
                        rep.count('suggestions')
                        rep.transitions += 1
                        case = dict(filter=name, dts=dts, errs=errs, limits=(lo, hi, rlo, rhi), **args)
                        if not lo <= got <= hi:
                            rep.violate('suggested step outside its limits', case, got=got)
                            return rep
                        if abs(got - want) > 1e-9 * want:
                            rep.violate('suggested step is not that of the documented filter', case, got=got, want=want)
                            return rep
                        if last is not None:
                            rep.count('monotone_pairs')
                            if got > last * (1 + 1e-12):
                                rep.violate('larger error suggests larger step', case, got=got, smaller_error_gave=last)
                                return rep
                        last = got
                    rep.traces += 1
                # the history on record is used when none is given, explicit limits override
                sim.dts = deque(dts, maxlen=3)
                sim.errs = deque((es[2], e1, e2), maxlen=3)
                got = sim.filter_step_size(tol=.25, coeffs=list(c))
                want = formula(.25, dts, (es[2], e1, e2), c, lo, hi, rlo, rhi, 1., 2)
                got2 = sim.filter_step_size(tol=.25, coeffs=list(c), min_dt=2., max_dt=15., min_rel_change=.1, max_rel_change=3.)
                want2 = formula(.25, dts, (es[2], e1, e2), c, 2., 15., .1, 3., 1., 2)
                # everything left out: half the tolerance, second order with step-size memory
                got3, want3 = sim.filter_step_size(), formula(.5, dts, (es[2], e1, e2), FILTERS['h0211'], lo, hi, rlo, rhi, 1., 2)
                rep.count('suggestions', 3)
                if abs(got3 - want3) > 1e-9 * want3:
                    rep.violate('suggested step is not that of the documented filter (nothing given)',
                                dict(dts=dts, errs=(es[2], e1, e2), limits=(lo, hi)), got=got3, want=want3)
                    return rep
                if abs(got - want) > 1e-9 * want or abs(got2 - want2) > 1e-9 * want2:
                    rep.violate('suggested step is not that of the documented filter (recorded history)',
                                dict(filter=name, dts=dts, errs=(es[2], e1, e2), limits=(lo, hi)), got=(got, got2), want=(want, want2))
                    return rep
                if list(sim.dts) != list(dts) or list(sim.errs) != [es[2], e1, e2]:
                    rep.violate('suggesting a step changed the history', dict(filter=name))
                    return rep
                rep.state(dts, (e1, e2), (lo,))
    return rep


def job_elementary(tier):
    """compute_step_size: limits, monotonicity"""
    rep = core.Report()
    es = [1e-15, 1e-6, 1e-3, .01, .2, .5, 1., 30., 1e9]
    for lo, hi, rlo, rhi in [(1., 200., 1e-10, 1e10), (5., 20., .5, 2.), (.1, 1e4, .2, 5.)]:
        for tol in (.01, .5):
            for sf in (.9, 1.):
                sim, m, n = make(dt=10., min_dt=lo, max_dt=hi, min_rel_change=rlo, max_rel_change=rhi, tol=tol, safety_factor=sf)
                for dt in (.5, 2., 10., 80.):
                    last = None
                    for e in es:
                        for how in (0, 1, 2, 3):
                            sim.dt, sim.err = (33., .77) if how in (0, 2) else (dt, e)
                            L = dict(min_dt=lo, max_dt=hi, tol=tol, min_rel_change=rlo, max_rel_change=rhi, safety_factor=sf)
                            ex = {}
                            if how == 2:        # all limits given, other than those of the simulation
                                ex = dict(min_dt=3., max_dt=40., tol=.2, min_rel_change=.3, max_rel_change=3., safety_factor=.8)
                            elif how == 3:
                                ex = [dict(min_dt=3.), dict(max_dt=40.), dict(tol=.2), dict(min_rel_change=.3), dict(max_rel_change=3.),
                                      dict(safety_factor=.8)][(es.index(e) + int(dt)) % 6]
                            got = sim.compute_step_size(**(dict(dt=dt, err=e) if how in (0, 2) else {}), **ex)
                            L.update(ex)
                            if L['min_dt'] > L['max_dt'] or L['min_rel_change'] > L['max_rel_change']:
                                continue
                            want = min(max(L['safety_factor'] * dt * min(max(math.sqrt(L['tol'] / 2 / e), L['min_rel_change']),
                                                                         L['max_rel_change']), L['min_dt']), L['max_dt'])
                            rep.count('suggestions')
                            rep.transitions += 1
                            case = dict(dt=dt, err=e, tol=tol, limits=(lo, hi, rlo, rhi), safety=sf, given=ex)
                            if not L['min_dt'] <= got <= L['max_dt'] or abs(got - want) > 1e-9 * want:
                                rep.violate('elementary step suggestion wrong or outside its limits', case, got=got, want=want)
                                return rep
                            if how < 2 and last is not None and got > last * (1 + 1e-12):
                                rep.violate('larger error suggests larger step', case, got=got)
                                return rep
                            if how == 1:
                                first = got
                        last = first
                    rep.traces += 1
                    rep.state([dt, tol, lo, sf])
    return rep


def job_steps(first, tier):
    """histories built up by real steps: the suggestion uses the last three accepted ones"""
    rep = core.Report()
    calls = [dict(dt=4., subdivisions=2), dict(dt=30., subdivisions=2, norm=-1), dict(dt=12., subdivisions=3, retries=2, tol=1e-3),
             dict(dt=9.)]
    depth = 4 if tier == 'quick' else 5
    sim, m, n = make(dt=10.)
    s0 = core.snap(m)
    from pipedream_solver.simulation import Simulation
    tab = sims.series(n, 'q')
    for rest in itertools.product(range(len(calls)), repeat=depth - 1):
        seq = (first,) + rest
        core.restore(m, s0)
        sim = Simulation(m, dt=10., Q_in=tab['Q_in'].copy(), min_dt=2., max_dt=50.)
        hist = []
        for k, c in enumerate(seq):
            t0 = m.t
            sim.step(**calls[c])
            hist.insert(0, (m.t - t0, sim.err))
            rep.transitions += 1
            rep.state(m.H_j, [m.t])
            h = hist[:3]
            for name, co in FILTERS.items():
                got = sim.filter_step_size(tol=.25, coeffs=getattr(sim, name))
                rep.count('from_steps')
                case = dict(filter=name, calls=seq[:k + 1], history=h)
                if len(h) == 3 and all(e is not None for _, e in h):
                    want = formula(.25, [d for d, _ in h], [e for _, e in h], co, 2., 50., 1e-10, 1e10, 1., 2)
                    if abs(got - want) > 1e-6 * want:
                        rep.violate('suggestion does not follow from the accepted steps', case, got=got, want=want)
                        return rep
                    if not 2. <= got <= 50.:
                        rep.violate('suggested step outside its limits', case, got=got)
                        return rep
                elif not (np.isfinite(got) and got > 0):
                    rep.violate('suggested step not a positive number', case, got=got)
                    return rep
        rep.traces += 1
    return rep


def dispatch(kind, *a):
    return globals()[kind](*a)


def run(tier, seed):
    jobs = [('job_grid', f, tier) for f in FILTERS] + [('job_elementary', tier)] + [('job_steps', k, tier) for k in range(4)]
    return core.run_jobs(dispatch, jobs)


def coverage(rep):
    return dict(bounds='7 filters x 3 limit sets x 27 step histories x 343 error histories; real-step histories to depth 4 (5)')
