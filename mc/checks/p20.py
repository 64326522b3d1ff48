"""P20: adaptive stepping.  All sequences of Simulation.step calls (plain, subdivided,
with retries, different norms and limits) to the depth bound, in lock-step with a plain
model that takes only the accepted sub-steps."""
import itertools
import numpy as np
from mc import core, nets, sims

LEVEL = 'model_checking'
FLOOR = {'quick': {'calls': 8000, 'rejected': 2000, 'accepted_at_limit': 100, 'accepted_by_tolerance': 200, 'min_dt_stops': 100},
         'thorough': {'calls': 80000, 'rejected': 20000}}
ASSUMPTIONS = ['error: heads of the coarse minus the fine solution, scaled by 1e-6 + 1e-3 |head| (larger of the last two sub-steps), '
               'normed by the requested norm (0: share of differing heads, 1: mean, 2: root mean square, -1: largest)']
EPS = np.finfo(float).eps

# label -> arguments of Simulation.step
CALLS = {
    'plain': dict(dt=8.),
    'halves': dict(dt=10., subdivisions=2),
    'thirds-max': dict(dt=6., subdivisions=3, norm=-1, num_iter=2, head_tol=0.),
    'retry-never-good': dict(dt=16., subdivisions=2, retries=2, tol=1e-9),
    'retry-mean': dict(dt=24., subdivisions=2, retries=5, tol=.05, norm=1),
    'retry-default-tol': dict(dt=30., subdivisions=3, retries=4),
    'retry-max': dict(dt=40., subdivisions=2, retries=10, tol=.4, norm=-1),
    'retry-min-dt': dict(dt=12., subdivisions=2, retries=9, tol=1e-12),
    'retry-no-subdivision': dict(dt=5., retries=3, tol=1e-9),
    'share': dict(dt=9., subdivisions=2, retries=1, norm=0, tol=.1),
}


def norm_of(e, norm):
    n = e.size
    if norm == 0:
        v = (np.abs(e) > 0).sum() / n
    elif norm == 1:
        v = np.abs(e).sum() / n
    elif norm == 2:
        v = np.sqrt((e**2).sum() / n)
    else:
        v = np.abs(e).max()
    return max(v, EPS)


def doubtful(e, norm, free):
    """the share of differing heads is decided by rounding"""
    return norm == 0 and bool((np.abs(e[free]) < 1e-6).any())


def ref_step(ref, call, min_dt, rep, ctl, explicit, level=0):
    """the accepted sequence applied to ref; returns (dt accepted, error, margin)"""
    dt, subs = call['dt'], call.get('subdivisions', 1)
    retries, tol, norm = call.get('retries', 0), call.get('tol', 1), call.get('norm', 2)
    ctl = dict(ctl, **{k: call[k] for k in ('num_iter', 'head_tol') if k in call})
    s = core.snap(ref.m)
    ref.step(dt, explicit, ctl)
    if subs == 1:
        return dt, None, np.inf
    coarse = ref.m.H_j.copy()
    core.restore(ref.m, s)
    for k in range(subs):
        prev = ref.m.H_j.copy()
        ref.step(dt / subs, explicit, ctl)
    fine = ref.m.H_j.copy()
    e = (coarse - fine) / (1e-6 + 1e-3 * np.maximum(np.abs(fine), np.abs(prev)))
    err = norm_of(e, norm)
    margin = 0. if doubtful(e, norm, ~ref.m.bc) else abs(err - tol) / max(tol, 1e-300)
    if retries and err > tol and dt / 2 > min_dt:
        rep.count('rejected')
        core.restore(ref.m, s)
        d, er, mg = ref_step(ref, dict(call, dt=dt / 2, retries=retries - 1), min_dt, rep, ctl, explicit, level + 1)
        return d, er, min(mg, margin)
    if retries and err > tol:
        rep.count('min_dt_stops')
    elif level and not retries:
        rep.count('accepted_at_limit')
    elif retries:
        rep.count('accepted_by_tolerance')
    return dt, err, margin


def job(kind, which, min_dt, first, depth, explicit_on):
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    n = sims.scene(kind)
    tab = sims.series(n, which)
    base = n.build()
    s0 = core.snap(base)
    ref = sims.Ref(n, tab, 'linear')
    r0 = core.snap(ref.m)
    ctl = {}
    if n.orifices:
        ctl['u_o'] = np.array([.7, .4][:len(n.orifices)])
        ctl['u_w'] = np.array([.8, .3][:len(n.weirs)])
        ctl['u_p'] = np.array([.6])
    ex = {'Q_in': np.linspace(.4, .05, n.M)} if explicit_on else None
    for rest in itertools.product(CALLS, repeat=depth - 1):
        seq = (first,) + rest
        core.restore(base, s0)
        core.restore(ref.m, r0)
        sim = Simulation(base, dt=5., min_dt=min_dt, max_dt=100., **{k: v.copy() for k, v in tab.items() if v is not None})
        ref.m.t = base.t
        dts, errs = [5.], list(sim.errs)
        case = dict(net=n.name, series=which, min_dt=min_dt, calls=seq, explicit=explicit_on)
        recorded = None
        for k, lab in enumerate(seq):
            call = CALLS[lab]
            t0 = base.t
            recs = {a: dict(getattr(sim.states, a)) for a in sim.states.__dict__}
            sim.step(**dict(call), **({'Q_in': ex['Q_in'].copy()} if ex else {}), **{a: v.copy() for a, v in ctl.items()})
            d, err, margin = ref_step(ref, call, min_dt, rep, ctl, ex)
            rep.transitions += 1
            rep.count('calls')
            rep.state(base.H_j, base.Q_ik, [base.t])
            if margin < 1e-6:
                rep.count('undecided')
                break
            if abs(base.t - t0 - d) > 1e-9:
                rep.violate('clock advanced by other than the accepted step', case, at=k, t=base.t, t_before=t0, accepted=d)
                return rep
            bad = sims.differs(sims.view(base), sims.view(ref.m), 1e-10)
            if bad:
                rep.violate('state is not that of the accepted sub-steps alone (%s)' % bad, case, at=k,
                            got=sims.view(base)[bad], want=sims.view(ref.m)[bad])
                return rep
            # prescribed heads agree to rounding only, which may or may not count as a difference
            slack = ref.m.bc.sum() / n.M if call.get('norm') == 0 else 0.
            if (err is None) != (sim.err is None) or (err is not None and abs(sim.err - err) > 1e-9 * (1 + err) + slack):
                rep.violate('reported error is not the coarse minus the fine solution', case, at=k, got=sim.err, want=err)
                return rep
            dts = ([d] + dts)[:3]
            errs = ([sim.err] + errs)[:3]
            if list(sim.errs) != errs:
                rep.violate('error history is not the errors of the accepted steps', case, at=k, got=list(sim.errs), want=errs)
                return rep
            if list(sim.dts) != dts or sim.errs[0] != sim.err:
                rep.violate('step-size history contains other than accepted steps', case, at=k, got=list(sim.dts), want=dts)
                return rep
            if sim.dt != d:
                rep.violate('current step size is not the accepted one', case, at=k, got=sim.dt, want=d)
                return rep
            for a, v in recs.items():
                if set(getattr(sim.states, a)) != set(v):
                    rep.violate('stepping recorded data by itself', case, at=k)
                    return rep
        rep.traces += 1
    rep.sample(dict(net=n.name, first=first, min_dt=min_dt, depth=depth))
    return rep


def run(tier, seed):
    q = tier == 'quick'
    jobs = []
    for kind, which in (('chain', 'qh'), ('bc2', 'h'), ('control', 'q'), ('flat', 'qi'), ('low', 'q'), ('deep', 'q'), ('tee', '')):
        for min_dt in ((1., 5.) if q else (1., 5., .1)):
            for first in CALLS:
                depth = 3
                if q and (kind in ('control', 'tee', 'low', 'deep') or min_dt == 5.):
                    depth = 2
                jobs.append((kind, which, min_dt, first, depth, False))
        jobs += [(kind, which, 1., first, 2, True) for first in CALLS]
    return core.run_jobs(job, jobs)


def coverage(rep):
    return dict(bounds='all sequences of 10 kinds of step calls to depth 3 (2 for some), 7 networks, minimum steps 1 and 5')
