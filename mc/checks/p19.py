"""P19: simulation clock and input sampling.  All sequences of step sizes to the depth
bound over networks (with and without renumbering), subsets of given series, sampling
methods, start times and explicit inputs, in lock-step with a plain model fed by
reference-sampled inputs; and the sampling function itself on all grids of a bounded set."""
import itertools
import numpy as np
import pandas as pd
from mc import core, nets, sims

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 5000, 'permuted': 1000, 'samples': 5000}, 'thorough': {'steps': 30000, 'samples': 10000}}
ASSUMPTIONS = ['series columns are in the order of the superjunction table, as documented (T x M)',
               'sampling refers to the time the step ends at; equally near samples may resolve either way']

DTS = [.5, 6.25, 10., 33.3]


def series_variants(n, tier):
    full = ['qhi', 'qh', 'q', 'h', 'i', '', 'qi', 'hi']
    return full


def job(kind, permute, method, which, start, tier):
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    n = sims.scene(kind, permute)
    tab = sims.series(n, which, stagger=2 if permute else 1)
    base = n.build()
    perm = np.asarray(base.permutations)
    if permute:
        assert not np.array_equal(perm, np.arange(n.M))
    s0 = core.snap(base)
    ref = sims.Ref(n, tab, method)
    r0 = core.snap(ref.m)
    given = [v for v in tab.values() if v is not None]
    ctl = {}
    if n.orifices:
        ctl['u_o'] = np.array([.7, .4][:len(n.orifices)])
    if n.weirs:
        ctl['u_w'] = np.array([.8, .3][:len(n.weirs)])
    if n.pumps:
        ctl['u_p'] = np.array([.6])
    z = np.array([r['z_inv'] for r in n.sj])
    explicit = [None, {'Q_in': np.linspace(.3, .1, n.M)}, {'H_bc': z + .95, 'Q_Ik': None}]
    depth = 3 if tier == 'quick' else 4
    tol = 1e-6 if permute else 1e-9
    for seq in itertools.product(DTS, repeat=depth):
        for ek, ex in enumerate(explicit):
            if ek and seq[0] != DTS[1] and tier == 'quick':
                continue
            core.restore(base, s0)
            core.restore(ref.m, r0)
            args = {k: v.copy() for k, v in tab.items() if v is not None}
            if start is not None:
                args['t_start'] = start
            sim = Simulation(base, dt=DTS[0], interpolation_method=method, **args)
            t0 = start if start is not None else (min(v.index[0] for v in given) if given else 0.)
            case = dict(net=n.name, method=method, series=which, start=start, steps=seq, explicit=ek)
            if abs(sim.t - t0) > 1e-9 or abs(base.t - t0) > 1e-9:
                rep.violate('simulation does not start at its start time', case, t=sim.t)
                return rep
            end = max(v.index[-1] for v in given) if given else np.inf
            if sim.t_end != end:
                rep.violate('end of the simulation is not the end of the series', case, t_end=sim.t_end)
                return rep
            ref.m.t = t0
            t = t0
            for k, dt in enumerate(seq):
                e = ex if k % 2 == 0 else None
                ekw = {}
                if e:
                    # explicit arrays are in the model's order
                    ekw = {a: (None if v is None else (v.copy() if a == 'Q_Ik' else v[perm])) for a, v in e.items()}
                more = dict(num_iter=3, head_tol=0.) if dt == DTS[2] else {}     # arguments handed on to the model
                sim.step(dt=dt, **ekw, **{a: v.copy() for a, v in ctl.items()}, **more)
                ref.step(dt, e, dict(ctl, **more))
                t += dt
                rep.transitions += 1
                rep.count('steps')
                if permute:
                    rep.count('permuted')
                if abs(sim.t - t) > 1e-9 or abs(base.t - t) > 1e-9:
                    rep.violate('clock did not advance by the step size', case, t=sim.t, expected=t)
                    return rep
                bad = sims.differs(sims.view(base), sims.view(ref.m), tol)
                if bad:
                    rep.violate('state differs from a model fed with the sampled inputs (%s)' % bad, case, at_step=k,
                                got=sims.view(base)[bad], want=sims.view(ref.m)[bad])
                    return rep
                rep.state(base.H_j, base.Q_ik, [base.t])
            rep.traces += 1
    # iteration limit
    for lim in (None, 0, 3):
        core.restore(base, s0)
        sim = Simulation(base, dt=1., max_iter=lim)
        got = 0
        for _ in sim.steps:
            got += 1
            if got > 6:
                break
        if got != (7 if lim is None else lim):
            rep.violate('iteration limit not respected', dict(max_iter=lim, got=got))
    rep.sample(dict(net=n.name, series=which, method=method, start=start))
    return rep


def job_kernel(nrow):
    """the sampling function on all small grids and query positions"""
    from pipedream_solver.nutils import interpolate_sample as f1
    from pipedream_solver.utils import interpolate_sample as f2
    rep = core.Report()
    gaps = [.25, 1., 4.]
    for gs in itertools.product(gaps, repeat=nrow - 1):
        for t0 in (-3., 0., 100.):
            ts = np.concatenate([[t0], t0 + np.cumsum(gs)]) if nrow > 1 else np.array([t0])
            v = np.array([[(7 * k + 3 * j) % 5 - 1.5 for j in range(3)] for k in range(nrow)])
            tab = pd.DataFrame(v, index=ts)
            qs = set()
            for a in ts:
                qs |= {a - 1e-6, a, a + 1e-6}
            for a, b in zip(ts, ts[1:]):
                qs |= {a + (b - a) * w for w in (.1, .4999, .5, .5001, .9)}
            qs |= {ts[0] - 50, ts[-1] + 50}
            for q in sorted(qs):
                for name, code in (('linear', 1), ('nearest', 0)):
                    want = sims.sample(q, tab, name)
                    for f in (f1, f2):
                        x, y = ts.copy(), v.copy()
                        got = np.array(f(q, x, y, code), float)
                        rep.count('samples')
                        rep.transitions += 1
                        if not any(np.allclose(got, w, atol=1e-12) for w in want):
                            rep.violate('sample is not the %s value' % name, dict(times=ts, t=q, got=got, want=want))
                            return rep
                        if not (np.array_equal(x, ts) and np.array_equal(y, v)):
                            rep.violate('sampling changed the series', dict(times=ts, t=q))
                            return rep
            rep.state(ts)
            rep.traces += 1
    return rep


def dispatch(kind, *a):
    return globals()[kind](*a)


def run(tier, seed):
    jobs = [('job_kernel', k) for k in ((1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6))]
    for kind in ('chain', 'tee', 'bc2', 'control'):
        for permute in (False, True):
            for method in ('linear', 'nearest'):
                for which in ('qhi', 'qh', 'q', 'h', 'i', '', 'qi', 'hi'):
                    if tier == 'quick' and method == 'nearest' and which not in ('qhi', 'q', 'h'):
                        continue
                    if tier == 'quick' and kind == 'bc2' and 'h' not in which:
                        continue
                    for start in (None, 18., 140.):
                        if tier == 'quick' and start is not None and (which not in ('qhi', '') or method == 'nearest'):
                            continue
                        jobs.append(('job', kind, permute, method, which, start, tier))
    return core.run_jobs(dispatch, jobs)


def coverage(rep):
    return dict(bounds='step-size sequences of depth 3 (4) over 4 sizes, 4 networks renumbered or not, all subsets of series')
