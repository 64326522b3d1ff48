"""P22: recorded results.  All sequences of stepping, recording, warm-up and adaptive
steps to the depth bound; the tables delivered at the end are compared with independent
copies taken when recording, column by column, by name."""
import itertools
import numpy as np
import pandas as pd
from mc import core, nets, sims

LEVEL = 'model_checking'
FLOOR = {'quick': {'tables': 5000, 'records': 3000, 'permuted': 500}, 'thorough': {'tables': 50000}}
ASSUMPTIONS = ['the initial state of the simulation is recorded by itself, at its start time',
               'columns of internal junctions and links and of structures are numbered in table order']
ACTS = {
    'step': lambda s: s.step(dt=7.),
    'adaptive': lambda s: s.step(dt=20., subdivisions=2, retries=2, tol=1e-9),
    'record': lambda s: s.record_state(),
    'direct': lambda s: s.model.step(dt=3., Q_in=np.full(s.model.M, .02)),
    'load': lambda s: s.load_state(),
    'heads': lambda s: s.record_state({'H_j': 'j', 'Q_uk': 'k'}),
}
COLS = {'H_j': 'j', 'Q_uk': 'k', 'Q_dk': 'k'}


def truth(m):
    """state keyed by quantity, by position in model order, plus name->head from the caller's table order"""
    return {k: v for k, v in sims.view(m).items() if k != 't'}


def job(kind, permute, first, depth, warm, mobile=False):
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    n = sims.scene(kind, permute)
    if mobile:
        n.kw.update(mobile_elements=True)
    tab = sims.series(n, 'q', times=[0., 15., 40., 90.])
    base = n.build()
    if warm:
        base.spinup(n_steps=3, dt=5.)
    s0 = core.snap(base)
    names_j = [r['name'] for r in n.sj]
    names_k = [r['name'] for r in n.sl]
    for rest in itertools.product(ACTS, repeat=depth - 1):
        seq = (first,) + rest
        core.restore(base, s0)
        case = dict(net=n.name, actions=seq, warm=warm, mobile=mobile)
        with Simulation(base, dt=5., Q_in=tab['Q_in'].copy()) as sim:
            book = {q: {float(base.t): v} for q, v in truth(base).items()}
            back = False
            for a in seq:
                t_before = base.t
                ACTS[a](sim)
                rep.transitions += 1
                if base.t < t_before:
                    back = True
                if a in ('record', 'heads'):
                    rep.count('records')
                    for q, v in truth(base).items():
                        if a == 'record' or q in ('H_j', 'Q_uk'):
                            book[q][float(base.t)] = v
                rep.state(base.H_j, [base.t])
            # the model goes on after recording
            base.step(dt=11., Q_in=np.full(n.M, .1))
            for q in book:
                if hasattr(base, q):
                    getattr(base, q)[...] = getattr(base, q) + 0.
        for q, want in book.items():
            rep.count('tables')
            if permute:
                rep.count('permuted')
            df = getattr(sim.states, q, None)
            c = dict(case, table=q)
            if not isinstance(df, pd.DataFrame):
                rep.violate('no table for a recorded state', c)
                return rep
            if sorted(map(float, df.index)) != sorted(want):
                rep.violate('table holds other times than those recorded', c, got=list(df.index), want=sorted(want))
                return rep
            if not back and list(map(float, df.index)) != sorted(want):
                rep.violate('table not in time order', c, got=list(df.index))
                return rep
            cols = {'j': names_j, 'k': names_k}.get(COLS.get(q))
            for t, v in want.items():
                row = df.loc[t]
                if cols is None:
                    got = row.values
                else:
                    if sorted(df.columns) != sorted(cols):
                        rep.violate('columns are not the names of the elements', c, got=list(df.columns), want=cols)
                        return rep
                    got = np.array([row[x] for x in cols])
                if got.shape != v.shape or not core.close(got, v, 1e-14, 1e-14):
                    rep.violate('recorded values are not the state at that time', c, t=t, got=got, want=v)
                    return rep
        rep.traces += 1
    rep.sample(dict(net=n.name, first=first, depth=depth))
    return rep


def run(tier, seed):
    depth = 4 if tier == 'quick' else 5
    jobs = []
    for kind, permute, warm, mobile in (('chain', False, True, False), ('chain', True, False, False), ('control', False, False, False),
                                        ('control', True, True, False), ('bc2', True, False, False), ('tee', True, True, False),
                                        ('tee', False, False, True)):
        for a in ACTS:
            jobs.append((kind, permute, a, depth if kind in ('chain', 'control') else depth - 1, warm, mobile))
    return core.run_jobs(job, jobs)


def coverage(rep):
    return dict(bounds='all sequences of 6 actions to depth 4 (5) on 7 model variants')
