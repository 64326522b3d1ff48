"""P40: the progress display tells how much of the simulated period has passed and leaves the simulation alone.

Every sequence (to a depth) of steps of several lengths, retried steps, restored states and calls of print_progress (with
and without checkpoints) on simulations with different periods; what is written is parsed and compared with the clock."""
import contextlib
import io
import itertools
import re
import numpy as np
from mc import core, sims
from mc.checks.p08 import observe, same

LEVEL = 'model_checking'
FLOOR = {'quick': {'printed': 3000, 'silent': 1000, 'beyond': 300}, 'thorough': {'printed': 20000}}
ASSUMPTIONS = ['the period has a positive finite length; before its first step a simulation has not started its wall clock',
               'the line ends with the wall-clock time since the first step (any non-negative number of seconds)']
LINE = re.compile(r'^\r\[(=*)(-*)\] (-?[\d.]+)% \[(-?[\d.eE+-]+) s\]$')
OPS = ('tiny', 'short', 'long', 'retry', 'back', 'print', 'all')


def build(kind, how):
    from pipedream_solver.simulation import Simulation
    n = sims.scene(kind)
    m = n.build()
    if how == 'series':
        s = Simulation(m, **sims.series(n, 'qh'), dt=5.)
        t0, t1 = sims.TIMES[0], sims.TIMES[-1]
    elif how == 'given':
        s = Simulation(m, **sims.series(n, 'q'), t_start=20., t_end=60., dt=5.)
        t0, t1 = 20., 60.
    elif how == 'long':
        s = Simulation(m, t_start=-500., t_end=1500., dt=5.)
        t0, t1 = -500., 1500.
    else:
        s = Simulation(m, t_end=m.t + 31., dt=5.)
        t0, t1 = m.t, m.t + 31.
    return s, float(t0), float(t1)


def job(kind, how, first, depth):
    rep = core.Report()
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        s, t0, t1 = build(kind, how)
        m = s.model
        case = dict(scene=kind, period=how, calls=seq)
        marks = np.linspace(t0, t1)
        passed, stepped = 0, False
        for k, op in enumerate(('short',) + seq + ('print', 'all')):
            if op in ('print', 'all'):
                before = observe(m)
                was = (m.t, s.dt, tuple(s.dts), tuple(s.errs), len(s.states.H_j))
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    s.print_progress() if op == 'print' else s.print_progress(use_checkpoints=False)
                text = out.getvalue()
                now = int(np.searchsorted(marks, m.t))
                edge = np.min(np.abs(marks - m.t)) < 1e-6 * (t1 - t0)
                at = dict(case, at=k, t=m.t, wrote=text)
                if same(before, observe(m)) or was != (m.t, s.dt, tuple(s.dts), tuple(s.errs), len(s.states.H_j)):
                    rep.violate('printing progress changed the simulation', at)
                    return rep
                if op == 'print' and now == passed and not edge:
                    rep.count('silent')
                    if text:
                        rep.violate('progress printed although no checkpoint was passed', at)
                        return rep
                    continue
                if op == 'print':
                    if edge and not text:
                        continue
                    passed = now
                g = LINE.match(text)
                if not g:
                    rep.violate('progress line not understood', at)
                    return rep
                rep.count('printed')
                frac = min(max((m.t - t0) / (t1 - t0), 0.), 1.)
                rep.count('beyond' if m.t > t1 else 'within')
                bar, left, pct, sec = len(g[1]), len(g[2]), float(g[3]), float(g[4])
                if bar + left != 50 or abs(bar - 50 * frac) > .5 + 1e-6 or abs(pct - 100 * frac) > .05 + 1e-6:
                    rep.violate('%.6f of the period has passed, the display says %s%% and %d of %d marks' % (frac, g[3], bar, bar + left), at)
                    return rep
                if not -.02 <= sec < 3600:
                    rep.violate('elapsed wall-clock time of %s s' % g[4], at)
                    return rep
                rep.state(frac, [bar])
            elif op == 'back':
                s.load_state(m.states)
            elif op == 'retry':
                s.step(dt=24., subdivisions=2, retries=1, tol=1e-9)
            else:
                s.step(dt={'tiny': .4, 'short': 6., 'long': 45.}[op])
            rep.transitions += 1
        rep.traces += 1
    rep.sample(dict(scene=kind, period=how, depth=depth))
    return rep


def run(tier, seed):
    q = tier == 'quick'
    jobs = [(k, h, f, 4 if q else 5) for k in (('flat',) if q else ('flat', 'chain', 'control')) for h in ('series', 'given', 'long', 'bare') for f in OPS]
    return core.run_jobs(job, jobs)


def coverage(rep):
    return dict(bounds='all sequences of 4 (5) calls out of 7, on 4 kinds of period')
