"""Scenes and reference semantics shared by the simulation properties P19, P20, P22, P23."""
import bisect
import copy
import numpy as np
import pandas as pd
from mc import core, nets


def scene(kind, permute=False):
    """network whose superjunctions and conduits carry names that are not their positions"""
    kw = dict(auto_permute=True) if permute else {}
    if kind == 'chain':
        n = nets.chain(('rect_open', 'circular', 'wide'), h=.6)
        n.sl[1].update(dx=25.)
    elif kind == 'tee':
        n = nets.tee(h=.5)
    elif kind == 'bc2':
        n = nets.chain(('rect_open', 'rect_open', 'circular'), h=.8)
        n.sj[1]['bc'] = True
    elif kind == 'control':
        n = nets.control(which='owp')
    elif kind == 'flat':
        n = nets.flat(h=.9)
        n.sj[2]['bc'] = True
    elif kind == 'tank':          # no prescribed heads
        n = nets.flat(h=1.2)
    elif kind == 'low':           # heads below the datum
        n = nets.flat(h=.9)
        for r in n.sj:
            r['z_inv'] -= .9005
        n.sj[2]['bc'] = True
    elif kind == 'deep':          # heads well below the datum, falling and rising
        n = nets.flat(h=.9)
        for r in n.sj:
            r['z_inv'] -= 4.2
        n.sj[2]['bc'] = True
    if permute:
        # list the superjunctions so that renumbering really reorders them
        order = [(2 * k) % n.M if n.M % 2 else (2 * k + (2 * k) // n.M) % n.M for k in range(n.M)]
        inv = {old: new for new, old in enumerate(order)}
        n.sj = [n.sj[o] for o in order]
        for rows in (n.sl, n.orifices, n.weirs, n.pumps):
            for r in rows:
                r['sj_0'], r['sj_1'] = inv[r['sj_0']], inv[r['sj_1']]
    for i, r in enumerate(n.sj):
        r['name'] = 'J%s' % 'QXBMZA'[i]
    for i, r in enumerate(n.sl):
        r['name'] = 'C%s' % 'WFKD'[i]
    n.name = kind + ('-permuted' if permute else '')
    n.kw.update(kw)
    return n


TIMES = [10., 20., 26., 26.5, 60., 75., 130.]


def series(n, which, times=TIMES, stagger=False):
    """(Q_in, H_bc, Q_Ik) tables over `times`, columns in table order; None where not used"""
    M = n.M
    NI = n.NK * (n.kw['internal_links'] + 1)
    names = [r['name'] for r in n.sj]
    T = len(times)
    q = np.array([[.05 * ((3 * k + 5 * j) % 7) - .04 * (j == 1) for j in range(M)] for k in range(T)])
    z = np.array([r['z_inv'] for r in n.sj])
    h = z + np.array([[.6 + .1 * ((2 * k + j) % 5) for j in range(M)] for k in range(T)])
    qi = np.array([[.002 * ((k + 3 * j) % 4) for j in range(NI)] for k in range(T)])
    out = {}
    out['Q_in'] = pd.DataFrame(q, index=times, columns=names) if 'q' in which else None
    times_h, times_i = list(times), list(times)
    if stagger == 2:       # prescribed heads first
        times_h, times_i = [t - 4. for t in times[:-1]] + [times[-1] - 25.], [t + 3. for t in times[:-1]] + [times[-1] + 20.]
    elif stagger:          # the three series start and end at different times
        times_h, times_i = [t + 4. for t in times[:-1]] + [times[-1] + 25.], [t - 3. for t in times[:-1]] + [times[-1] - 20.]
    out['H_bc'] = pd.DataFrame(h, index=times_h, columns=names) if 'h' in which else None
    out['Q_Ik'] = pd.DataFrame(qi, index=times_i) if 'i' in which else None
    return out


def sample(t, table, method):
    """what the series says at time t: one or two acceptable rows"""
    if table is None:
        return [None]
    ts, v = [float(x) for x in table.index], table.values
    if t <= ts[0]:
        return [v[0]]
    if t >= ts[-1]:
        return [v[-1]]
    k = bisect.bisect_left(ts, t)
    a, b = t - ts[k - 1], ts[k] - t
    if method == 'linear':
        return [v[k - 1] + (v[k] - v[k - 1]) * (a / (a + b))]
    if a == b:
        return [v[k - 1], v[k]]
    return [v[k - 1]] if a < b else [v[k]]


STATE = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik')


def view(m, table_order=True):
    """public state; superjunction quantities in the order of the caller's table"""
    d = {k: np.array(getattr(m, k), float) for k in STATE}
    inv = np.argsort(m.permutations)
    d['H_j'] = d['H_j'][inv]
    for k, n in (('Q_o', m.n_o), ('Q_w', m.n_w), ('Q_p', m.n_p)):
        if n:
            d[k] = np.array(getattr(m, k), float)
    d['t'] = float(m.t)
    return d


def differs(a, b, tol):
    for k in a:
        if np.shape(a[k]) != np.shape(b[k]) or not core.close(a[k], b[k], tol, tol):
            return k
    return None


class Ref:
    """plain model (never renumbered) stepped with reference-sampled inputs in table order"""
    def __init__(self, n, tables, method):
        self.m = n.copy(auto_permute=False).build()
        self.tab = tables
        self.method = method

    def step(self, dt, explicit=None, controls=None):
        t = self.m.t + dt
        kw = {}
        for k, arg in (('Q_in', 'Q_in'), ('H_bc', 'H_bc'), ('Q_Ik', 'Q_0Ik')):
            if explicit and k in explicit:
                kw[arg] = None if explicit[k] is None else explicit[k].copy()
            else:
                v = sample(t, self.tab[k], self.method)[0]
                kw[arg] = None if v is None else np.array(v, float)
        kw.update({k: v.copy() if isinstance(v, np.ndarray) else v for k, v in (controls or {}).items()})
        self.m.step(dt=dt, **kw)
