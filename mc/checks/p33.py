"""P33: assimilating a measured concentration is a Kalman update of the quality model's own forecast."""
import itertools
import numpy as np
from mc import core
from mc.checks import _wq, p28

LEVEL = 'model_checking'
FLOOR = {'quick': {'updates': 8000, 'clipped_estimates': 30, 'ends_resolved': 8000, 'untrusted': 300, 'trusted': 300, 'own_measurement': 300,
                   'matrices': 300, 'boundary': 500, 'skipped': 1000},
         'thorough': {'updates': 100000}}
ASSUMPTIONS = ['concentrations at boundary superjunctions are prescribed in every step (c_bc)',
               'forecasts in which the quality step itself limits a concentration are not judged (the map is not linear there)',
               'the estimate is limited to non-negative concentrations, as the solver limits its own',
               'the transition matrix is taken from the implementation by perturbing one superjunction concentration at a time '
               'before the step; concentrations inside conduits are held, as the filter estimates superjunctions only']
NETS = ('chain', 'tee', 'loop', 'flipped', 'flat', 'control-owp', 'twin-controls', 'loop-permuted', 'tee-tabular', 'tee-sparse')
HYD = ('head', 'tail', 'draw', 'long')
EPS = 1e-2


def quality(m, net, obs, sp, sm):
    from pipedream_solver.transport import QualityBuilder
    t = _wq.params(net, _wq.span(net, 1, .2, 1.3), K=1e-4, D=.02)
    t['superlink_params']['KF_obs_point'] = obs
    t['superlink_params']['KF_process_sigma'] = float(sp)
    t['superlink_params']['KF_measure_sigma'] = float(sm)
    p = _wq.order(m)
    if p is not None:
        t['superjunction_params'] = t['superjunction_params'].iloc[p].reset_index(drop=True)
    return QualityBuilder(m, **t)


def reference(F, f, x, P, Q, R, o, z):
    """textbook update; F: transition, f: forecast of the model from x"""
    P = F @ P @ F.T + Q
    g = P[:, o] / (P[o, o] + R) if P[o, o] + R > 0 else np.zeros(len(f))
    x = f + g * (z - f[o])
    return np.maximum(x, 0.), P - np.outer(g, P[o])


class World:
    def __init__(self, net, obs, sp, sm):
        self.net = net
        self.m = net.build()
        self.w = quality(self.m, net, obs, sp, sm)
        self.acts = dict(_wq.actions(net))
        p = _wq.order(self.m)
        self.bc = np.array([r['bc'] for r in net.sj])
        if p is not None:
            self.bc = self.bc[p]
        self.args = dict(c_0j=np.linspace(.5, 1.5, net.M), c_bc=np.linspace(.9, .3, net.M))

    def snap(self):
        return core.snap(self.m), core.snap(self.w)

    def restore(self, s):
        core.restore(self.m, s[0])
        core.restore(self.w, s[1])

    def quality_step(self, dt):
        self.w.step(dt=dt, **self.args)
        return np.array(self.w.c_j)

    def forecast(self, h):
        """hydraulic step, forecast, transition matrix; leaves the model after the quality step"""
        a = self.acts[h]
        self.m.step(**_wq.todo(self.m, a))
        w = self.w
        s = core.snap(w)
        M = self.net.M
        c0 = np.array(w.c_j)
        F = np.zeros((M, M))
        f = self.quality_step(a['dt'])
        limited = (f <= 1e-12).any()
        after = core.snap(w)
        for j in range(M):
            core.restore(w, s)
            c = c0.copy()
            c[j] += EPS
            w.c_j = c
            g = self.quality_step(a['dt'])
            F[:, j] = (g - f) / EPS
        core.restore(w, after)
        return c0, f, F, a['dt'], limited


def hyd(m):
    return p28.observe(m)


def same(a, b):
    return all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def ok(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return bool(np.isfinite(a).all() and np.abs(a - b).max() <= tol * max(1., np.abs(b).max()))


def job(net, obs, sp, sm, corr, depth, measures):
    rep = core.Report()
    W = World(net, obs, sp, sm)
    m, w = W.m, W.w
    M = net.M
    Q = sp**2 * (np.ones((M, M)) if corr else np.eye(M))
    R = sm**2
    alphabet = [(h, z) for h in HYD for z in measures]

    def rec(hist):
        if len(hist) >= depth:
            rep.traces += 1
            return
        base = W.snap()
        for h, z in alphabet:
            W.restore(base)
            hi = hist + ((h, z),)
            case = dict(net=net.name, options=net.kw, obs=obs, sigma=(sp, sm), correlated=corr, history=hi)
            P0 = np.array(w.P_k, float)
            c0, f, F, dt, limited = W.forecast(h)
            rep.transitions += 1
            if z is None:
                rep.count('skipped')
            else:
                before = hyd(m)
                value = float(f[obs]) if z == 'own' else float(z)
                w.Kalman_Filter_WQ2(np.array([value]) if corr else value, dt, int(corr))
                if not same(before, hyd(m)):
                    rep.violate('the update changes the hydraulic model', case)
                    return
                x, P = np.array(w.x_hat), np.array(w.P_k)
                rep.state(x, P)
                if not np.array_equal(np.array(w.c_j), x):
                    rep.violate('the concentrations after the update are not the estimate: %s, %s' % (w.c_j, x), case)
                    return
                if not limited:
                    rx, rP = reference(F, f, c0, P0, Q, R, obs, value)
                    rep.count('updates')
                    rep.count('clipped_estimates', int((rx == 0).any()))
                    rep.count('boundary', int(W.bc.any()))
                    if not ok(x, rx):
                        rep.violate('estimate %s, Kalman update of the forecast %s is %s (measured %s)' % (x, f, rx, value), case)
                        return
                    if not ok(P, rP):
                        rep.violate('covariance %s, expected %s' % (P, rP), case)
                        return
                    if z == 'own':
                        rep.count('own_measurement')
                        if not ok(x, np.maximum(f, 0.), 1e-9):
                            rep.violate('a measurement equal to the forecast changes it: %s, %s' % (f, x), case)
                            return
                    if sm == 0 and sp > 0:
                        rep.count('trusted')
                        if not abs(x[obs] - value) <= 1e-8 * max(1., abs(value)):
                            rep.violate('an exact measurement %s is not taken: %s' % (value, x[obs]), case)
                            return
                    if sm >= 1e6:
                        rep.count('untrusted')
                        if not ok(x, np.maximum(f, 0.), 1e-9):
                            rep.violate('a worthless measurement changes the forecast %s to %s' % (f, x), case)
                            return
                e = np.linalg.eigvalsh(.5 * (P + P.T))
                if not ok(P, P.T, 1e-9) or e.min() < -1e-9 * max(1., np.abs(e).max()):
                    rep.violate('covariance is not symmetric positive semi-definite: %s' % P, case)
                    return
                # concentrations along the conduits follow the estimate
                unchanged = np.array_equal(x, f)
                was = {k: np.array(getattr(w, k)) for k in ('c_Ik', 'c_ik', 'c_uk', 'c_dk')}
                w.solve_boundary_states()
                w.solve_internals_backwards()
                rep.count('ends_resolved')
                now = {k: np.array(getattr(w, k)) for k in was}
                lo, hi_ = 0., np.inf
                for k in now:
                    if not np.isfinite(now[k]).all() or (now[k] < lo).any() or (now[k] > hi_).any():
                        rep.violate('%s after the update: %s' % (k, now[k]), case)
                        return
                    if unchanged and not ok(now[k], was[k], 1e-9):
                        rep.violate('%s changes although the update changed nothing' % k, case)
                        return
                if not np.array_equal(np.array(w.c_j), x):
                    rep.violate('solving the conduits again changes the estimate', case)
                    return
            rec(hi)
        W.restore(base)
    rec(())
    rep.sample(dict(net=net.name, obs=obs, sigma=(sp, sm), correlated=corr, depth=depth))
    return rep


def passive(net, obs, sp, sm, depth):
    """the two calls without feedback: artificial measurements (WQ1) and the matrices for several constituents (Multi)"""
    rep = core.Report()
    M = net.M
    for seq in itertools.product(HYD, repeat=depth):
        for kind in ('multi', 'artificial'):
            W = World(net, obs, sp, sm)
            m, w = W.m, W.w
            np.random.seed(7)
            xe, P = np.array(w.c_j), np.zeros((M, M))
            for k, h in enumerate(seq):
                case = dict(net=net.name, obs=obs, sigma=(sp, sm), kind=kind, history=seq[:k + 1])
                c0, f, F, dt, limited = W.forecast(h)
                rep.transitions += 1
                before = hyd(m)
                state = core.snap(w)
                if kind == 'multi':
                    A, B = w.KF_Multi_WQ(dt)
                    if not limited:
                        rep.count('matrices')
                        if not ok(A, F) or not ok(A @ c0 + B, f):
                            rep.violate('transition matrix %s, input %s do not give the forecast %s from %s' % (A, B, f, c0), case)
                            return rep
                else:
                    w.Kalman_Filter_WQ1(dt)
                    z = float(np.asarray(w.Z).ravel()[0])
                    if limited:
                        break
                    xe, P = reference(F, f + F @ (xe - c0), xe, P, sp**2 * np.eye(M), sm**2, obs, z)
                    rep.count('updates')
                    if not ok(w.x_hat, xe) or not ok(w.P_k, P):
                        rep.violate('estimate %s (covariance %s), expected %s (%s)' % (w.x_hat, w.P_k, xe, P), case)
                        return rep
                    xe, P = np.array(w.x_hat), np.array(w.P_k)
                if not same(before, hyd(m)):
                    rep.violate('%s changes the hydraulic model' % kind, case)
                    return rep
                for e in ('_c_j', '_c_Ik', '_c_ik', '_c_uk', '_c_dk'):
                    if not np.array_equal(state[e], getattr(w, e)):
                        rep.violate('%s changes the concentrations' % kind, case)
                        return rep
                rep.state(f, np.array(w.x_hat))
            rep.traces += 1
    return rep


def dispatch(kind, *a):
    return job(*a) if kind == 'update' else passive(*a)


def run(tier, seed):
    cat = {n.name: n for n in _wq.catalogue()}
    jobs = []
    deep = tier == 'thorough'
    for x in NETS:
        n = cat[x]
        free = [j for j in range(n.M) if not n.sj[j]['bc']]
        for obs in ((free[0], free[-1]) if not deep else range(n.M)):
            for sp, sm in ((.1, .1), (.3, .02)):
                for corr in (False, True):
                    jobs.append(('update', n, obs, sp, sm, corr, 3 if deep else 2, (None, 0., 2.5, .8)))
            jobs.append(('update', n, obs, .2, 0., False, 2, ('own', 0., 1.7)))
            jobs.append(('update', n, obs, .2, 1e7, False, 2, ('own', 0., 1.7)))
            jobs.append(('passive', n, obs, .1, .05, 3 if deep else 2))
    for x in ('chain', 'flipped', 'control-owp'):
        jobs.append(('update', cat[x], 1, .1, .05, False, 4 if deep else 3, (None, 'own', 1.5)))
    return core.run_jobs(dispatch, jobs)
