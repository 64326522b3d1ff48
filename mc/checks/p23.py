"""P23: Kalman filtering of heads.  All sequences of (step, measurement) to the depth
bound over sets of measured junctions, measurement noise, process noise and both forms of
the filter, against an independent filter written from the state-space equations."""
import itertools
import numpy as np
from mc import core, nets, sims, hydro

LEVEL = 'model_checking'
FLOOR = {'quick': {'updates': 3000, 'iterated': 1500, 'given': 200, 'square_root': 800, 'exact': 300, 'worthless': 300, 'same_as_forecast': 800},
         'thorough': {'updates': 30000}}
ASSUMPTIONS = ['noise does not act on prescribed heads (rows of the signal-input matrix zero there)',
               'heads stay inside their physical range, so no clamping interferes',
               'square-root form compared for positive definite covariances']


def cov(kind, n):
    if kind == 'diag':
        return np.diag([.02 * (1 + k) for k in range(n)])
    B = np.array([[1. if i == j else .4 * (-1)**(i + j) / (1 + abs(i - j)) for j in range(n)] for i in range(n)])
    return .03 * B @ B.T


def job(kind, meas, noise, qkind, sr, ckind, depth, tier, given=False):
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    kind, _, solver = kind.partition('/')
    n = sims.scene(kind)
    if solver == 'sparse':
        n.kw.update(sparse=True)
    M = n.M
    free = [j for j in range(M) if not n.sj[j]['bc']]
    base = n.build()
    if solver == 'banded':
        base.banded = True
    lay = hydro.Layout(n)
    s0 = core.snap(base)
    Hm = np.zeros((len(meas), M))
    for r, j in enumerate(meas):
        Hm[r, free[j]] = 1.
    if ckind == 'eye' and len(free) == M:
        C, a = np.eye(M), M
    else:
        a = len(free)
        C = np.zeros((M, a))
        for k, j in enumerate(free):
            C[j, k] = 1. + .2 * k
            if k:
                C[j, k - 1] = .3
    Q = cov(qkind, a)
    R = noise * (np.eye(len(meas)) if qkind == 'diag' else cov('full', len(meas)) / .03)
    P0 = cov('full', M) if sr or qkind == 'full' else None
    if P0 is not None and len(free) < M:
        for j in range(M):
            if n.sj[j]['bc']:
                P0[j, :] = P0[:, j] = 0.
    ctl = {}
    if n.orifices:
        ctl = {'u_o': np.array([.7, .4]), 'u_w': np.array([.8, .3]), 'u_p': np.array([.6])}
    moves = {'forecast': 0., 'up': .08, 'mixed': None}
    steps = {'a': dict(dt=6., Q_in=np.linspace(.2, .05, M)), 'b': dict(dt=25., Q_in=np.full(M, .02), num_iter=3, head_tol=0.)}
    acts = [(s, z) for s in steps for z in moves]
    for seq in itertools.product(acts, repeat=depth):
        core.restore(base, s0)
        own = dict(H=Hm, C=C, Qcov=Q, Rcov=R)
        if given:           # the matrices of the simulation are others: those given to the filter count
            own = dict(H=np.eye(M)[:1] * .5, C=C[:, :1], Qcov=Q[:1, :1] * 4., Rcov=np.array([[.3]]))
        sim = Simulation(base, dt=5., Pxx=None if P0 is None else P0.copy(), **{x: v.copy() for x, v in own.items()})
        P = (own['C'] @ own['Qcov'] @ own['C'].T) if given and P0 is None else (C @ Q @ C.T) if P0 is None else P0.copy()
        if not np.allclose(sim.P_x_k_k, P, atol=1e-15):
            rep.violate('initial error covariance is not C Q C^T / the one given', dict(net=n.name, got=sim.P_x_k_k))
            return rep
        for k, (st, z) in enumerate(seq):
            act = steps[st]
            case = dict(net=n.name, solver=solver, measured=meas, noise=noise, q=qkind, c=ckind, square_root=sr, seq=seq[:k + 1])
            bef = hydro.before(base)
            kw = {x: v.copy() for x, v in ctl.items()}
            more = {x: act[x] for x in ('num_iter', 'head_tol') if x in act}
            it = None
            if more:        # a step of several passes: the last one starts from the outcome of those before it
                start = core.snap(base)
                base.step(dt=act['dt'], Q_in=act['Q_in'].copy(), num_iter=more['num_iter'] - 1, head_tol=0., **{x: v.copy() for x, v in ctl.items()})
                it = hydro.before(base)
                core.restore(base, start)
                rep.count('iterated')
            sim.step(dt=act['dt'], Q_in=act['Q_in'].copy(), **kw, **more)
            f = sims.view(base)
            xf = base.H_j.copy()
            ic = base.iter_count
            A1, A2, b = (np.array(v.toarray() if hasattr(v, 'toarray') else v, float) for v in base._semi_implicit_system(_dt=act['dt']))
            x = np.linalg.solve(A1, b)
            if np.abs(x - xf).max() > 1e-9:
                rep.count('clamped')
                break
            zf = Hm @ xf
            Z = zf + (0. if z == 'forecast' else .08 if z == 'up' else np.array([.06 * (-1)**r for r in range(len(meas))]))
            # reference filter
            G = np.linalg.solve(A1, A2)
            gk = {}
            if given:
                gk = dict(H=Hm.copy(), C=C.copy(), Qcov=Q.copy(), Rcov=R.copy())
                rep.count('given')
                if k == 1:          # a covariance of the caller's instead of the one of the last update
                    P = 1.7 * np.where(base.bc[:, None] | base.bc[None, :], 0., cov('full', M))
                    gk['P_x_k_k'] = P.copy()
            Pp = G @ P @ G.T + C @ Q @ C.T
            S = Hm @ Pp @ Hm.T + R
            L = np.linalg.solve(S, Hm @ Pp).T
            P = (np.eye(M) - L @ Hm) @ Pp @ (np.eye(M) - L @ Hm).T + L @ R @ L.T
            xn = x + L @ (Z - Hm @ x)
            z_in = Z.copy()
            sim.kalman_filter(z_in, dt=act['dt'], SR=sr, **gk, **{x_: v.copy() for x_, v in ctl.items()})
            rep.transitions += 1
            rep.count('updates')
            if sr:
                rep.count('square_root')
            rep.state(base.H_j, np.asarray(sim.P_x_k_k).ravel())
            g = sims.view(base)
            Pc = np.asarray(sim.P_x_k_k)
            H = base.H_j
            sc = np.abs(P).max() + 1e-4 * np.abs(Pp).max()
            if Pc.shape != (M, M) or not np.isfinite(Pc).all() or np.abs(Pc - Pc.T).max() > 1e-8 * sc:
                rep.violate('error covariance not symmetric', case, P=Pc)
                return rep
            if np.linalg.eigvalsh((Pc + Pc.T) / 2).min() < -1e-8 * sc:
                rep.violate('error covariance not positive semi-definite', case, P=Pc)
                return rep
            if abs(g['t'] - f['t']) > 1e-9 or base.iter_count != ic:
                rep.violate('filtering moved the clock', case, before=f['t'], after=g['t'])
                return rep
            if np.abs(H - xn).max() > 1e-7:
                rep.violate('filtered heads are not those of the Kalman update', case, got=H, want=xn, forecast=xf, Z=Z)
                return rep
            if np.abs(Pc - P).max() > 1e-7 * max(sc, noise if noise < 1 else 1.):
                rep.violate('error covariance is not that of the Kalman update', case, got=Pc, want=P)
                return rep
            Sz = np.asarray(sim.P_zz)
            if Sz.shape != S.shape or np.abs(Sz - S).max() > 1e-7 * np.abs(S).max():
                rep.violate('reported innovation covariance is not H P H^T + R', case, got=Sz, want=S)
                return rep
            e0, e1 = Hm @ xf - Z, Hm @ H - Z
            if z == 'forecast':
                rep.count('same_as_forecast')
                bad = sims.differs(f, g, 1e-8)
                if bad:
                    rep.violate('measurements equal to the forecast changed the state (%s)' % bad, case, before=f[bad], after=g[bad])
                    return rep
            elif noise <= 1e-9:
                rep.count('exact')
                if np.abs(e1).max() > 1e-5:
                    rep.violate('exact measurements not reached', case, off=e1)
                    return rep
            elif noise >= 1e9:
                rep.count('worthless')
                if np.abs(H - xf).max() > 1e-6:
                    rep.violate('worthless measurements moved the heads', case, moved=H - xf)
                    return rep
            if len(meas) == 1 and not (min(Z[0], zf[0]) - 1e-9 <= (Hm @ H)[0] <= max(Z[0], zf[0]) + 1e-9):
                rep.violate('measured head did not move toward the measurement', case, forecast=zf, Z=Z, got=Hm @ H)
                return rep
            # the conduits follow the filtered heads
            s = hydro.Step(lay, bef, base, act['Q_in'], act['dt'], it=it)
            for K in lay.K:
                if s.k_clamped[K['k']]:
                    rep.count('depth_clamped')
                    continue
                parts = [('momentum',) + hydro.momentum_residuals(s, K), ('continuity',) + hydro.continuity_residuals(s, K)]
                parts += [('end', np.array([r]), np.array([w])) for r, w in hydro.end_residuals(s, K)]
                for what, res, scale in parts:
                    if (np.abs(res) > 1e-6 * scale + 1e-9).any():
                        rep.violate('%s balance of a conduit broken after filtering' % what, case, residual=res, scale=scale)
                        return rep
                rep.count('conduits')
        rep.traces += 1
    rep.sample(dict(net=n.name, solver=solver, measured=meas, noise=noise, square_root=sr, depth=depth))
    return rep


def run(tier, seed):
    q = tier == 'quick'
    jobs = []
    for kind in ('tank', 'control', 'chain', 'bc2'):
        nfree = {'tank': 3, 'control': 4, 'chain': 3, 'bc2': 2}[kind]
        sets = [s for k in range(1, nfree + 1) for s in itertools.combinations(range(nfree), k)]
        for meas in sets:
            if q and kind in ('control', 'chain') and len(meas) == 2:
                continue
            for noise in (1e-10, .01, 1e10):
                for qkind in ('diag', 'full'):
                    for sr in ((False, True) if kind in ('tank', 'control') else (False,)):
                        for ck in (('eye', 'mixed') if kind in ('tank', 'control') else ('mixed',)):
                            if q and kind == 'control' and ck == 'eye':
                                continue
                            jobs.append((kind, meas, noise, qkind, sr, ck, 2 if q else 3, tier))
    for kind in ('chain/sparse', 'control/sparse', 'chain/banded', 'control/banded'):
        for meas in ((0,), (0, 2)):
            for sr in (False, True):
                jobs.append((kind, meas, .01, 'full', sr and kind.startswith('control'), 'mixed', 2, tier))
    for kind in ('tank', 'control', 'bc2'):
        for sr in ((False, True) if kind != 'bc2' else (False,)):
            for qkind in ('diag', 'full'):
                jobs.append((kind, (0, 1), .01, qkind, sr, 'mixed', 2, tier, True))
    return core.run_jobs(job, jobs)


def coverage(rep):
    return dict(bounds='4 networks, all subsets of measured heads, 3 noise levels, 2 process covariances, both forms, all (step, measurement) sequences to depth 2 (3)')
