"""P42: the soil suction formula and the numerical routines offered on their own meet their definitions.

Enumerated over complete grids: every soil of a lattice of moisture contents, conductivities and pore parameters (suction against the
Brooks-Corey integral), every bracket and start of a family of functions (the root finders), every query point of a family of tables
(sampling by interpolation or nearest neighbour), every combination of small systems (the Kalman updates)."""
import itertools
import numpy as np
from mc import core

LEVEL = 'model_checking'
FLOOR = {'quick': {'soils': 3000, 'roots': 7000, 'newton': 400, 'sampled': 3000, 'updates': 250}, 'thorough': {'soils': 3000, 'roots': 7000, 'sampled': 3000}}
ASSUMPTIONS = ['brackets hold exactly one sign change', 'suction: theta_r < theta_i < theta_s, against a quadrature of the Brooks-Corey relation',
               'square-root updates need positive definite covariances']


# ---------------------------------------------------------------- soil suction
def suction_ref(ti, ts, tr, pb, lam, n=4000):
    """integral of relative conductivity over suction, from saturation to the initial moisture (Brooks-Corey, Burdine)"""
    s0 = (ti - tr) / (ts - tr)
    s = np.linspace(s0, 1., n + 1)
    s = (s[1:] + s[:-1]) / 2
    return pb / lam * np.sum(s**(2 + 1 / lam)) * (1 - s0) / n


def soil_job(ts):
    from pipedream_solver.hydrology import GreenAmpt
    from pipedream_solver.infiltration import GreenAmpt as Plain
    rep = core.Report()
    for tr, x, Ks, pb, lam in itertools.product((0., .02, .1), (.02, .2, .5, .8, .98), (1e-7, 3e-6, 1e-4), (.02, .15, .6), (.1, .25, .7, 2.)):
        ti = tr + x * (ts - tr)
        ref = suction_ref(ti, ts, tr, pb, lam)
        prev = None
        for cls in (GreenAmpt, Plain):
            got = cls.suction_head(ti, ts, tr, Ks, pb, lam)
            case = dict(routine='suction_head', theta_i=ti, theta_s=ts, theta_r=tr, Ks=Ks, psi_b=pb, lambda_o=lam)
            if not core.close(got, ref, 1e-4, 1e-12):
                rep.violate('suction head %s, the soil has %s' % (got, ref), case)
            arr = cls.suction_head(np.array([ti, ti]), np.array([ts, ts]), np.array([tr, tr]), np.array([Ks, 2 * Ks]), np.array([pb, 2 * pb]), np.array([lam, lam]))
            if not core.close(arr, [got, 2 * got], 1e-12, 0):
                rep.violate('suction of two soils %s, of each alone %s' % (arr, [got, 2 * got]), case)
        rep.count('soils')
        rep.transitions += 1
        rep.state(ti, ts, tr, Ks, pb, lam)
    return rep


# ---------------------------------------------------------------- root finders
def functions():
    f = []
    for c in (-3., -.4, 0., 2.5):
        f.append(('line %g' % c, lambda x, c=c: 2. * (x - c), lambda x: 2., c))
        f.append(('falling %g' % c, lambda x, c=c: -.5 * (x - c), lambda x: -.5, c))
        f.append(('cubic %g' % c, lambda x, c=c: (x - c)**3 + .2 * (x - c), lambda x, c=c: 3 * (x - c)**2 + .2, c))
        f.append(('exp %g' % c, lambda x, c=c: np.exp(.8 * (x - c)) - 1, lambda x, c=c: .8 * np.exp(.8 * (x - c)), c))
        f.append(('atan %g' % c, lambda x, c=c: np.arctan(4 * (x - c)), lambda x, c=c: 4 / (1 + 16 * (x - c)**2), c))
        f.append(('falling cubic %g' % c, lambda x, c=c: -(x - c)**3 - (x - c), lambda x, c=c: -3 * (x - c)**2 - 1, c))
        f.append(('kinked %g' % c, lambda x, c=c: np.sign(x - c) * np.sqrt(np.abs(x - c)) + .1 * (x - c), lambda x, c=c: .1 + .5 / np.sqrt(np.abs(x - c) + 1e-12), c))
    return f


def root_job(j):
    from pipedream_solver import nutils, utils
    rep = core.Report()
    name, f, df, root = functions()[j]
    f1, df1 = (lambda x, a: f(x)), (lambda x, a: df(x))
    a = np.zeros(1)
    for lo, up, x0 in itertools.product((.3, 1.7, 11.), (.2, 2.1, 9.), (-20., -1.2, -.05, 0., .04, .9, 14.)):
        lb, ub = root - lo, root + up
        for l, u in ((lb, ub), (ub, lb)):
            case = dict(function=name, bracket=[l, u], start=root + x0)
            for nm, go in (('compiled', lambda: nutils.bounded_newton_raphson(f1, df1, root + x0, l, u, a, 400)),
                           ('plain', lambda: utils.bounded_newton_raphson(f, df, root + x0, l, u, ()))):
                try:
                    x = go()
                except Exception as e:
                    rep.violate('%s search in a bracket with a root failed: %r' % (nm, e), case)
                    continue
                rep.count('roots')
                rep.transitions += 1
                rep.state(j, l, u, x0)
                if x is None or not abs(x - root) <= 1e-6:
                    rep.violate('%s search found %s, the root is %s' % (nm, x, root), case)
    if not name.startswith(('atan', 'kinked', 'exp')):
        for x0 in np.linspace(-6., 6., 25):
            case = dict(function=name, start=root + x0, routine='newton_raphson')
            try:
                x = nutils.newton_raphson(f1, df1, root + x0, a, 200)
            except Exception as e:
                rep.violate('search failed: %r' % e, case)
                continue
            rep.count('newton')
            if not abs(x - root) <= 1e-6:
                rep.violate('search found %s, the root is %s' % (x, root), case)
    if j == 0:
        for bad in (lambda x, a: 1. + 0 * x,):
            try:
                x = nutils.newton_raphson(bad, lambda x, a: 0., 1., a)
                rep.violate('a function without a root has root %s' % x, dict(function='constant'))
            except ValueError:
                pass
    return rep


# ---------------------------------------------------------------- sampling
def sample_job(k):
    from pipedream_solver import nutils, utils, ngeometry
    rep = core.Report()
    xs = [[0.], [0., 1.], [-2., 0., .5, 4.], [10., 10.25, 11., 30., 31.], [0., 1e-3, 1e3]][k]
    xp = np.array(xs)
    n = xp.size
    fp = np.stack([np.cos(2.3 * np.arange(n)) * 4, np.arange(n)**2 - 3., np.full(n, 7.)], axis=1)
    q = set(xp) | {xp[0] - 5, xp[-1] + 5}
    for a, b in zip(xp[:-1], xp[1:]):
        q |= {a + f * (b - a) for f in np.linspace(0, 1, 41)}
    for x in sorted(q):
        lin = np.array([np.interp(x, xp, fp[:, c]) for c in range(3)])
        d = np.abs(xp - x)
        near = fp[np.argmin(d)]
        tie = n > 1 and np.sum(np.isclose(d, d.min(), rtol=1e-9, atol=0)) > 1
        for nm, fn in (('compiled', nutils.interpolate_sample), ('plain', utils.interpolate_sample)):
            for m, ref in ((1, lin), (0, near)):
                got = fn(float(x), xp, fp, m)
                rep.count('sampled')
                ok = core.close(got, ref, 1e-12, 1e-12)
                if m == 0 and tie:
                    ok = ok or any(core.close(got, fp[i], 1e-12, 1e-12) for i in np.flatnonzero(np.isclose(d, d.min(), rtol=1e-9, atol=0)))
                if not ok:
                    rep.violate('%s sample at %s is %s, not %s' % (nm, x, got, ref), dict(points=xs, method=m))
            if not core.close(fn(float(x), xp, fp), lin, 1e-12, 1e-12):
                rep.violate('%s sample at %s is not interpolated by default' % (nm, x), dict(points=xs))
        for c in range(3):
            for m, ref in ((1, lin), (0, near)):
                got = ngeometry.interpolate_geometry(float(x), xp, np.ascontiguousarray(fp[:, c]), m)
                rep.count('sampled')
                if not (core.close(got, ref[c], 1e-12, 1e-12) or (m == 0 and tie)):
                    rep.violate('tabulated geometry at %s is %s, not %s' % (x, got, ref[c]), dict(points=xs, method=m))
        rep.transitions += 1
        rep.state(k, x)
    return rep


# ---------------------------------------------------------------- Kalman updates
def kalman_job(M):
    from pipedream_solver import nutils, utils
    rep = core.Report()
    r = np.arange(M * M).reshape(M, M)
    for a, p, qc, rc, hb, cb in itertools.product((0, 1, 2), (.1, 2.), (.03, 1.), (.02, .7), (0, 1, 2), (0, 1)):
        A1 = np.diag(2. + np.arange(M)) - .3 * np.cos(1.1 * r + a)
        A2 = np.diag(1. + .5 * np.arange(M)) + .1 * np.sin(r + a)
        b = np.linspace(.5, 2., M) * (1 + a)
        P = p * (np.eye(M) + .2 * np.ones((M, M)))
        H = [np.eye(M), np.eye(M)[:max(1, M - 1)], np.eye(M) + .2 * np.cos(r)][hb]
        C = [np.eye(M), .7 * np.eye(M) + .1 * np.sin(r)][cb]
        Q, R = qc * (np.eye(M) + .1 * np.ones((M, M))), rc * np.eye(len(H))
        Z = 1.5 + .3 * np.arange(len(H))
        # textbook: predict, then correct
        F = np.linalg.solve(A1, A2)
        x = np.linalg.solve(A1, b)
        Pm = F @ P @ F.T + C @ Q @ C.T
        S = H @ Pm @ H.T + R
        K = np.linalg.solve(S, H @ Pm).T
        ref = (A1 @ (x + K @ (Z - H @ x)), Pm - K @ S @ K.T, S)
        case = dict(M=M, matrices=a, P=p, Qcov=qc, Rcov=rc, H=hb, C=cb)
        for nm, fn in (('compiled', nutils._kalman_semi_implicit), ('plain', utils._kalman_semi_implicit), ('square-root', utils._square_root_kalman_semi_implicit),
                       ('square-root of nutils', nutils._square_root_kalman_semi_implicit)):
            got = fn(Z.copy(), P.copy(), A1.copy(), A2.copy(), b.copy(), H.copy(), C.copy(), Q.copy(), R.copy())
            rep.count('updates')
            for what, g, w in zip(('right-hand side', 'covariance', 'innovation covariance'), got, ref):
                if not core.close(g, w, 1e-8, 1e-9):
                    rep.violate('%s update gives %s %s, not %s' % (nm, what, g, w), case)
                    break
        rep.transitions += 1
        rep.state(M, a, p, qc, rc, hb, cb)
    return rep


def do(k, a):
    return dict(soil=soil_job, root=root_job, sample=sample_job, kalman=kalman_job)[k](a)


def run(tier, seed):
    jobs = [('soil', t) for t in (.2, .3, .41, .48, .6, .9)] + [('root', j) for j in range(len(functions()))]
    jobs += [('sample', k) for k in range(5)] + [('kalman', M) for M in (1, 2, 3, 4)]
    return core.run_jobs(do, jobs)
