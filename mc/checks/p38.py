"""P38: what the model reports about a step agrees with the step it took.

After every transition: the linear systems handed out (state_space_system, _semi_implicit_system) are satisfied by the heads before
and after it; flows and depths recovered by the recurrences from either end agree with the solution; the Courant time, mean flow,
mean area and Froude numbers are those of the state."""
import itertools
import numpy as np
from mc import core, hydro, nets
from mc.checks import _hydrobase as hb, p31

LEVEL = 'model_checking'
FLOOR = {'quick': {'systems': 50000, 'recurrences': 90000, 'courant': 100000, 'both_ends': 180000, 'uneven': 2500}, 'thorough': {'systems': 800000, 'recurrences': 1000000}}
ASSUMPTIONS = ['superjunctions and conduits with a head or depth clamped in the step are excluded (the systems are those before limits)',
               'recurrences: relative to the terms of the recurrence; conduits whose coefficients leave less than six digits are excluded',
               'least squares (lsq) shares the residual among elements: there the recurrences are not judged']
TOL = 1e-6


def dense(A):
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)


def judge(rep, s, lay, hist):
    m, net = s.m, lay.net
    case = dict(net=net.name, options=net.kw, history=hist)
    free = ~(s.head_clamped | s.bc_clamped)
    # ---- systems
    A1, A2, D, Hn, Hp, Q = m.state_space_system(s.dt)
    A1, A2 = dense(A1), dense(A2)
    if not (np.array_equal(Hn, s.H1) and np.array_equal(Hp, s.H0) and core.close(Q, s.Q_in, 0, 0)):
        rep.violate('the state space system does not hold the heads and inflows of the step', case)
        return
    if free.all():
        r = A1 @ Hn - A2 @ Hp - D - Q
        sc = np.abs(A1) @ np.abs(Hn) + np.abs(A2) @ np.abs(Hp) + np.abs(D) + np.abs(Q) + 1e-6
        bad = (np.abs(r) > TOL * sc) & ~s.bc
        rep.count('systems')
        if bad.any():
            j = int(bad.argmax())
            rep.violate('heads miss the state space system at superjunction %d by %.3e (scale %.3e)' % (j, r[j], sc[j]), case)
        B1, B2, b = m._semi_implicit_system(s.dt)
        B1, B2 = dense(B1), dense(B2)
        r = B1 @ s.H1 - b
        sc = np.abs(B1) @ np.abs(s.H1) + np.abs(b) + 1e-6
        if (np.abs(r) > TOL * sc).any():
            j = int((np.abs(r) / sc).argmax())
            rep.violate('heads miss the semi-implicit system at superjunction %d by %.3e (scale %.3e)' % (j, r[j], sc[j]), case)
        if not (core.close(B1, A1, 0, 0) and core.close(B2, A2, 0, 0)):
            rep.violate('the two systems differ', case)
        if s.bc.any() and (A2[s.bc] != 0).any():
            rep.violate('a prescribed head depends on the previous one', case)
        P1, P2, R, H = m._augmented_system(s.Q_in.copy(), s.dt)
        r = dense(P1) @ np.append(s.H1, 1.) - P2 @ np.append(s.H0, 1.) - R
        sc = np.abs(A1) @ np.abs(Hn) + np.abs(A2) @ np.abs(Hp) + np.abs(D) + np.abs(Q) + 1e-6
        bad = (np.abs(r[:-1]) > TOL * sc) & ~s.bc
        if bad.any() or r[-1] != 0 or not np.array_equal(H, s.H1):
            rep.violate('heads miss the augmented system by %s' % r, case)
    # ---- means along conduits
    kept = {a: (getattr(m, a).copy() if hasattr(m, a) else None) for a in ('_sigma_ik', '_supercritical')}
    m.superlink_inverse_courant()
    m.compute_flow_regime()
    nl = lay.nl
    for K in lay.K:
        k, i, I = K['k'], np.r_[K['i']], np.r_[K['I']]
        q, A = s.q1[i], s.A[i]
        rep.count('courant')
        if not core.close(m._Q_k[k], q.mean(), 1e-9, 1e-12) or not core.close(m._A_k[k], A.mean(), 1e-9, 1e-12):
            rep.violate('mean flow and area of conduit %d are %s, %s' % (k, m._Q_k[k], m._A_k[k]), case)
        L = sum(K['dx'])
        if abs(q.mean()) > 1e-9 and not core.close(m._dt_ck[k], A.mean() * L / abs(q.mean()), 1e-7, 1e-12):
            rep.violate('Courant time of conduit %d is %s' % (k, m._dt_ck[k]), case)
        u = s.qi[i] / s.A[i]
        with np.errstate(all='ignore'):
            Fr = np.abs(u) / np.sqrt(9.81 * s.A[i] / s.B[i])
        if not core.close(m._Fr_ik[i], Fr, 1e-6, 1e-9):
            rep.violate('Froude numbers of conduit %d are %s, not %s' % (k, m._Fr_ik[i], Fr), case)
        want = np.where(Fr < .5, 1., np.where(Fr > 1, 0., 2 * (1 - Fr)))
        if not core.close(m._sigma_ik[i], want, 1e-6, 1e-6):
            rep.violate('inertial damping of conduit %d is %s, not %s' % (k, m._sigma_ik[i], want), case)
    for a, v in kept.items():       # the next step goes on from the model's own
        if v is None:
            delattr(m, a)
        else:
            setattr(m, a, v)
    # ---- recurrences
    if net.kw.get('method') == 'lsq':
        return
    qb, qf = m.superlink_flow_from_recurrence()
    db, df = m.superlink_depth_from_recurrence()
    for K in lay.K:
        k, i, I = K['k'], np.r_[K['i']], np.r_[K['I']]
        if s.k_clamped[k]:
            continue
        h1 = s.h1[I]
        rep.count('recurrences')
        for nm, got, own, J in (('backward', qb, s.q1[i], I[:-1]), ('forward', qf, s.q1[i], I[:-1])):
            X, Y, Z = (m._X_Ik, m._Y_Ik, m._Z_Ik) if nm == 'backward' else (m._U_Ik, m._V_Ik, m._W_Ik)
            hh, end = (h1[:-1], h1[-1]) if nm == 'backward' else (h1[1:], h1[0])
            sc = np.abs(X[J] * hh) + np.abs(Y[J]) + np.abs(Z[J] * end) + np.abs(own) + 1e-6
            rep.count('both_ends')
            if not (np.abs(got[i] - own) <= 1e-6 * sc).all():
                rep.violate('%s recurrence gives flows %s in conduit %d, not %s' % (nm, got[i], k, own), case)
        for nm, got in (('backward', db), ('forward', df)):
            X, Y, Z = (m._X_Ik, m._Y_Ik, m._Z_Ik) if nm == 'backward' else (m._U_Ik, m._V_Ik, m._W_Ik)
            J = I[:-1]
            end = h1[-1] if nm == 'backward' else h1[0]
            sc = (np.abs(s.q1[i]) + np.abs(Y[J]) + np.abs(Z[J] * end)) / np.maximum(np.abs(X[J]), 1e-12) + 1e-6
            g, w = (got[I][:-1], h1[:-1]) if nm == 'backward' else (got[I][1:], h1[1:])
            if not (np.abs(g - w) <= 1e-6 * sc + 1e-6 * np.abs(w)).all() or got[I][0] != s.m._h_uk[k] or got[I][-1] != s.m._h_dk[k]:
                rep.violate('%s recurrence gives depths %s in conduit %d, not %s' % (nm, got[I], k, h1), case)


def means(kind, counts, depth, tied):
    """conduits with differing numbers of elements: means, Courant times and Froude numbers are each conduit's own"""
    rep = core.Report()
    net = p31.join(p31.separate(kind))
    if tied:        # one network: the conduits follow each other
        net.sj = [dict(z_inv=.5 - .12 * j, h_0=.6, a=0., b=0., c=6. + j, storage='functional', bc=False, max_depth=np.inf, map_x=0., map_y=0.)
                  for j in range(len(kind) + 1)]
        net.sl = [dict(r, sj_0=k, sj_1=k + 1) for k, r in enumerate(net.sl)]
    m = p31.build_explicit(net, counts)
    lo = np.cumsum([0] + list(counts))
    q = np.zeros(net.M)
    q[0] = .3
    acts = {'in': dict(Q_in=q, dt=3.), 'out': dict(Q_in=-.2 * q, dt=7.), 'rest': dict(dt=20.)}

    def apply(m, a):
        m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in acts[a].items()})

    def visit(m, _, hist, out):
        case = dict(conduits=kind, elements=counts, tied=tied, history=hist)
        kept = core.snap(m)
        m.superlink_inverse_courant()
        m.compute_flow_regime()
        A, Q, B = (np.array(getattr(m, a)) for a in ('A_ik', 'Q_ik', 'B_ik'))
        with np.errstate(all='ignore'):
            for k, r in enumerate(net.sl):
                i = slice(lo[k], lo[k + 1])
                rep.count('uneven')
                t = A[i].mean() * r['dx'] / abs(Q[i].mean())
                if not (core.close(m._Q_k[k], Q[i].mean(), 1e-9, 1e-12) and core.close(m._A_k[k], A[i].mean(), 1e-9, 1e-12)):
                    rep.violate('mean flow and area of conduit %d are %s, %s' % (k, m._Q_k[k], m._A_k[k]), case)
                elif abs(Q[i].mean()) > 1e-9 and not core.close(m._dt_ck[k], t, 1e-7, 1e-12):
                    rep.violate('Courant time of conduit %d is %s, not %s' % (k, m._dt_ck[k], t), case)
                elif not core.close(m._Fr_k[k], m._Fr_ik[i].mean(), 1e-9, 1e-12):
                    rep.violate('mean Froude number of conduit %d is %s' % (k, m._Fr_k[k]), case)
        core.restore(m, kept)
        rep.state(m.H_j, m.Q_ik)
        return True

    core.explore(m, list(acts), apply, depth, visit, rep)
    rep.sample(dict(conduits=kind, elements=counts, depth=depth))
    return rep


def run(tier, seed):
    rep = hb.run_all(tier, judge)
    rep.merge(hb.run_all(tier, judge, depth=2 if tier == 'quick' else 4, num_iter=3))
    jobs = [(kind, c, 3 if tier == 'quick' else 5, tied) for kind, n in (('ab', 2), ('bac', 3)) for tied in (False, True)
            for c in itertools.product((1, 2, 4), repeat=n)]
    rep.merge(core.run_jobs(means, jobs))
    return rep
