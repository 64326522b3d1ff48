"""Discretised governing equations as residuals over (state before, action, state after).

Only the tables the network was built from and public model attributes are used.
All coefficients are evaluated at the state before the step, as documented."""
import numpy as np
from mc import core

G = 9.81


class Layout:
    """Where each conduit's elements live in the flattened arrays, from the tables alone."""

    def __init__(self, net, m=None):
        self.net = net
        nl = net.kw.get('internal_links', 4)
        self.nl = nl
        z = [r['z_inv'] for r in net.sj]
        self.K = []
        for k, r in enumerate(net.sl):
            u, v = r['sj_0'], r['sj_1']
            zu, zv = z[u] + r['in_offset'], z[v] + r['out_offset']
            cu, cv = r['C_uk'], r['C_dk']
            xu, xv = r.get('dx_uk', 0.), r.get('dx_dk', 0.)
            flip = zu < zv
            if flip:
                u, v, zu, zv, cu, cv, xu, xv = v, u, zv, zu, cv, cu, xv, xu
            self.K.append(dict(k=k, u=u, v=v, zu=zu, zv=zv, cu=cu, cv=cv, xu=xu, xv=xv, flip=flip,
                               i=slice(k * nl, (k + 1) * nl), I=slice(k * (nl + 1), (k + 1) * (nl + 1)),
                               dx=np.full(nl, r['dx'] / nl), n=r['n'], A_s=r['A_s'],
                               S=(zu - zv) / (r['dx'] + xu + xv), ctrl=r['ctrl'], A_c=r['A_c'], C=r['C'],
                               fm=r.get('friction_method', 'cm'), hmax=r.get('max_depth', np.inf),
                               shape=r['shape']))


def friction(fm, Q, dx, A, R, n):
    if not A > 0:
        return 0.
    Q = abs(Q)
    if fm == 'cm':
        return G * n**2 * Q * dx / A / R**(4 / 3)
    if fm == 'hw':
        return 1.354 * G * Q**.85 * dx / A**.85 / n**1.85 / R**1.1655
    if fm == 'dw':
        Re = Q / A * 4 * R / 1.0034e-6
        f = .25 / np.log10(n / (3.7 * 4 * R) + 5.74 / Re**.9)**2 if Re > 0 else 0.
        return .01274 * G * f * Q * dx / (A * R)
    raise core.HarnessError(fm)


class Step:
    """One transition: the state before (plain copies), the action and the model after it."""

    def __init__(self, lay, bef, m, Q_in, dt, Q_Ik=None, H_bc=None, it=None):
        self.lay, self.b, self.m, self.dt = lay, bef, m, dt
        # coefficients are taken at the state before, or at the previous iterate of an iterated step
        it = bef if it is None else it
        self.Hi, self.qi, self.qui, self.qdi = it['H'], it['Q'], it['Qu'], it['Qd']
        self.Q_in = np.zeros(lay.net.M) if Q_in is None else np.asarray(Q_in, float)
        self.Q_Ik = Q_Ik
        self.H0, self.H1 = bef['H'], m.H_j.copy()
        self.h0, self.h1 = bef['h'], m.h_Ik.copy()
        self.q0, self.q1 = bef['Q'], m.Q_ik.copy()
        self.qu0, self.qd0 = bef['Qu'], bef['Qd']
        self.qu1, self.qd1 = m.Q_uk.copy(), m.Q_dk.copy()
        # geometry the step was taken with (evaluated at the state before)
        self.A, self.B, self.R = m.A_ik.copy(), m.B_ik.copy(), m.R_ik.copy()
        self.Au, self.Ad = m.A_uk.copy(), m.A_dk.copy()
        self.Asj = m.A_sj.copy()
        net = lay.net
        self.zj = np.array([r['z_inv'] for r in net.sj])
        self.hmax = np.array([r['max_depth'] for r in net.sj])
        self.bc = np.array([r['bc'] for r in net.sj])
        eps = 1e-12
        self.head_clamped = ((self.H1 <= self.zj + eps) | (self.H1 >= self.zj + self.hmax - 1e-9)) & ~self.bc
        self.bc_clamped = ((self.H1 <= self.zj + eps) | (self.H1 >= self.zj + self.hmax - 1e-9)) & self.bc
        self.k_clamped = []
        mind = net.kw.get('min_depth', 1e-5)
        for K in lay.K:
            h = self.h1[K['I']]
            self.k_clamped.append(bool((h <= mind * (1 + 1e-9)).any() or (h >= K['hmax'] * (1 - 1e-9)).any()))

    def theta(self, K, end):
        j, z = (K['u'], K['zu']) if end == 'u' else (K['v'], K['zv'])
        return 1. if self.Hi[j] >= z else 0.


def before(m):
    b = dict(H=m.H_j.copy(), h=m.h_Ik.copy(), Q=m.Q_ik.copy(), Qu=m.Q_uk.copy(), Qd=m.Q_dk.copy(), t=m.t)
    for o in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + o[1:], 0):
            b[o] = getattr(m, o).copy()
    return b


def end_cell(s, K, end):
    """half-cell width*length/2 between a superjunction and the conduit end"""
    L = K['xu'] if end == 'u' else K['xv']
    if L == 0:
        return 0.
    r = s.lay.net.sl[K['k']]
    if r['shape'] not in ('rect_open', 'wide'):
        raise core.HarnessError('end cells only with constant width')
    return r['g2'] * L / 2


def superjunction_residual(s):
    """(A_s/dt + xi)(H' - H) - Q_in - sum(Q_dk) + sum(Q_uk): zero where no structure is attached."""
    res = s.Asj / s.dt * (s.H1 - s.H0) - s.Q_in
    scale = np.abs(s.Asj / s.dt * (s.H1 - s.H0)) + np.abs(s.Q_in) + 1e-6
    for K in s.lay.K:
        k = K['k']
        u, v = K['u'], K['v']
        cu, cd = end_cell(s, K, 'u') / s.dt, end_cell(s, K, 'v') / s.dt
        res[u] += s.qu1[k] + s.theta(K, 'u') * cu * (s.H1[u] - s.H0[u])
        res[v] += -s.qd1[k] + s.theta(K, 'v') * cd * (s.H1[v] - s.H0[v])
        scale[u] += abs(s.qu1[k])
        scale[v] += abs(s.qd1[k])
        # conditioning: flows are recovered as small differences of large head terms
        scale[u] += abs(s.H1[u]) * s.Asj[u] / s.dt * 1e-6
        scale[v] += abs(s.H1[v]) * s.Asj[v] / s.dt * 1e-6
    return res, scale


def continuity_residuals(s, K):
    I, i, dx = K['I'], K['i'], K['dx']
    h1, h0, q, B = s.h1[I], s.h0[I], s.q1[i], s.B[i]
    n = len(dx)
    Q0 = np.zeros(n + 1) if s.Q_Ik is None else s.Q_Ik[I]
    res, scale = np.zeros(n + 1), np.zeros(n + 1)
    flows = np.concatenate([[s.qu1[K['k']]], q, [s.qd1[K['k']]]])
    for a in range(n + 1):
        left = end_cell(s, K, 'u') if a == 0 else B[a - 1] * dx[a - 1] / 2
        right = end_cell(s, K, 'v') if a == n else B[a] * dx[a] / 2
        E = (left + right + K['A_s']) / s.dt
        res[a] = E * (h1[a] - h0[a]) - Q0[a] - flows[a] + flows[a + 1]
        scale[a] = E * (abs(h1[a]) + abs(h0[a])) + abs(flows[a]) + abs(flows[a + 1]) + abs(Q0[a]) + 1e-6
    return res, scale


def momentum_residuals(s, K):
    i, I, dx = K['i'], K['I'], K['dx']
    n = len(dx)
    A, R, q0, q1, h1, qi = s.A[i], s.R[i], s.q0[i], s.q1[i], s.h1[I], s.qi[i]
    u = np.where(A > 0, qi / np.where(A > 0, A, 1), 0.)
    sg = np.ones(n)
    if s.lay.net.kw.get('inertial_damping'):
        B = s.B[i]
        Fr = np.abs(u) * np.sqrt(np.where(A > 0, B / (G * np.where(A > 0, A, 1)), 0.))
        sg = np.clip(2 * (1 - Fr), 0., 1.)
    res, scale = np.zeros(n), np.zeros(n)
    for a in range(n):
        ul = u[a] if a == 0 else (dx[a] * u[a - 1] + dx[a - 1] * u[a]) / (dx[a] + dx[a - 1])
        ur = u[a] if a == n - 1 else (dx[a] * u[a + 1] + dx[a + 1] * u[a]) / (dx[a] + dx[a + 1])
        ca = -max(ul, 0.) * sg[a]
        cc = -max(-ur, 0.) * sg[a]
        cb = dx[a] / s.dt * sg[a] + friction(K['fm'], qi[a], dx[a], A[a], R[a], K['n']) - ca - cc
        if K['ctrl']:
            cb += K['C'] * A[a] * abs(qi[a]) / K['A_c']**2
        P = q0[a] * dx[a] / s.dt * sg[a] + G * A[a] * K['S'] * dx[a]
        ql = 0. if a == 0 else q1[a - 1]
        qr = 0. if a == n - 1 else q1[a + 1]
        # the end links are closed with their own continuity: neighbour flow outside is the end flow
        if a == 0:
            ql = s.qu1[K['k']]
        if a == n - 1:
            qr = s.qd1[K['k']]
        res[a] = ca * ql + cb * q1[a] + cc * qr - P - G * A[a] * (h1[a] - h1[a + 1])
        scale[a] = (abs(ca * ql) + abs(cb * q1[a]) + abs(cc * qr) + abs(P)
                    + G * A[a] * (abs(h1[a]) + abs(h1[a + 1])) + 1e-6)
    return res, scale


def end_residuals(s, K):
    """[inlet, outlet] residual of  h_end = head above invert -/+ losses (bc_method 'z': entrance and exit loss;
    'b': also bed slope, friction and acceleration over the end cell)"""
    k = K['k']
    out = []
    for end, q1, q0, qi, C, A, j, z, h, sgn, L in (
            ('u', s.qu1[k], s.qu0[k], s.qui[k], K['cu'], s.Au[k], K['u'], K['zu'], s.h1[K['I']][0], -1., K['xu']),
            ('v', s.qd1[k], s.qd0[k], s.qdi[k], K['cv'], s.Ad[k], K['v'], K['zv'], s.h1[K['I']][-1], 1., K['xv'])):
        kappa = sgn * abs(qi) * C / (2 * A**2 * G) if A != 0 else 0.
        const = 0.
        if L and s.lay.net.kw.get('bc_method', 'z') == 'b':
            r = s.lay.net.sl[k]
            if r['shape'] not in ('rect_open', 'wide'):
                raise core.HarnessError('end cells only with constant width')
            R = A / r['g2'] if r['shape'] == 'wide' else A / (r['g2'] + 2 * A / r['g2'])
            kappa += sgn * (L / s.dt + friction(K['fm'], qi, L, A, R, K['n'])) / (G * A)
            const = -sgn * (q0 * L / (G * A * s.dt) + L * K['S'])
        th = s.theta(K, end)
        rhs = kappa * q1 + const + th * (s.H1[j] - z)
        out.append((h - rhs, abs(h) + abs(kappa * q1) + abs(const) + th * (abs(s.H1[j]) + abs(z)) + 1e-6))
    return out
