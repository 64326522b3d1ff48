"""Documented laws of orifices, weirs and pumps and their linearisation, one structure
at a time, from the table row and the heads at its ends (no code under test)."""
import itertools
import numpy as np
from mc import core, nets, shapes

G = 9.81


def opening(r, z, Hu, Hd, u):
    """wetted area of the opening at the given heads"""
    if u <= 0:
        return 0.
    he = max(Hu, Hd) - z - r['z_o']
    if 'shape' in r:
        sec = shapes.of(dict(r, g1=r['g1'] * u))
        return sec.A(he)
    side = np.sqrt(r['A'])
    return min(max(he, 0.), side * u) * side


def orifice_head(r, z, Hu, Hd, u):
    """(effective head, sign, regime)"""
    tau = 1. if r['orientation'] == 'side' else 0.
    hi, lo = max(Hu, Hd), min(Hu, Hd)
    sgn = 1. if Hu >= Hd else -1.
    bottom = z + r['z_o']
    top, mid = bottom + tau * r['y_max'] * u, bottom + tau * r['y_max'] * u / 2
    if r.get('oneway') and Hd >= Hu:
        return 0., sgn, 'blocked'
    if hi > top and lo > mid:
        return hi - lo, sgn, 'submerged'
    if hi > top:
        return hi - mid, sgn, 'free'
    if hi > bottom:
        return hi - bottom, sgn, 'weir'
    return 0., sgn, 'dry'


def orifice_thresholds(r, z, u):
    tau = 1. if r['orientation'] == 'side' else 0.
    b = z + r['z_o']
    return [b, b + tau * r['y_max'] * u, b + tau * r['y_max'] * u / 2]


def orifice_law(r, z, before, after, u, V, dt):
    """reported flow: opening area at the start of the step, heads at its end"""
    h, s, _ = orifice_head(r, z, *after, u)
    q = r['C'] * opening(r, z, *before, u) * np.sqrt(2 * G * abs(h))
    lim = (V[0] if after[0] > after[1] else V[1]) / dt
    return s * min(q, lim)


def orifice_linear(r, z, before, after, u, Q):
    """flow used in the balance: Q |Q_before| = 2 g C2 A2 head(after), regime of the heads before"""
    if Q == 0:
        return 0.
    _, s, reg = orifice_head(r, z, *before, u)
    k = 2 * G * r['C']**2 * opening(r, z, *before, u)**2 / abs(Q)
    Hs = after[0] if s > 0 else after[1]
    th = orifice_thresholds(r, z, u)
    return {'submerged': k * (after[0] - after[1]), 'free': s * k * (Hs - th[2]),
            'weir': s * k * (Hs - th[0])}.get(reg, 0.)


def crest(r, z, u):
    return z + r['z_w'] + (1 - u) * r['y_max']


def weir_head(r, z, Hu, Hd, u):
    hi, lo = max(Hu, Hd), min(Hu, Hd)
    s = 1. if Hu >= Hd else -1.
    c = crest(r, z, u)
    if lo > c:
        return hi - lo, s, 'submerged'
    if hi > c:
        return hi - c, s, 'free'
    return 0., s, 'dry'


def weir_law(r, z, before, after, u, V, dt):
    h, s, _ = weir_head(r, z, *after, u)
    return s * (r['Cr'] * r['L'] * h**1.5 + r['Ct'] * r['s'] * h**2.5)


def weir_linear(r, z, before, after, u, Q):
    if abs(Q) < 1e-9:
        return 0.
    h, s, reg = weir_head(r, z, *before, u)
    k = (r['Cr'] * r['L'] * h + r['Ct'] * r['s'] * h**2)**2 / abs(Q)
    Hs = after[0] if s > 0 else after[1]
    return {'submerged': k * (after[0] - after[1]), 'free': s * k * (Hs - crest(r, z, u))}.get(reg, 0.)


def pump_law(r, z, before, after, u, V, dt):
    if not after[0] > z + r['z_p'] or u == 0:
        return 0.
    lift = min(max(after[1] - after[0], r['dH_min']), r['dH_max'])
    return (u / r['b_p'] * (r['a_p'] - lift))**(1 / r['c_p'])


def pump_linear(r, z, before, after, u, Q):
    if (Q == 0 and r['c_p'] != 1) or not before[0] > z + r['z_p']:
        return 0.
    k = u / (r['b_p'] * abs(Q)**(r['c_p'] - 1))
    lift = before[1] - before[0]
    if r['dH_min'] < lift < r['dH_max']:
        return k * (r['a_p'] - (after[1] - after[0]))
    return k * (r['a_p'] - min(max(lift, r['dH_min']), r['dH_max']))


LAW = dict(orifices=orifice_law, weirs=weir_law, pumps=pump_law)
LIN = dict(orifices=orifice_linear, weirs=weir_linear, pumps=pump_linear)
THR = dict(orifices=orifice_thresholds, weirs=lambda r, z, u: [crest(r, z, u)],
           pumps=lambda r, z, u: [z + r['z_p']])
REG = dict(orifices=lambda r, z, a, u: orifice_head(r, z, *a, u)[2],
           weirs=lambda r, z, a, u: weir_head(r, z, *a, u)[2],
           pumps=lambda r, z, a, u: 'off' if u == 0 else 'dry' if not a[0] > z + r['z_p'] else
           'low' if a[1] - a[0] <= r['dH_min'] else 'high' if a[1] - a[0] >= r['dH_max'] else 'in range')
ATTR = dict(orifices='Q_o', weirs='Q_w', pumps='Q_p')
SIG = dict(orifices='u_o', weirs='u_w', pumps='u_p')
ONE = dict(orifices='orifice', weirs='weir', pumps='pump')


def judge(rep, net, kind, m, inv, H0, H1, Q0, us, V, dt, case):
    """reported flow of every structure of the kind against its own law"""
    rows = getattr(net, kind)
    got = getattr(m, ATTR[kind])
    if len(got) != len(rows):
        rep.violate('number of reported %s flows is %d, of structures %d' % (ONE[kind], len(got), len(rows)), case)
        return False
    for i, r in enumerate(rows):
        u, d = r['sj_0'], r['sj_1']
        z = net.sj[u]['z_inv']
        a = (H1[u], H1[d])
        near = any(abs(x - t) < 1e-9 for x in a for t in THR[kind](r, z, us[i])) or abs(a[0] - a[1]) < 1e-12
        want = LAW[kind](r, z, (H0[u], H0[d]), a, us[i], (V[u], V[d]), dt)
        reg = REG[kind](r, z, a, us[i])
        rep.count('law')
        rep.count(ONE[kind] + ' ' + reg)
        if want < 0:
            rep.count('reverse')
        if near:
            rep.count('at a threshold')
            continue
        if not abs(got[i] - want) <= 1e-9 + 1e-6 * abs(want):
            rep.violate('flow of %s %d (%s) is %.9g, by its law %.9g' % (ONE[kind], i, reg, got[i], want),
                        dict(case, heads_before=(H0[u], H0[d]), heads=a, setting=us[i], structure=r))
            return False
    return True


def transfer(rep, net, kinds, m, inv, H0, H1, Q0, us, dt, Q_in, A, case, start=None):
    """water moved between superjunctions joined only by structures = linearised laws about the previous flows"""
    tied = {j for r in net.sl for j in (r['sj_0'], r['sj_1'])}
    for j in range(net.M):
        z, top = net.sj[j]['z_inv'], net.sj[j]['z_inv'] + net.sj[j]['max_depth']
        if H1[j] <= z + 1e-12 or H1[j] >= top - 1e-9:
            rep.count('clamped')        # the head the flow was solved with is not the reported one
            return True
    for j in range(net.M):
        if j in tied or net.sj[j]['bc']:
            continue
        want, scale = Q_in[j], abs(Q_in[j]) + 1e-6
        for kind in kinds:
            for i, r in enumerate(getattr(net, kind)):
                if j in (r['sj_0'], r['sj_1']):
                    u, d = r['sj_0'], r['sj_1']
                    q = LIN[kind](r, net.sj[u]['z_inv'], (H0[u], H0[d]), (H1[u], H1[d]), us[kind][i], Q0[kind][i])
                    k = abs(LIN[kind](r, net.sj[u]['z_inv'], (H0[u], H0[d]), (H1[u] + 1., H1[d]), us[kind][i], Q0[kind][i]) - q)
                    want += q if j == d else -q
                    scale += abs(q) + k * 1e-6 * (abs(H1[u]) + abs(H1[d]))
        got = A[j] / dt * (H1[j] - (H0 if start is None else start)[j])
        scale += A[j] / dt * abs(H1[j]) * 1e-6
        rep.count('transfers')
        if not abs(got - want) <= 1e-6 * scale + 1e-9:
            rep.violate('water entering superjunction %d in the step: %.9g m3/s, by the structures at it %.9g' % (j, got, want),
                        dict(case, heads_before=list(H0), heads=list(H1), previous_flows=Q0, settings=us))
            return False
    return True


def grid_job(kind, row, z, opts, A, dt, hgrid, ugrid, qgrid):
    """one structure between two tanks: every pair of heads x setting x previous flow"""
    rep = core.Report()
    net = nets.two_tanks(kind, rows=[row], z=z, A=A)
    net.kw.update(opts)
    m = net.build()
    perm = np.asarray(getattr(m, 'permutations', np.arange(net.M)))
    inv = np.argsort(perm)
    base = core.snap(m)
    for Hu, Hd in itertools.product(hgrid, repeat=2):
        if Hu < z[0] or Hd < z[1]:
            continue
        for u in ugrid:
            for q in qgrid:
                core.restore(m, base)
                H = m.H_j[inv].copy()
                H[0], H[1] = Hu, Hd
                m.H_j = H[perm].copy()
                setattr(m, ATTR[kind], np.array([q]))
                case = dict(kind=kind, structure=row, inverts=z, area=A, dt=dt, options=opts, heads_set=(Hu, Hd),
                            setting=u, previous_flow=q)
                kw = {} if u is None else {SIG[kind]: np.array([float(u)])}
                m.step(dt=dt, **kw)
                uu = 0. if u is None else u
                H1 = m.H_j[inv]
                rep.transitions += 1
                rep.state(hash(repr(row)) % 1000003, z, A, dt, Hu, Hd, uu, q)
                if not judge(rep, net, kind, m, inv, H, H1, None, [uu], m.V_j[inv], dt, case):
                    return rep
                if not transfer(rep, net, [kind], m, inv, H, H1, {kind: [q]}, {kind: [uu]}, dt, np.zeros(net.M),
                                m.A_sj[inv], case):
                    return rep
                rep.traces += 1
    rep.sample(dict(kind=kind, structure=row, inverts=z, heads=len(hgrid), settings=ugrid))
    return rep


def seq_job(net, kind, acts, first, depth, num_iter=1):
    """every action sequence: all structures of the network judged after every step; of an iterated step, the coefficients
    are those at its last iterate but one, the water stored that at its start"""
    rep = core.Report()
    m = net.build()
    perm = np.asarray(getattr(m, 'permutations', np.arange(net.M)))
    inv = np.argsort(perm)
    kinds = [k for k in ('orifices', 'weirs', 'pumps') if getattr(net, k)]
    hold = {}

    def apply(m, a):
        def step(n):
            x = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in acts[a].items()}
            if x.get('Q_in') is not None:
                x['Q_in'] = x['Q_in'][perm]
            if n > 1:
                x.update(num_iter=n, head_tol=0.)
            m.step(**x)
        hold['H0'], hold['V'] = m.H_j[inv].copy(), None
        if num_iter > 1:
            start = core.snap(m)
            step(1)
            hold['V'] = m.V_j[inv].copy()
            core.restore(m, start)
            step(num_iter - 1)
        hold['H'] = m.H_j[inv].copy()
        hold['Q'] = {k: getattr(m, ATTR[k]).copy() for k in kinds}
        if num_iter > 1:
            core.restore(m, start)
        step(num_iter)

    def visit(m, _, hist, out):
        a = acts[hist[-1]]
        case = dict(net=net.name, options=net.kw, history=hist, num_iter=num_iter)
        us = {k: a.get(SIG[k], np.zeros(len(getattr(net, k)))) for k in kinds}
        H1 = m.H_j[inv]
        rep.count('iterated' if num_iter > 1 else 'steps')
        V = m.V_j[inv] if hold['V'] is None else hold['V']
        rep.state(m.H_j, m.h_Ik, m.Q_ik, *[getattr(m, ATTR[k]) for k in kinds])
        if not judge(rep, net, kind, m, inv, hold['H'], H1, None, us[kind], V, a['dt'], case):
            return False
        return transfer(rep, net, kinds, m, inv, hold['H'], H1, hold['Q'], us, a['dt'],
                        np.zeros(net.M) if a.get('Q_in') is None else a['Q_in'], m.A_sj[inv], case, start=hold['H0'])
    apply(m, first)
    rep.transitions += 1
    if visit(m, None, (first,), None):
        core.explore(m, list(acts), apply, depth, visit, rep, prefix=(first,))
    return rep


def job(which, *a):
    return grid_job(*a) if which == 'grid' else seq_job(*a)


def sequences(net, n):
    """alphabet of inflow x setting patterns"""
    M = net.M
    e = np.eye(M)
    ins = [np.zeros(M), e[0] * 1.5, e[1] * 1.2 - e[0] * .3, e[M - 1] * .8]
    out = {}
    pats = [[1., .5, 0., .25], [0., 1., .3, .7], [.4, 0., 1., 1.], [1., 1., 1., 0.]]
    for i in range(n):
        a = dict(Q_in=ins[i % 4], dt=[2., 10., 40., .5][i % 4])
        for k in ('orifices', 'weirs', 'pumps'):
            rows = getattr(net, k)
            if rows and not (i == 3 and k == 'weirs'):
                a[SIG[k]] = np.array([pats[(i + s) % 4][(i + j) % 4] for j, s in zip(range(len(rows)), [0] * 9)])
        out['a%d' % i] = a
    return out


def web(kind, **kw):
    """four tanks joined by three different structures of one kind, plus a separate conduit"""
    z = [.6, .2, 0., .4]
    sj = [dict(z_inv=z[j], h_0=[1.1, .5, .9, .2][j], c=[4., 7., 5., 6.][j]) for j in range(4)]
    sj += [dict(z_inv=.1, h_0=.5), dict(z_inv=0., h_0=.6)]
    sl = [nets.link(4, 5, h_0=.5)]
    rows = dict(orifices=[nets.ori(0, 1), nets.ori(2, 1, orientation='bottom', z_o=.2, shape='circular', g1=.4, g2=0., y_max=.4, oneway=True, C=.8),
                          nets.ori(1, 3, z_o=.1, shape='trapezoidal', g1=.5, g2=.3, g3=.4, y_max=.5, C=.5)],
                weirs=[nets.weir(0, 1), nets.weir(2, 1, z_w=.2, L=1.3, s=0., y_max=.4, Cr=1.5), nets.weir(1, 3, z_w=.1, L=.2, s=1.5, Ct=.9, y_max=1.)],
                pumps=[nets.pump(0, 1, dH_min=-2.), nets.pump(1, 2, a_p=5., b_p=12., c_p=2., dH_min=.1, dH_max=3.), nets.pump(1, 3, z_p=.5, c_p=1.2, dH_min=-.2, dH_max=.4)])[kind]
    for r in rows:
        if kind == 'orifices':
            r.setdefault('oneway', False)
    return nets.Net('web-' + kind, sj, sl, **{kind: rows}, **kw)


def run(kind, rows, tier, hgrid, ugrid, qgrid):
    jobs = []
    for row in rows:
        for z in ((0., 0.), (.5, 0.), (0., .3)):
            for A, dt in ((2000., 5.), (3., 20.)):
                jobs.append(('grid', kind, row, z, {}, A, dt, hgrid, ugrid, qgrid))
    jobs.append(('grid', kind, rows[0], (.2, 0.), dict(sparse=True), 50., 5., hgrid, ugrid, qgrid))
    jobs.append(('grid', kind, rows[0], (.2, 0.), dict(auto_permute=True), 50., 5., hgrid, ugrid, qgrid))
    depth = 5 if tier == 'quick' else 7
    for net in (web(kind), web(kind, sparse=True), web(kind, auto_permute=True),
                nets.control(which={'orifices': 'o', 'weirs': 'w', 'pumps': 'p'}[kind]), nets.control(which='owp')):
        acts = sequences(net, 4)
        jobs += [('seq', net, kind, acts, f, depth) for f in acts]
        jobs += [('seq', net, kind, acts, f, depth - 2, n) for f in acts for n in (2, 3)]
    return core.run_jobs(job, jobs)
