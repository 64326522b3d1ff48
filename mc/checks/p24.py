"""P24: constituent mass is conserved in every element of the network."""
import numpy as np
from mc import core
from mc.checks import _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'balances': 1200000, 'exact': 1000000, 'steps': 25000, 'prescribed': 12000, 'kept': 12000, 'created': 1500},
         'thorough': {'balances': 8000000, 'exact': 5000000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'quality is stepped once after every hydraulic step with the same dt and the inputs of that step',
               'where the hydraulic step itself does not conserve water in an element (depth limits, curved sections), the '
               'balance is required only up to the concentration times the missing water']


class Balance:
    """one step: for every element  V'c' - Vc = dt*(in - out - decay)"""
    def __init__(self, net, lay, H_last, v0, c0, v1, c1, hyd, con, D, K):
        self.rows = []
        dt = hyd['dt']
        M = net.M
        Qin = hyd.get('Q_in', np.zeros(M))
        nI = net.NK * (lay.nl + 1)
        QI = hyd.get('Q_0Ik', np.zeros(nI))
        c0j = con.get('c_0j', np.zeros(M))
        c0I = con.get('c_0Ik', np.zeros(nI))
        acc = dict(net=np.zeros(M), mass=np.zeros(M), size=np.zeros(M))

        def move(Q, cu, cd):
            return max(Q, 0.) * cu + min(Q, 0.) * cd

        def give(j, Q, m):
            acc['net'][j] += Q
            acc['mass'][j] += m
            acc['size'][j] += abs(m)
        nl = lay.nl
        for k in lay.K:
            ii = slice(k['k'] * nl, (k['k'] + 1) * nl)
            II = slice(k['k'] * (nl + 1), (k['k'] + 1) * (nl + 1))
            h0, h1 = v0['h'][II], v1['h'][II]
            q, B = v1['Q'][ii], v1['B'][ii]
            cI, ci, pI, pi = c1['I'][II], c1['i'][ii], c0['I'][II], c0['i'][ii]
            u, v, n = k['u'], k['v'], k['k']
            thu, thv = H_last[u] >= k['zu'], H_last[v] >= k['zv']
            # cells: [upstream end, links..., downstream end]; junctions between them
            L = [k['xu']] + [k['dx']] * nl + [k['xv']]
            Bc = [v1['Bu'][n]] + list(B) + [v1['Bd'][n]]
            Qc = [v1['Qu'][n]] + list(q) + [v1['Qd'][n]]
            hu0 = [max(v0['H'][u] - k['zu'], 0.)] + list(h0)
            hd0 = list(h0) + [max(v0['H'][v] - k['zv'], 0.)]
            hu1 = [max(v1['H'][u] - k['zu'], 0.)] + list(h1)
            hd1 = list(h1) + [max(v1['H'][v] - k['zv'], 0.)]
            du = [thu * (v1['H'][u] - v0['H'][u])] + list(h1 - h0)
            dd = list(h1 - h0) + [thv * (v1['H'][v] - v0['H'][v])]
            cn = [c1['j'][u]] + list(cI) + [c1['j'][v]]
            cc = [c1['u'][n]] + list(ci) + [c1['d'][n]]
            pc = [c0['u'][n]] + list(pi) + [c0['d'][n]]
            Dc = [D['u'][n]] + list(D['i'][ii]) + [D['d'][n]]
            Kc = [0.] + list(K['i'][ii]) + [0.]
            jin = np.zeros((nl + 1, 3))
            for a in range(nl + 2):
                Vo = _wq.area(k, hu0[a], hd0[a]) * L[a]
                An = _wq.area(k, hu1[a], hd1[a])
                Vn = An * L[a]
                half = .5 * Bc[a] * L[a] / dt
                up, dn = Qc[a] + half * du[a], Qc[a] - half * dd[a]
                diff = 2 * Dc[a] * An / L[a]
                fin = move(up, cn[a], cc[a]) + diff * (cn[a] - cc[a])
                fout = move(dn, cc[a], cn[a + 1]) - diff * (cn[a + 1] - cc[a])
                size = (abs(up) + abs(dn) + 2 * diff) * max(cn[a], cc[a], cn[a + 1])
                self.rows.append(('cell %d of conduit %d' % (a, n), Vn * cc[a] - Vo * pc[a] - dt * (fin - fout - Kc[a] * Vn * cc[a]),
                                  abs(Vn - Vo - dt * (up - dn)), Vn * cc[a] + Vo * pc[a] + dt * size, max(cc[a], pc[a])))
                if a == 0:
                    give(u, -up, -fin)
                else:
                    jin[a - 1] += (-up, -fin, abs(fin))
                if a == nl + 1:
                    give(v, dn, fout)
                else:
                    jin[a] += (dn, fout, abs(fout))
            for a in range(nl + 1):
                I = k['k'] * (nl + 1) + a
                Vo, Vn = k['A_s'] * h0[a], k['A_s'] * h1[a]
                m = jin[a][1] + (QI[I] * c0I[I] if QI[I] > 0 else QI[I] * cI[a])
                self.rows.append(('junction %d of conduit %d' % (a, n), Vn * cI[a] - Vo * pI[a] - dt * (m - K['I'][I] * Vn * cI[a]),
                                  abs(Vn - Vo - dt * (jin[a][0] + QI[I])), Vn * cI[a] + Vo * pI[a] + dt * (jin[a][2] + abs(QI[I] * c0I[I])),
                                  max(cI[a], pI[a])))
        for rows, key in ((net.orifices, 'Q_o'), (net.weirs, 'Q_w'), (net.pumps, 'Q_p')):
            for r, Q in zip(rows, v1[key]):
                m = move(Q, c1['j'][r['sj_0']], c1['j'][r['sj_1']])
                give(r['sj_0'], -Q, -m)
                give(r['sj_1'], Q, m)
        for j in range(M):
            if net.sj[j]['bc']:
                continue
            z = net.sj[j]['z_inv']
            Vo, Vn = _wq.volume(net, j, v0['H'][j] - z), _wq.volume(net, j, v1['H'][j] - z)
            m = acc['mass'][j] + (Qin[j] * c0j[j] if Qin[j] > 0 else Qin[j] * c1['j'][j])
            self.rows.append(('superjunction %d' % j, Vn * c1['j'][j] - Vo * c0['j'][j] - dt * (m - K['j'][j] * Vn * c1['j'][j]),
                              abs(Vn - Vo - dt * (acc['net'][j] + Qin[j])) * (1 + K['j'][j] * dt)
                              # the step is solved with one surface area per superjunction, decay acts on that volume
                              + K['j'][j] * dt * abs(Vn - Vo - v1['Asj'][j] * (v1['H'][j] - v0['H'][j])),
                              Vn * c1['j'][j] + Vo * c0['j'][j] + dt * (acc['size'][j] + abs(Qin[j] * c0j[j])), max(c1['j'][j], c0['j'][j])))


def models(net):
    nl = net.kw['internal_links']
    n = dict(j=net.M, I=net.NK * (nl + 1), i=net.NK * nl, u=net.NK, d=net.NK)
    full = lambda keys, x: {k: np.full(n[k], x * dict(u=.7, d=1.3).get(k, 1.)) for k in keys}
    return [dict(D=full('iud', 0.), K=full('jIi', 0.)), dict(D=full('iud', .3), K=full('jIi', 2e-3)), _wq.varied(net)]


LABELS = ['conservative', 'reactive, diffusive', 'reactive, diffusive, different in every element']


def inputs(net):
    M = net.M
    nI = net.NK * (net.kw['internal_links'] + 1)
    out = {}
    for s, (a, h) in enumerate(_wq.actions(net)):
        c = dict(c_0j=np.array([[0., 3., 1.2, .4][(s + j) % 4] for j in range(M)]),
                 c_0Ik=np.array([[2., 0., .5][(s + j) % 3] for j in range(nI)]))
        if s % 2:
            c['c_bc'] = np.array([[.7, 2., .1][(s + j) % 3] for j in range(M)])
        out[a] = c
    return out


def job(net, depth, first):
    rep = core.Report()
    lay = _wq.Layout(net)
    ini = _wq.span(net, 0, .2, 2.)
    MODELS = models(net)
    w = _wq.World(net, [(lambda m, n, p=p: _wq.quality(m, n, ini, **p)) for p in MODELS])
    w.passes = True
    cin = inputs(net)
    acts = [(a, h, [cin[a]] * 3) for a, h in _wq.actions(net)]
    bc = net.bcs()

    def visit(world, bef, act, hist):
        rep.count('steps')
        v1 = _wq.view(world.m)
        ok = True
        for k, q in enumerate(world.w):
            c0, c1 = bef[1 + k], _wq.conc(world.m, q)
            b = Balance(net, lay, world.H_last, bef[0], c0, v1, c1, act[1], act[2][k], **MODELS[k])
            rep.count('balances', len(b.rows))
            for name, res, lost, size, cmax in b.rows:
                tol = 1e-8 * size + 1e-9 * (1 + cmax) + 1.001 * lost * cmax
                if lost * cmax <= 1e-6 * size:
                    rep.count('exact')
                if not abs(res) <= tol:
                    rep.violate('%s: mass changes by %.3e more than enters (%.3g of what moves), missing water explains %.1e'
                                % (name, res, res / size, lost * cmax), dict(net=net.name, history=hist, constituent=LABELS[k]),
                                signature='%s:%s' % (net.name, name))
                    ok = False
                    break
            for j in bc:
                want = act[2][k].get('c_bc', c0['j'])[j]
                rep.count('prescribed' if 'c_bc' in act[2][k] else 'kept')
                if abs(c1['j'][j] - want) > 1e-12 * (1 + want):
                    rep.violate('prescribed concentration %g is %g' % (want, c1['j'][j]), dict(net=net.name, history=hist), signature='bc')
                    ok = False
        return ok
    _wq.explore(w, acts, depth, visit, rep, first)
    rep.sample(dict(net=net.name, actions=[a[0] for a in acts], depth=depth))
    return rep


def job_new(net, depth):
    """a quality model made at any point of a hydraulic history starts from the given concentrations wherever there is water"""
    rep = core.Report()
    ini = _wq.span(net, 0, .2, 2.)
    lay = _wq.Layout(net)
    acts = dict(_wq.actions(net))
    m = net.build()

    def apply(m, a):
        m.step(**_wq.todo(m, acts[a]))

    def visit(m, bef, hist, out):
        v = _wq.view(m)
        for what, p in zip(LABELS, models(net)):
            w = _wq.quality(m, net, ini, **p)
            c = _wq.conc(m, w)
            rep.count('created')
            rep.state(_wq.flat(c), m.H_j)
            z = np.array([r['z_inv'] for r in net.sj])
            V = dict(j=np.array([_wq.volume(net, j, v['H'][j] - z[j]) for j in range(net.M)]),
                     I=np.array([k['A_s'] for k in lay.K for _ in range(lay.nl + 1)]) * v['h'],
                     i=np.array([_wq.area(k, v['h'][k['k'] * (lay.nl + 1) + a], v['h'][k['k'] * (lay.nl + 1) + a + 1]) * k['dx']
                                 for k in lay.K for a in range(lay.nl)]))
            Q = max(np.abs(v[x]).max(initial=0.) for x in ('Q', 'Qu', 'Qd', 'Q_o', 'Q_w', 'Q_p'))
            for e, g in (('j', ini[2]), ('i', ini[1]), ('I', ini[0])):
                rep.count('initial', len(g))
                # what a microsecond can move, and diffuse over half a metre
                tol = 2 * 1e-6 * (10 * Q + 50.) / np.maximum(V[e], 1e-6) + 1e-9
                bad = np.abs(c[e] - g) > tol
                if bad.any():
                    k = int(np.flatnonzero(bad)[0])
                    rep.violate('initial concentration is %g, given %g' % (c[e][k], g[k]), dict(net=net.name, history=hist, element=e, index=k, constituent=what), signature='init')
                    return False
        return True
    core.explore(m, list(acts), apply, depth, visit, rep)
    return rep


def dispatch(kind, *a):
    return globals()[kind](*a)


def run(tier, seed):
    depth = 4 if tier == 'quick' else 5
    jobs = [('job', n, depth, a) for n in _wq.catalogue(tier) for a, _ in _wq.actions(n)]
    jobs += [('job_new', n, 2 if tier == 'quick' else 3) for n in _wq.catalogue(tier)]
    return core.run_jobs(dispatch, jobs)
