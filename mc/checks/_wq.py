"""Shared exploration for the water quality properties P24-P28: every sequence of hydraulic actions and
concentration inputs to a depth, the quality model stepped after every hydraulic step with the same dt."""
import copy
import itertools
import numpy as np
import pandas as pd
from mc import core, nets

MIND = 1e-5


# ------------------------------------------------------------------ networks
def ends(n, name, up=.5, dn=.8, **kw):
    n = n.copy(name, **kw)
    for k, r in enumerate(n.sl):
        r['dx_uk'] = up + .1 * k
        r['dx_dk'] = dn
    return n


def mix(n, shapes):
    for r, s in zip(n.sl, itertools.cycle(shapes)):
        r['shape'] = s
        for g in ('g1', 'g2', 'g3', 'g4'):
            r.pop(g, None)
        r.update(dict(nets.SL, **nets.DIM[s]) if False else dict({g: nets.SL[g] for g in ('g1', 'g2', 'g3', 'g4')}, **nets.DIM[s]))
    return n


def catalogue(tier='quick'):
    R, C = 'rect_open', 'circular'
    out = [
        ends(nets.chain((R, R), h=.6), 'chain'),
        ends(mix(nets.tee(), (C, R, R)), 'tee'),
        ends(mix(nets.loop(), (R, C)), 'loop'),
        ends(mix(nets.flipped(), (R, C)), 'flipped'),
        ends(mix(nets.flat(), (R,)), 'flat'),
        ends(mix(nets.flat(), (R, C)), 'flat-3', up=2., dn=1.5, internal_links=1),
        ends(mix(nets.drop_net(), (R, R)), 'drop'),
        ends(mix(nets.drop_net(h=MIND), (R, C)), 'drop-dry'),
        ends(mix(nets.parallel(), (R, C, R)), 'parallel', internal_links=2),
        ends(nets.chain((C, R), h=.5), 'chain-mixed', internal_links=5),
    ]
    for w in ('o', 'w', 'p', 'owp'):
        out.append(ends(nets.control(which=w), 'control-' + w))
    out.append(ends(nets.twin_controls(), 'twin-controls'))
    out.append(ends(nets.twin_controls(sparse=True), 'twin-controls-sparse'))
    out.append(ends(mix(nets.tee(sparse=True), (C, R, R)), 'tee-sparse'))
    out.append(ends(mix(nets.loop(auto_permute=True), (R, C)), 'loop-permuted'))
    out.append(ends(nets.control(which='owp', auto_permute=True), 'control-permuted'))
    out.append(ends(nets.twin_controls(auto_permute=True), 'twin-controls-permuted'))
    out.append(ends(nets.outfall(), 'outfall'))
    out.append(ends(nets.outfall(sparse=True), 'outfall-sparse'))
    out.append(ends(nets.outfall(auto_permute=True), 'outfall-permuted'))
    # storage curves, tabular storage
    n = ends(mix(nets.flat(), (R,)), 'flat-curves')
    for j, r in enumerate(n.sj):
        r.update(a=2. + j, b=1.5, c=1.)
    out.append(n)
    n = ends(mix(nets.tee(), (R,)), 'tee-tabular')
    for r in n.sj:
        r.update(storage='tabular', table='t')
    n.storages = {'t': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.]))}
    out.append(n)
    # nodes and junctions without any storage, as in the data sets of the repository
    n = ends(nets.chain((R, R, C), h=.6), 'no-storage')
    for r in n.sj[1:3]:
        r['c'] = 1e-3
    for r in n.sl:
        r['A_s'] = 0.
    out.append(n)
    n = ends(nets.flat(), 'no-junction-storage')
    mix(n, (R,))
    for r in n.sl:
        r['A_s'] = 0.
    out.append(n)
    return out


class Layout:
    """where each conduit's elements are, from the tables"""
    def __init__(self, net):
        nl = net.kw['internal_links']
        self.nl = nl
        z = [r['z_inv'] for r in net.sj]
        self.K = []
        for k, r in enumerate(net.sl):
            u, v = r['sj_0'], r['sj_1']
            zu, zv = z[u] + r['in_offset'], z[v] + r['out_offset']
            xu, xv = r['dx_uk'], r['dx_dk']
            if zu < zv:
                u, v, zu, zv, xu, xv = v, u, zv, zu, xv, xu
            self.K.append(dict(k=k, u=u, v=v, zu=zu, zv=zv, xu=xu, xv=xv, shape=r['shape'], g1=r['g1'], g2=r['g2'],
                               A_s=r['A_s'], dx=r['dx'] / nl))


def area(K, h0, h1):
    y = max(.5 * (h0 + h1), 0.)
    if K['shape'] == 'rect_open':
        return K['g2'] * y
    if K['shape'] == 'circular':
        d = K['g1']
        phi = min(y / d * 2, 2.)
        t = np.arccos(1 - phi)
        return d**2 / 4 * (t - np.cos(t) * np.sin(t))
    raise core.HarnessError(K['shape'])


def volume(net, j, h):
    r = net.sj[j]
    h = max(h, MIND)     # the smallest depth the hydraulic model works with
    if r['storage'] == 'functional':
        return r['c'] * h + (r['a'] * h**(r['b'] + 1) / (r['b'] + 1) if r['a'] else 0.)
    t = net.storages[r['table']]
    hs, As = np.asarray(t['h'], float), np.asarray(t['A'], float)
    v = 0.
    for a in range(len(hs) - 1):
        if h <= hs[a]:
            break
        x = min(h, hs[a + 1])
        A = As[a] + (As[a + 1] - As[a]) * (x - hs[a]) / (hs[a + 1] - hs[a])
        v += .5 * (As[a] + A) * (x - hs[a])
    if h > hs[-1]:
        v += As[-1] * (h - hs[-1])
    return v


# ------------------------------------------------------------------ actions
def actions(net):
    M = net.M
    free = [j for j in range(M) if not net.sj[j]['bc']]
    f, l = free[0], free[-1]

    def q(**kw):
        v = np.zeros(M)
        for j, x in kw.items():
            v[int(j[1:])] = x
        return v
    nl = net.kw['internal_links']
    qI = np.full(net.NK * (nl + 1), 1e-3)
    qI[nl // 2::nl + 1] = .05
    Hb = np.array([r['z_inv'] for r in net.sj], float)
    acts = [('rest', dict(Q_in=q(), dt=2.)),
            ('head', dict(Q_in=q(**{'j%d' % f: .4}), dt=5.)),
            ('tail', dict(Q_in=q(**{'j%d' % l: .8}), dt=4., H_bc=Hb + 1.1, num_iter=3, head_tol=0.)),
            ('long', dict(Q_in=q(**{'j%d' % f: .05}), dt=40., H_bc=Hb + .25)),
            ('draw', dict(Q_in=q(**{'j%d' % f: -.06}), dt=1.)),
            ('side', dict(Q_in=q(), dt=3., Q_0Ik=qI))]
    no, nw, np_ = len(net.orifices), len(net.weirs), len(net.pumps)
    for i, (name, a) in enumerate(acts):
        if no:
            a['u_o'] = np.array([[1., .5, .2, 0.][(i + j) % 4] for j in range(no)])
        if nw:
            a['u_w'] = np.array([[.9, .3, 1., 0.][(i + j) % 4] for j in range(nw)])
        if np_:
            a['u_p'] = np.array([[1., .4, 0.][(i + j) % 3] for j in range(np_)])
    return acts


def params(net, c0, K=0., D=0., bc=None, c0_j=None):
    """quality tables; c0 scalar or (junction, link, superjunction) arrays given per element index"""
    M, NK = net.M, net.NK
    nl = net.kw['internal_links']
    f = lambda v, n: np.full(n, float(v)) if np.isscalar(v) else np.asarray(v, float)
    cI, ci, cj = (c0, c0, c0) if np.isscalar(c0) else c0
    if np.isscalar(K):
        K = dict(j=K, I=K, i=K)
    if np.isscalar(D):
        D = dict(i=D, u=D * .7, d=D * 1.3)
    sj = pd.DataFrame(dict(K=f(K['j'], M), c_0=f(cj, M), bc=np.array([r['bc'] for r in net.sj]) if bc is None else bc))
    sl = pd.DataFrame(dict(K=f(0., NK), D=f(0., NK), D_uk=f(D['u'], NK), D_dk=f(D['d'], NK), c_0=f(0., NK), dx_uk=[r['dx_uk'] for r in net.sl],
                           dx_dk=[r['dx_dk'] for r in net.sl], KF_obs_point=np.zeros(NK, int), KF_process_sigma=np.full(NK, .1),
                           KF_measure_sigma=np.full(NK, .1)))
    jn = pd.DataFrame(dict(K=f(K['I'], NK * (nl + 1)), D=f(7., NK * (nl + 1)), c_0=f(cI, NK * (nl + 1))))
    ln = pd.DataFrame(dict(K=f(K['i'], NK * nl), D=f(D['i'], NK * nl), c_0=f(ci, NK * nl)))
    return dict(superjunction_params=sj, superlink_params=sl, junction_params=jn, link_params=ln)


def quality(m, net, c0=0., **kw):
    from pipedream_solver.transport import QualityBuilder
    lim = {k: kw.pop(k) for k in ('c_min', 'c_max') if k in kw}
    t = params(net, c0, **kw)
    p = order(m)
    if p is not None:
        t['superjunction_params'] = t['superjunction_params'].iloc[p].reset_index(drop=True)
    return QualityBuilder(m, **t, **lim)


def varied(net):
    """reaction and diffusion constants that differ from element to element"""
    nl = net.kw['internal_links']
    nI, ni, M, NK = net.NK * (nl + 1), net.NK * nl, net.M, net.NK
    v = lambda n, s, top: top * (1 + (np.arange(n) * s) % 5) / 5.
    return dict(K=dict(j=v(M, 2, 3e-3), I=v(nI, 3, 4e-3), i=v(ni, 4, 2e-3)), D=dict(i=v(ni, 3, .4), u=v(NK, 2, .25), d=v(NK, 3, .35)))


def order(m):
    return np.asarray(m.permutations) if getattr(m, 'permutations', None) is not None else None


def todo(m, a):
    """arguments in the numbering of the model"""
    p = order(m)
    out = {}
    for k, v in a.items():
        if isinstance(v, np.ndarray):
            v = v[p].copy() if p is not None and k in ('Q_in', 'H_bc', 'c_0j', 'c_bc') else v.copy()
        out[k] = v
    return out


def view(m, w=None):
    """states in table order"""
    p = order(m)
    inv = np.argsort(p) if p is not None else slice(None)
    d = dict(H=np.array(m.H_j)[inv], h=np.array(m.h_Ik), Q=np.array(m.Q_ik), Qu=np.array(m.Q_uk), Qd=np.array(m.Q_dk),
             B=np.array(m.B_ik), Bu=np.array(m._B_uk), Bd=np.array(m._B_dk), Asj=np.array(m.A_sj)[inv])
    for o in ('Q_o', 'Q_w', 'Q_p'):
        d[o] = np.array(getattr(m, o)) if getattr(m, 'n_' + o[2]) else np.zeros(0)
    if w is not None:
        d['c'] = conc(m, w)
    return d


def conc(m, w):
    p = order(m)
    inv = np.argsort(p) if p is not None else slice(None)
    return dict(j=np.array(w.c_j)[inv], I=np.array(w.c_Ik), i=np.array(w.c_ik), u=np.array(w.c_uk), d=np.array(w.c_dk))


def flat(c):
    return np.concatenate([c[k] for k in 'jIiud'])


def span(net, seed=0, lo=0., hi=1.):
    """a non-uniform initial state: (junctions, links, superjunctions), deterministic"""
    nl = net.kw['internal_links']
    nI, ni, M = net.NK * (nl + 1), net.NK * nl, net.M
    v = lambda n, s: lo + (hi - lo) * ((np.arange(n) * s + seed) % 7) / 6.
    return v(nI, 3), v(ni, 5), v(M, 4)


# ------------------------------------------------------------------ explorer
class World:
    """a hydraulic model and the quality models that ride on it"""
    passes = False      # look into iterated steps
    def __init__(self, net, ws, **kw):
        self.net = net
        self.m = net.build(**kw)
        self.w = [mk(self.m, net) for mk in ws]

    def objs(self):
        return [self.m] + self.w

    def snap(self):
        return [core.snap(o) for o in self.objs()]

    def restore(self, s):
        for o, x in zip(self.objs(), s):
            core.restore(o, x)

    def step(self, hyd, cs):
        """hyd: hydraulic arguments; cs: per quality model arguments"""
        self.H_last = view(self.m)['H']     # heads the last pass takes its coefficients at
        if self.passes and hyd.get('num_iter', 1) > 1:
            b = core.snap(self.m)
            self.m.step(**dict(todo(self.m, hyd), num_iter=hyd['num_iter'] - 1))
            self.H_last = view(self.m)['H']
            core.restore(self.m, b)
        self.m.step(**todo(self.m, hyd))
        for w, c in zip(self.w, cs):
            w.step(dt=hyd['dt'], **todo(self.m, c))


def explore(world, acts, depth, visit, rep, first):
    """acts: [(name, hyd, [conc args per model])]; visit(world, before, name, hist) -> False prunes"""
    table = {a[0]: a for a in acts}

    def rec(hist, names):
        if len(hist) >= depth:
            rep.traces += 1
            return
        base = world.snap()
        for nm in names:
            world.restore(base)
            bef = [view(world.m)] + [conc(world.m, w) for w in world.w]
            _, hyd, cs = table[nm]
            world.step(hyd, cs)
            rep.transitions += 1
            h = hist + (nm,)
            rep.state(world.m.H_j, world.m.Q_ik, *[w.c_j for w in world.w], *[w.c_ik for w in world.w])
            if visit(world, bef, table[nm], h) is False:
                rep.traces += 1
                continue
            rec(h, list(table))
        world.restore(base)
    rec((), [first] if first is not None else list(table))


def clamped(net, lay, m):
    """elements whose depth is at a limit after the step (water is not conserved there)"""
    v = view(m)
    z = np.array([r['z_inv'] for r in net.sj])
    top = np.array([r['max_depth'] for r in net.sj])
    cj = (v['H'] <= z + 1e-12) | (v['H'] >= z + top - 1e-9)
    cI = v['h'] <= MIND * (1 + 1e-9)
    return bool(cj.any() or cI.any())


# ------------------------------------------------------------------ ownership and pairings (P16)
PAIRINGS = ['chain', 'tee', 'control-owp']
OWN_OPS = ['plain', 'inputs', 'bc', 'set', 'inflow']


def _net(x):
    return next(n for n in catalogue() if n.name == x)


def pairing_tables(x):
    n = _net(x)
    t = n.tables()
    t['wq'] = params(n, span(n), K=1e-4, D=.01)
    return t


class Pairing:
    """one hydraulic model and one quality model with a fixed script"""
    def __init__(self, x, t=None):
        from pipedream_solver.hydraulics import SuperLink
        from pipedream_solver.transport import QualityBuilder
        t = dict(t or pairing_tables(x))
        self.n = _net(x)
        wq = t.pop('wq')
        self.m = SuperLink(**t, **self.n.kw)
        self.w = QualityBuilder(self.m, **wq)

    def go(self, k):
        a = dict(actions(self.n))[('head', 'side', 'tail')[k]]
        self.m.step(**todo(self.m, a))
        self.w.step(dt=a['dt'], c_0j=np.linspace(1., 2., self.n.M), c_bc=np.full(self.n.M, .3))

    def view(self):
        d = view(self.m)
        c = conc(self.m, self.w)
        return dict({'hyd ' + k: v for k, v in d.items()}, **{'c ' + k: v for k, v in c.items()})


def ownership(x, first, depth, Caller, scribble):
    rep = core.Report()
    n = _net(x)
    acts = dict(actions(n))
    nI = n.NK * (n.kw['internal_links'] + 1)
    z = np.array([r['z_inv'] for r in n.sj])
    for rest in itertools.product(OWN_OPS, repeat=depth - 1):
        seq = (first,) + rest
        case = dict(net=x, calls=seq)
        out = []
        for twin in (False, True):
            from pipedream_solver.transport import QualityBuilder
            c = Caller(rep)
            given = []

            def own(name, o):
                given.append(o)
                return c.own(name, o)

            def after(what):
                if twin:
                    for o in given:
                        scribble(o)
                    given.clear()
                    return True
                return c.check(case, what)
            m = n.build()
            t = params(n, span(n), K=1e-4, D=.01)
            for k, v in t.items():
                own(k, v)
            w = QualityBuilder(m, **t)
            if not after('construction of a quality model'):
                return rep
            trail = []
            for k, op in enumerate(seq + ('again',)):
                if op == 'plain':
                    m.step(dt=4.)
                    w.step(dt=4.)
                elif op == 'inputs':
                    m.step(dt=5., Q_in=np.full(n.M, .1), Q_0Ik=np.full(nI, 1e-3), H_bc=z + .5)
                    w.step(dt=5., c_0j=own('c_0j', np.linspace(1., 2., n.M)), c_0Ik=own('c_0Ik', np.full(nI, .7)))
                elif op == 'bc':
                    m.step(dt=5., Q_in=np.full(n.M, .1), H_bc=z + .9)
                    w.step(dt=5., c_bc=own('c_bc', np.linspace(.4, .8, n.M)))
                elif op == 'again':
                    m.step(dt=3., Q_in=np.full(n.M, .02))
                    w.step(dt=3.)
                elif op == 'inflow':
                    m.step(dt=3., Q_in=np.full(n.M, .02))
                    w.step(dt=3., Q_0j=own('Q_0j', np.full(n.M, .02)), Q_0Ik=own('Q_0Ik', np.zeros(nI)), c_0j=own('c_0j', np.full(n.M, 3.)))
                elif op == 'set':
                    for e in ('c_j', 'c_Ik', 'c_ik', 'c_uk', 'c_dk'):
                        setattr(w, e, own('assigned ' + e, np.array(getattr(w, e)) * .8 + .1))
                    m.step(dt=3., Q_in=np.full(n.M, .02))
                    w.step(dt=3.)
                rep.count('wq_calls')
                rep.transitions += 1
                if not after('quality call `%s`' % op):
                    return rep
                trail.append(dict(conc(m, w)))
                rep.state(flat(conc(m, w)))
            out.append(trail)
        for k, (a, b) in enumerate(zip(*out)):
            if not np.array_equal(flat(a), flat(b)):
                rep.violate('concentrations change when the caller reuses his objects', dict(case, at=k))
                return rep
        rep.traces += 1
    return rep
