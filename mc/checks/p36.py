"""P36: transport does not depend on labels, listing order or the end a conduit is described from; separate networks do not
exchange constituents.

The water quality counterpart of P10: a network and its rewritten form take every action sequence to a depth in lock step,
with reaction and diffusion constants, initial and inflow concentrations that differ from element to element."""
import copy
import itertools
import numpy as np
from mc import core, nets
from mc.checks import _wq, p10

LEVEL = 'model_checking'
FLOOR = {'quick': {'relabelled': 5000, 'turned': 1500, 'pairs': 1500, 'solvers': 700}, 'thorough': {'relabelled': 50000, 'turned': 10000, 'pairs': 10000}}
ASSUMPTIONS = ['conduits are rect_open or circular with dx_uk, dx_dk > 0 (the documented limits of the quality solver)',
               'agreement to 1e-6 (1e-4 with control structures); dry networks are left out',
               'tables of the quality model list conduit ends in the direction of the hydraulic model (its D_uk belongs to the higher end)']


def catalogue():
    out = []
    for n in _wq.catalogue():
        if n.name.endswith('-dry') or n.kw.get('sparse') or n.kw.get('auto_permute') or n.M > 4:
            continue
        n = n.copy()
        if n.weirs:
            for j, r in enumerate(n.sj):      # no head exactly at a crest
                r['h_0'] += .013 * (j + 1)
        out.append(n)
    return out


class Case:
    """a network with its constants, concentrations and actions, in the order of its tables"""
    def __init__(self, net, seed=1):
        self.net = net
        nl, M, NK = net.kw['internal_links'], net.M, net.NK
        self.c0 = _wq.span(net, seed, .2, 3.)
        self.par = _wq.varied(net)
        self.con = dict(c_0j=1. + (np.arange(M) * 2 + seed) % 5, c_0Ik=.5 + (np.arange(NK * (nl + 1)) * 3 + seed) % 4, c_bc=.3 + .4 * ((np.arange(M) + seed) % 3))
        self.acts = dict(_wq.actions(net))

    def world(self):
        return _wq.World(self.net, [lambda m, n: _wq.quality(m, n, self.c0, **self.par)])

    def step(self, w, nm):
        w.step(self.acts[nm], [self.con])

    def copy(self, net):
        c = copy.copy(self)
        c.net = net
        c.par = copy.deepcopy(self.par)
        c.con = dict(self.con)
        c.acts = {k: dict(v) for k, v in self.acts.items()}
        return c


def blocks(net, v, order=None, turn=()):
    """values per interior element, conduits re-ordered or reversed"""
    b = np.asarray(v).reshape(net.NK, -1).copy()
    for k in turn:
        b[k] = b[k][::-1]
    return (b if order is None else b[list(order)]).ravel()


def lockstep(rep, A, B, back, depth, case, key, pick=None):
    """back(observation of the rewritten network) is what the original shows"""
    wa, wb = A.world(), B.world()
    tol = 1e-4 if A.net.orifices or A.net.weirs or A.net.pumps or B.net.orifices else 1e-6

    def bad(hist):
        x, y = _wq.conc(wa.m, wa.w[0]), back(_wq.conc(wb.m, wb.w[0]))
        rep.state(_wq.flat(x))
        for e in 'jIiud':
            if x[e].shape != y[e].shape or not core.close(x[e], y[e], tol, tol):
                rep.violate('c_%s is %s, rewritten %s' % (e, x[e], y[e]), dict(case, ops=hist))
                return True

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return True
        sa, sb = wa.snap(), wb.snap()
        for nm in A.acts:
            wa.restore(sa)
            wb.restore(sb)
            A.step(wa, nm)
            B.step(wb, nm)
            rep.transitions += 1
            rep.count(key)
            if bad(hist + (nm,)) or not rec(hist + (nm,)):
                return False
        wa.restore(sa)
        wb.restore(sb)
        return True
    return not bad(()) and rec(())


def relabelled(net, perms, depth):
    rep = core.Report()
    A = Case(net)
    for p, q in perms:
        ip = np.argsort(p)
        n = p10.relabel(net, p, q)
        B = A.copy(n)
        B.c0 = (blocks(net, A.c0[0], q), blocks(net, A.c0[1], q), A.c0[2][ip])
        B.par['K'] = dict(j=A.par['K']['j'][ip], I=blocks(net, A.par['K']['I'], q), i=blocks(net, A.par['K']['i'], q))
        B.par['D'] = dict(i=blocks(net, A.par['D']['i'], q), u=A.par['D']['u'][list(q)], d=A.par['D']['d'][list(q)])
        B.con = dict(c_0j=A.con['c_0j'][ip], c_bc=A.con['c_bc'][ip], c_0Ik=blocks(net, A.con['c_0Ik'], q))
        for a in B.acts.values():
            for k in ('Q_in', 'H_bc'):
                if isinstance(a.get(k), np.ndarray):
                    a[k] = a[k][ip]
            if 'Q_0Ik' in a:
                a['Q_0Ik'] = blocks(net, a['Q_0Ik'], q)
        iq = np.argsort(q)

        def back(c):
            return dict(j=c['j'][list(p)], I=blocks(net, c['I'], iq), i=blocks(net, c['i'], iq), u=c['u'][iq], d=c['d'][iq])
        if not lockstep(rep, A, B, back, depth, dict(net=net.name, superjunction_rows=p, conduit_order=q), 'relabelled'):
            break
    rep.sample(dict(net=net.name, permutations=len(perms), depth=depth))
    return rep


def turned(net, depth):
    rep = core.Report()
    A = Case(net)
    z = [r['z_inv'] for r in net.sj]
    level = [abs(z[r['sj_0']] + r['in_offset'] - z[r['sj_1']] - r['out_offset']) < 1e-12 for r in net.sl]
    for mask in itertools.product((0, 1), repeat=net.NK):
        if not any(mask):
            continue
        n = net.copy()
        n.sl = [p10.flip_row(r) if f else copy.deepcopy(r) for r, f in zip(net.sl, mask)]
        real = [k for k in range(net.NK) if mask[k] and level[k]]
        B = A.copy(n)
        B.c0 = (blocks(net, A.c0[0], turn=real), blocks(net, A.c0[1], turn=real), A.c0[2])
        B.par['K'].update(I=blocks(net, A.par['K']['I'], turn=real), i=blocks(net, A.par['K']['i'], turn=real))
        u, d = A.par['D']['u'].copy(), A.par['D']['d'].copy()
        u[real], d[real] = A.par['D']['d'][real], A.par['D']['u'][real]
        B.par['D'] = dict(i=blocks(net, A.par['D']['i'], turn=real), u=u, d=d)
        B.con['c_0Ik'] = blocks(net, A.con['c_0Ik'], turn=real)
        for a in B.acts.values():
            if 'Q_0Ik' in a:
                a['Q_0Ik'] = blocks(net, a['Q_0Ik'], turn=real)

        def back(c):
            c = dict(c, I=blocks(net, c['I'], turn=real), i=blocks(net, c['i'], turn=real))
            u, d = c['u'].copy(), c['d'].copy()
            u[real], d[real] = c['d'][real], c['u'][real]
            return dict(c, u=u, d=d)
        if not lockstep(rep, A, B, back, depth, dict(net=net.name, turned=mask), 'turned'):
            break
    rep.sample(dict(net=net.name, turned=2**net.NK - 1))
    return rep


def paired(a, b, first, depth):
    """a and b in one model; `first`: which of them is looked at"""
    rep = core.Report()
    A, B = Case(a), Case(b, 2)
    for x, y in zip(A.acts.values(), B.acts.values()):
        y['dt'] = x['dt']
    n = p10.join(a, b, False)
    J = A.copy(n)
    cat = lambda *x: np.concatenate(x)
    J.c0 = tuple(cat(x, y) for x, y in zip(A.c0, B.c0))
    for e in ('K', 'D'):
        J.par[e] = {k: cat(A.par[e][k], B.par[e][k]) for k in A.par[e]}
    J.con = {k: cat(A.con[k], B.con[k]) for k in A.con}
    for nm in J.acts:
        x, y = A.acts[nm], B.acts[nm]
        J.acts[nm] = dict({k: x[k] for k in ('dt', 'num_iter', 'head_tol') if k in x}, **{k: cat(*[t[k] for t in (x, y) if k in t]) if any(k in t for t in (x, y)) else None
                                         for k in ('Q_in', 'H_bc', 'Q_0Ik', 'u_o', 'u_w', 'u_p') if k in x or k in y})
        if ('H_bc' in x) != ('H_bc' in y):
            raise core.HarnessError('H_bc')
    one = A if first else B

    def back(c):
        cut = dict(j=a.M, I=len(A.c0[0]), i=len(A.c0[1]), u=a.NK, d=a.NK)
        return {k: (v[:cut[k]] if first else v[cut[k]:]) for k, v in c.items()}
    lockstep(rep, one, J, back, depth, dict(nets=[a.name, b.name], part=one.net.name), 'pairs')
    return rep


def solved(net, opt, depth):
    """the numbering and the form of the matrices"""
    rep = core.Report()
    A = Case(net)
    B = A.copy(net.copy(**opt))
    lockstep(rep, A, B, lambda c: c, depth, dict(net=net.name, options=opt), 'solvers')
    return rep


def dispatch(kind, *a):
    return dict(relabelled=relabelled, turned=turned, paired=paired, solved=solved)[kind](*a)


def run(tier, seed):
    deep = tier != 'quick'
    depth = 3 if deep else 2
    jobs = []
    for net in catalogue():
        P, K = list(itertools.permutations(range(net.M))), list(itertools.permutations(range(net.NK)))
        perms = [(p, K[i % len(K)]) for i, p in enumerate(P)] + [(P[0], q) for q in K[1:]]
        if deep:
            perms = list(itertools.product(P, K))
        else:
            perms = perms[1:][::2]
        for i in range(0, len(perms), 4):
            jobs.append(('relabelled', net, perms[i:i + 4], depth))
        jobs.append(('turned', net, depth))
        for opt in (dict(sparse=True), dict(auto_permute=True)):
            jobs.append(('solved', net, opt, depth))
    for n in ('flat', 'chain', 'flat-curves'):       # level conduits are really turned round
        net = next(x for x in catalogue() if x.name == n).copy(n + '-level')
        for r in net.sj:
            r['z_inv'] = 0.
        jobs.append(('turned', net, depth))
    cat = [n for n in catalogue() if n.kw['internal_links'] == 3]
    for a, b in itertools.product(cat, cat):
        for f in (True, False):
            if deep or (cat.index(a) + 2 * cat.index(b) + f) % 3 == 0:
                jobs.append(('paired', a, b, f, 2))
    return core.run_jobs(dispatch, jobs)
