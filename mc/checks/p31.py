"""P31: generated conduit discretisation equals the explicit one; per-conduit values reach their own elements only.

For every network, every assignment of element counts to conduits and every listing order a model with
tabulated junctions and links is stepped through every action sequence (to a depth) beside
 - the generated model, when all conduits have the same number of elements, and
 - one generated model per conduit, for networks of separate conduits with differing element counts."""
import itertools
import numpy as np
import pandas as pd
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'compared': 8000, 'uneven': 2000, 'initial': 400, 'mirrored': 4000}, 'thorough': {'compared': 60000, 'uneven': 20000, 'initial': 800}}
ASSUMPTIONS = ['explicit tables list the junctions and links of a conduit one after the other from its first to its last junction',
               'mirrored listings are compared while no junction is dry', 'after the constructor\'s settling step of 1e-6 s depths and flows are the initial ones to 1e-3 (relative)']
KEYS = ('h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik')


def oriented(net):
    """the conduits as the documentation places them: from the higher end to the lower"""
    out = []
    for r in net.sl:
        r = dict(r)
        z0 = net.sj[r['sj_0']]['z_inv'] + r['in_offset']
        z1 = net.sj[r['sj_1']]['z_inv'] + r['out_offset']
        if z0 < z1:
            for a, b in (('sj_0', 'sj_1'), ('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
                if a in r:
                    r[a], r[b] = r[b], r[a]
            r['Q_0'] = -r['Q_0']
        out.append(r)
    return out


def explicit(net, counts, raw=False):
    """superlinks, links and junctions tables written from the description of each conduit"""
    sl, links, juncs = [], [], []
    for k, (r, n) in enumerate(zip(net.sl if raw else oriented(net), counts)):
        z0 = net.sj[r['sj_0']]['z_inv'] + r['in_offset']
        z1 = net.sj[r['sj_1']]['z_inv'] + r['out_offset']
        uk, dk = r.get('dx_uk', 0.), r.get('dx_dk', 0.)
        slope = (z0 - z1) / (r['dx'] + uk + dk)
        j0 = len(juncs)
        for i in range(n + 1):
            x = r['dx'] * i / n
            juncs.append(dict(id=len(juncs), name=str(len(juncs)), k=k, h_0=r['h_0'], A_s=r['A_s'], z_inv=z0 - slope * (uk + x)))
        for i in range(n):
            d = {c: r[c] for c in ('shape', 'g1', 'g2', 'g3', 'g4', 'Q_0', 'h_0', 'A_s', 'ctrl', 'A_c', 'C', 'n')}
            for c in ('g5', 'g6', 'g7', 'transect', 'friction_method'):
                if c in r:
                    d[c] = r[c]
            d.update(id=len(links), name=str(len(links)), j_0=j0 + i, j_1=j0 + i + 1, k=k, dx=r['dx'] / n)
            links.append(d)
        row = dict(id=k, name=r.get('name', k), j_0=j0, j_1=j0 + n)
        for c in ('sj_0', 'sj_1', 'in_offset', 'out_offset', 'C_uk', 'C_dk', 'dx_uk', 'dx_dk', 'max_depth', 'friction_method', 'n'):
            if c in r and c != 'n':
                row[c] = r[c]
        sl.append(row)
    return pd.DataFrame(sl), pd.DataFrame(links), pd.DataFrame(juncs)


def build_explicit(net, counts, raw=False, **kw):
    t = net.tables()
    sl, links, juncs = explicit(net, counts, raw)
    t['superlinks'] = sl
    args = dict(net.kw)
    args.pop('internal_links')
    args.update(kw)
    from pipedream_solver.hydraulics import SuperLink
    return SuperLink(links=links, junctions=juncs, **t, **args)


def varied(net):
    """distinct initial depth and flow, roughness and surface area per conduit"""
    n = net.copy()
    for k, r in enumerate(n.sl):
        r.update(h_0=.3 + .11 * k, Q_0=.05 * (k + 1) * (-1) ** k, A_s=.2 + .3 * k)
        if r.get('friction_method', 'cm') == 'cm':
            r['n'] = .012 + .004 * k
    return n


def catalogue():
    out = [nets.chain(('rect_open', 'circular')), nets.tee(), nets.loop(), nets.parallel(), nets.flipped(), nets.flat(),
           nets.drop_net(), nets.irregular(), nets.control(which='owp'), nets.outfall(), nets.tee(method='f').copy('tee-f'),
           nets.loop(method='lsq').copy('loop-lsq'), nets.loop(auto_permute=True).copy('loop-permuted'),
           nets.flat(inertial_damping=True).copy('flat-damped')]
    out += nets.shapes()
    n = nets.tee().copy('tee-ctrl')
    n.sl[1].update(ctrl=True, A_c=.4, C=1.5)
    out.append(n)
    n = nets.tee().copy('tee-ends')
    for k, r in enumerate(n.sl):
        r.update(dx_uk=3. + k, dx_dk=5. - k)
    out.append(n)
    for fm in ('hw', 'dw'):
        n = nets.tee().copy('tee-' + fm)
        for r in n.sl:
            r['friction_method'] = 'cm'
        n.sl[0].update(friction_method=fm, n=120. if fm == 'hw' else .0015)
        out.append(n)
    n = nets.flipped().copy('flipped-ends')
    for k, r in enumerate(n.sl):
        r.update(dx_uk=3. + k, dx_dk=5. - k, in_offset=.05 * k, out_offset=.1)
    out.append(n)
    return [varied(n).copy() for n in out]


def actions(net, counts):
    M = net.M
    NI = sum(c + 1 for c in counts)
    q = .06 * ((np.arange(M) * 3) % 4)
    z = np.array([r['z_inv'] for r in net.sj])
    qi = np.concatenate([[.003 * (k + 1)] + [.004 * (k + 1) / (c - 1)] * (c - 1) + [.001] if c > 1 else [.002 * (k + 1)] * 2
                         for k, c in enumerate(counts)])
    if net.kw.get('auto_permute'):
        z = z[net.build().permutations]
    ctl = {}
    for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
        if rows:
            ctl[key] = np.linspace(1., .4, len(rows))
    return {'fill': dict(Q_in=q, dt=5., **ctl), 'back': dict(H_bc=z + 1.1, Q_in=-.1 * q, dt=8., **ctl),
            'side': dict(Q_0Ik=qi, dt=12.), 'iter': dict(Q_in=q * 2, H_bc=z + .2, dt=20., num_iter=3, head_tol=1e-9, **ctl)}


def step(m, a):
    m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()})


def compare(rep, a, b, tol, case, what):
    for k in ('H_j',) + KEYS + ('z_inv_Ik',) + tuple('Q_' + s for s in 'owp'):
        g = (lambda m: np.array(m._z_inv_Ik if k == 'z_inv_Ik' else getattr(m, k), float))
        if k[:2] == 'Q_' and k[2] in 'owp' and not getattr(a, 'n' + k[1:]):
            continue
        x, y = g(a), g(b)
        if x.shape != y.shape or not core.close(x, y, tol, tol):
            rep.violate('%s: %s is %s with tabulated elements, %s generated' % (what, k, x, y), case)
            return False
    return True


def even(net, n, depth):
    rep = core.Report()
    net = net.copy(internal_links=n)
    counts = (n,) * net.NK
    case0 = dict(net=net.name, elements=counts)
    a, b = build_explicit(net, counts), net.build()
    initial(rep, net, counts, a, dict(case0, form='tabulated'))
    initial(rep, net, counts, b, dict(case0, form='generated'))
    acts = actions(net, counts)
    if not compare(rep, a, b, 1e-9, case0, 'at the start'):
        return rep

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        sa, sb = core.snap(a), core.snap(b)
        for name, act in acts.items():
            core.restore(a, sa)
            core.restore(b, sb)
            step(a, act)
            step(b, act)
            rep.transitions += 1
            rep.count('compared')
            rep.state(a.H_j, a.h_Ik, a.Q_ik)
            if compare(rep, a, b, 1e-7, dict(case0, ops=hist + (name,)), 'after %s' % (hist + (name,),)):
                rec(hist + (name,))
        core.restore(a, sa)
        core.restore(b, sb)
    rec(())
    rep.sample(dict(case0, depth=depth))
    return rep


def initial(rep, net, counts, m, case):
    """depths and flows given per conduit are found in every element of it"""
    rep.count('initial')
    h = np.concatenate([[r['h_0']] * (c + 1) for r, c in zip(net.sl, counts)])
    Q = np.concatenate([[r['Q_0']] * c for r, c in zip(oriented(net), counts)])
    start, end = np.cumsum([0] + [c + 1 for c in counts])[:-1], np.cumsum([c + 1 for c in counts]) - 1
    inner = np.ones(len(h), bool)
    inner[start] = inner[end] = False
    if m._dt and len(h) != len(m.h_Ik):
        rep.violate('%d junctions, expected %d' % (len(m.h_Ik), len(h)), case)
        return
    if not core.close(m.h_Ik[inner], h[inner], 1e-3, 1e-4):
        rep.violate('initial depths of inner junctions are %s, the table says %s' % (m.h_Ik[inner], h[inner]), case)
    if not core.close(m.Q_ik, Q, 1e-2, 1e-3):
        rep.violate('initial flows are %s, the table says %s' % (m.Q_ik, Q), case)
    for attr, col in (('_A_SIk', 'A_s'), ('_n_ik', 'n')):
        rep_n = [c + 1 if col == 'A_s' else c for c in counts]
        want = np.concatenate([[r[col]] * c for r, c in zip(net.sl, rep_n)])
        if not core.close(getattr(m, attr), want, 1e-12, 1e-12):
            rep.violate('%s is %s, the table says %s' % (col, getattr(m, attr), want), case)


def separate(kind):
    """networks of conduits that share no superjunction, as a list of one-conduit nets"""
    shapes = {'a': ('rect_open', 40.), 'b': ('circular', 25.), 'c': ('trapezoidal', 60.)}
    out = []
    for i, ch in enumerate(kind):
        s, L = shapes[ch]
        n = nets.Net('one-' + ch, [dict(z_inv=.3 + .1 * i, h_0=.6, c=6. + i), dict(z_inv=.1 * i, h_0=.5, c=5., bc=(i != 1))],
                     [nets.link(0, 1, s, dx=L, h_0=.35 + .1 * i, Q_0=.04 * (i + 1), n=.012 + .003 * i, C_uk=.4 + .1 * i)])
        out.append(n)
    return out


def join(parts):
    sj, sl = [], []
    for p in parts:
        b = len(sj)
        sj += [dict(r) for r in p.sj]
        sl += [dict(r, sj_0=r['sj_0'] + b, sj_1=r['sj_1'] + b) for r in p.sl]
    return nets.Net('+'.join(p.name for p in parts), sj, sl)


def uneven(kind, counts, depth, opts):
    """conduits with differing numbers of elements: each behaves as it does alone"""
    rep = core.Report()
    parts = separate(kind)
    whole = join(parts)
    whole.kw.update(opts)
    case0 = dict(conduits=kind, elements=counts, options=opts)
    m = build_explicit(whole, counts)
    initial(rep, whole, counts, m, case0)
    alone = [p.copy(internal_links=c, **dict(opts, auto_permute=False)).build() for p, c in zip(parts, counts)]
    Ij = np.cumsum([0] + [c + 1 for c in counts])
    ij = np.cumsum([0] + list(counts))
    names = ['fill', 'back', 'rest']

    def act(model, idx, a):
        q, H = np.zeros(model.M), model.H_j.copy()
        if opts.get('auto_permute') and model is m:
            inv = np.argsort(model.permutations)
        else:
            inv = np.arange(model.M)
        for p, i in enumerate(idx):
            if a == 'fill':
                q[inv[2 * p]] = .05 * (i + 1)
            elif a == 'back':
                H[inv[2 * p + 1]] = .1 * i + .9
        model.step(H_bc=H, Q_in=q, dt=6. if a != 'rest' else 15.)

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        s = core.snap(m)
        ss = [core.snap(x) for x in alone]
        for a in names:
            core.restore(m, s)
            for x, y in zip(alone, ss):
                core.restore(x, y)
            act(m, range(len(parts)), a)
            rep.transitions += 1
            rep.state(m.H_j, m.h_Ik, m.Q_ik)
            rep.count('uneven')
            ok = True
            inv = np.argsort(m.permutations)
            for i, x in enumerate(alone):
                act(x, [i], a)
                for what, got, want in (('H_j', m.H_j[inv][2 * i:2 * i + 2], x.H_j), ('h_Ik', m.h_Ik[Ij[i]:Ij[i + 1]], x.h_Ik),
                                        ('Q_ik', m.Q_ik[ij[i]:ij[i + 1]], x.Q_ik), ('Q_uk', m.Q_uk[i:i + 1], x.Q_uk),
                                        ('Q_dk', m.Q_dk[i:i + 1], x.Q_dk), ('x_Ik', m.x_Ik[Ij[i]:Ij[i + 1]], x.x_Ik)):
                    if not core.close(got, want, 1e-7, 1e-8):
                        rep.violate('conduit %d: %s is %s in the network, %s alone' % (i, what, got, want), dict(case0, ops=hist + (a,)))
                        ok = False
                        break
            if ok:
                rec(hist + (a,))
        core.restore(m, s)
        for x, y in zip(alone, ss):
            core.restore(x, y)
    rec(())
    return rep


def mirror(net, n, depth):
    """conduits tabulated from their lower to their upper end: the same network seen the other way round"""
    rep = core.Report()
    net = net.copy(internal_links=n)
    counts = (n,) * net.NK
    turned = [r['sj_0'] != o['sj_0'] for r, o in zip(net.sl, oriented(net))]
    case0 = dict(net=net.name, elements=counts, turned=turned)
    a, b = build_explicit(net, counts, raw=True), build_explicit(net, counts)
    # (iterating is left out: a pass inside the step may dry a junction unseen)
    acts = {k: {x: y for x, y in v.items() if x not in ('num_iter', 'head_tol')} for k, v in actions(net, counts).items()}

    def view(m, flip):
        h, Q, x = m.h_Ik.reshape(-1, n + 1).copy(), m.Q_ik.reshape(-1, n).copy(), m.x_Ik.reshape(-1, n + 1).copy()
        u, d = m.Q_uk.copy(), m.Q_dk.copy()
        for k, t in enumerate(turned):
            if flip and t:
                h[k], Q[k] = h[k][::-1].copy(), -Q[k][::-1]
                u[k], d[k] = -m.Q_dk[k], -m.Q_uk[k]
        return dict(H_j=m.H_j, h_Ik=h, Q_ik=Q, Q_uk=u, Q_dk=d)

    def given(act, flip):
        act = dict(act)
        if 'Q_0Ik' in act and flip:
            q = act['Q_0Ik'].reshape(-1, n + 1).copy()
            for k, t in enumerate(turned):
                if t:
                    q[k] = q[k][::-1].copy()
            act['Q_0Ik'] = q.ravel()
        return act

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        sa, sb = core.snap(a), core.snap(b)
        for name, act in acts.items():
            core.restore(a, sa)
            core.restore(b, sb)
            step(a, given(act, True))
            step(b, act)
            rep.transitions += 1
            if min(a.h_Ik.min(), b.h_Ik.min()) <= a.min_depth * (1 + 1e-9):
                continue             # a drying junction is held at the minimum depth in the order of solution
            rep.count('mirrored')
            rep.state(a.H_j, a.h_Ik, a.Q_ik)
            va, vb = view(a, True), view(b, False)
            bad = [k for k in va if not core.close(va[k], vb[k], 1e-6, 1e-7)]
            if bad:
                rep.violate('%s is %s when tabulated from the lower end, %s from the upper' % (bad[0], va[bad[0]], vb[bad[0]]),
                            dict(case0, ops=hist + (name,)))
            else:
                rec(hist + (name,))
        core.restore(a, sa)
        core.restore(b, sb)
    rec(())
    return rep


def dispatch(kind, *a):
    return dict(even=even, mirror=mirror, uneven=uneven)[kind](*a)


def run(tier, seed):
    deep = tier != 'quick'
    jobs = []
    for n in catalogue():
        for c in (1, 2, 3, 5) + ((4, 8) if deep else ()):
            jobs.append(('even', n, c, 5 if deep else 3))
    sizes = (1, 2, 3, 5)
    for n in catalogue():
        if n.name.startswith('flipped') or n.name in ('drop', 'tee', 'shape-circular', 'loop'):
            for flip in itertools.product([False, True], repeat=n.NK):
                if not any(flip) and not n.name.startswith('flipped'):
                    continue
                v = n.copy()
                for r, f in zip(v.sl, flip):
                    if f:
                        for x, y in (('sj_0', 'sj_1'), ('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
                            if x in r:
                                r[x], r[y] = r[y], r[x]
                        r['Q_0'] = -r['Q_0']
                for c in (1, 2, 3):
                    jobs.append(('mirror', v, c, 4 if deep else 3))
    for kind in ('ab', 'abc', 'ca'):
        for c in itertools.product(sizes, repeat=len(kind)):
            if len(set(c)) == 1:
                continue
            if not deep and len(kind) == 3 and c[0] != 2 and len(set(c)) < 3:
                continue
            for o in ({}, dict(method='f'), dict(method='lsq'), dict(auto_permute=True)):
                if o and not deep and len(kind) == 3 and len(set(c)) < 3:
                    continue
                jobs.append(('uneven', kind, c, 4 if deep else 3, o))
    return core.run_jobs(dispatch, jobs)
