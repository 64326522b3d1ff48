"""P10: labels, listing order and conduit direction do not change the physics; disconnected
networks do not interact."""
import copy
import itertools
import numpy as np
from mc import core, nets
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'relabelled': 500, 'flipped': 100, 'pairs': 100}, 'thorough': {'relabelled': 2000, 'flipped': 500, 'pairs': 500}}
ASSUMPTIONS = ['agreement to 1e-6 relative (elimination order differs); steps after a clamp keep the same tolerance',
               'a level conduit listed from its other end is compared until a depth in it is clamped: from there the recovery of interior flows is one-sided',
               'structures keep their own direction: they are not symmetric (offsets refer to the upstream invert)']


def catalogue():
    n1 = nets.chain(('rect_open', 'circular'))
    n2 = nets.tee()
    n3 = nets.loop()
    n4 = nets.drop_net()
    n5 = nets.control(which='owp')
    n6 = nets.irregular()
    n7 = nets.flat()
    n8 = nets.parallel()
    n9 = nets.tee().copy('tee-tabular')
    for j, r in enumerate(n9.sj):
        if j != 1:
            r.update(storage='tabular', table='t%d' % (j % 2))
        else:
            r.update(table=None)
    n9.storages = {'t0': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.])),
                   't1': dict(h=np.array([0., 5.]), A=np.array([12., 18.]))}
    n10 = nets.control(which='ow', auto_permute=True).copy('control-permuted')
    return [n1, n2, n3, n4, n5, n6, n7, n8, n9, n10, nets.outfall()]


def relabel(net, p, q, oo=None, ww=None):
    """p: new row of old superjunction j is p[j]; q: order in which the conduits are listed"""
    n = net.copy()
    n.sj = [None] * net.M
    for j in range(net.M):
        n.sj[p[j]] = copy.deepcopy(net.sj[j])
        n.sj[p[j]].update(name='node-%d' % p[j])
    n.sl = [copy.deepcopy(net.sl[k]) for k in q]
    for r in n.sl + n.orifices + n.weirs + n.pumps:
        r['sj_0'], r['sj_1'] = p[r['sj_0']], p[r['sj_1']]
    if oo:
        n.orifices = [n.orifices[i] for i in oo]
    if ww:
        n.weirs = [n.weirs[i] for i in ww]
    return n


def inputs(net, depth):
    acts = hb.iterated(hb.action_list(net, 'quick'), 'side')
    seqs = [('head', 'tail', 'long'), ('side', 'draw', 'tail'), ('tail', 'long', 'side')]
    if depth > 3:
        seqs = list(itertools.product(('head', 'tail', 'long', 'side'), repeat=3))
    return acts, seqs


def observe(m, net):
    inv = np.argsort(np.asarray(m.permutations))
    d = dict(H=m.H_j[inv].copy(), h=m.h_Ik.reshape(net.NK, -1).copy(), Q=m.Q_ik.reshape(net.NK, -1).copy(),
             Qu=m.Q_uk.copy(), Qd=m.Q_dk.copy(), A=m.A_sj[inv].copy(), V=m.V_j[inv].copy())
    for o in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + o[1:]):
            d[o] = getattr(m, o).copy()
    return d


def trajectory(net, seq, acts):
    m = net.build()
    perm = np.asarray(m.permutations)
    out = []
    for a in seq:
        kw = {}
        for k, v in acts[a].items():
            kw[k] = v.copy() if isinstance(v, np.ndarray) else v
        for k in ('Q_in', 'H_bc'):
            if isinstance(kw.get(k), np.ndarray):
                kw[k] = kw[k][perm]
        m.step(**kw)
        out.append(observe(m, net))
    return out


def differ(a, b, tol=1e-6):
    for k in a:
        if not core.close(a[k], b[k], tol, tol):
            return '%s: %s vs %s' % (k, np.array2string(b[k], precision=8), np.array2string(a[k], precision=8))


def relabel_job(net, perms, depth):
    rep = core.Report()
    acts, seqs = inputs(net, depth)
    ref = [trajectory(net, s, acts) for s in seqs]
    orders_o = list(itertools.permutations(range(len(net.orifices)))) or [()]
    orders_w = list(itertools.permutations(range(len(net.weirs)))) or [()]
    for p, q in perms:
        for oo, ww in {(orders_o[0], orders_w[0]), (orders_o[-1], orders_w[-1])}:
            n = relabel(net, p, q, oo, ww)
            nl1 = net.kw['internal_links'] + 1
            ip = np.argsort(p)          # old index of new row
            nacts = {}
            for name, a in acts.items():
                b = dict(a)
                for k in ('Q_in', 'H_bc'):
                    if isinstance(b.get(k), np.ndarray):
                        b[k] = b[k][ip]
                if 'Q_0Ik' in b:
                    b['Q_0Ik'] = b['Q_0Ik'].reshape(net.NK, nl1)[list(q)].ravel()
                for k, o in (('u_o', oo), ('u_w', ww)):
                    if k in b:
                        b[k] = b[k][list(o)]
                nacts[name] = b
            for s, want in zip(seqs, ref):
                got = trajectory(n, s, nacts)
                rep.count('relabelled')
                rep.traces += 1
                for i, (g, w) in enumerate(zip(got, want)):
                    rep.transitions += 1
                    rep.state(g['H'], g['h'], g['Q'])
                    w = dict(w)
                    for k in ('H', 'A', 'V'):
                        w[k] = w[k][ip]
                    for k in ('h', 'Q', 'Qu', 'Qd'):
                        w[k] = w[k][list(q)]
                    for k, o in (('Q_o', oo), ('Q_w', ww)):
                        if k in w:
                            w[k] = w[k][list(o)]
                    # orifice flow amplifies rounding of heads
                    d = differ(w, g, 1e-4 if net.orifices else 1e-6)
                    if d:
                        rep.violate('relabelled network differs: ' + d, dict(net=net.name, superjunction_rows=p,
                                    conduit_order=q, orifice_order=oo, weir_order=ww, sequence=s[:i + 1]))
                        return rep
    rep.sample(dict(net=net.name, permutations=len(perms)))
    return rep


def flip_row(r):
    r = copy.deepcopy(r)
    r['sj_0'], r['sj_1'] = r['sj_1'], r['sj_0']
    for a, b in (('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
        if a in r:
            r[a], r[b] = r[b], r[a]
    r['Q_0'] = -r['Q_0']
    return r


def flip_catalogue():
    out = [nets.chain(('rect_open', 'circular')), nets.tee(), nets.loop(), nets.drop_net(), nets.flat(), nets.irregular()]
    n = nets.chain(('rect_open', 'triangular', 'wide'), drop=0., h=.9).copy('level')
    n.sl[0].update(in_offset=.1, out_offset=.1, Q_0=.05)
    out.append(n)
    n = nets.drop_net(h=.6).copy('drop-level-ends')      # level conduits between unequal junctions
    n.sl[0].update(in_offset=.1, out_offset=.9, Q_0=.02)
    n.sl[1].update(in_offset=.0, out_offset=.2)
    out.append(n)
    n = nets.tee(method='f').copy('tee-f')
    out.append(n)
    n = nets.flat(method='lsq').copy('flat-lsq')
    out.append(n)
    n = nets.chain(('rect_open', 'wide'), h=.8).copy('chain-endcells')
    for r in n.sl:
        r.update(dx_uk=4., dx_dk=6., Q_0=.03)
    out.append(n)
    return out


def flip_job(net, depth):
    rep = core.Report()
    acts, seqs = inputs(net, depth)
    z = [r['z_inv'] for r in net.sj]
    level = [abs(z[r['sj_0']] + r['in_offset'] - z[r['sj_1']] - r['out_offset']) < 1e-12 for r in net.sl]
    ref = [trajectory(net, s, acts) for s in seqs]
    for mask in itertools.product((0, 1), repeat=net.NK):
        if not any(mask):
            continue
        n = net.copy()
        n.sl = [flip_row(r) if f else copy.deepcopy(r) for r, f in zip(net.sl, mask)]
        real = [k for k in range(net.NK) if mask[k] and level[k]]   # really turned round in the model
        for s, want in zip(seqs, ref):
            nacts = {}
            for name, a in acts.items():
                a = dict(a)
                if 'Q_0Ik' in a and real:
                    b = a['Q_0Ik'].reshape(net.NK, -1).copy()
                    b[real] = b[real][:, ::-1]
                    a['Q_0Ik'] = b.ravel()
                nacts[name] = a
            got = trajectory(n, s, nacts)
            rep.count('flipped')
            rep.traces += 1
            for i, (g, w) in enumerate(zip(got, want)):
                rep.transitions += 1
                rep.state(g['H'], g['h'], g['Q'])
                w = {k: v.copy() for k, v in w.items()}
                if real and (w['h'][real] <= 1.001e-5).any():
                    rep.count('cut_short')
                    break
                w['h'][real] = w['h'][real][:, ::-1]
                w['Q'][real] = -w['Q'][real][:, ::-1]
                qu, qd = w['Qu'].copy(), w['Qd'].copy()
                w['Qu'][real], w['Qd'][real] = -qd[real], -qu[real]
                d = differ(w, g)
                if d:
                    rep.violate('network with conduits described from the other end differs: ' + d,
                                dict(net=net.name, options=net.kw, flipped=mask, sequence=s[:i + 1]))
                    return rep
    rep.sample(dict(net=net.name, flips=2 ** net.NK - 1))
    return rep


def join(a, b, b_first):
    if b_first:
        a, b = b, a
    n = a.copy(a.name + '+' + b.name)
    M = a.M
    n.sj = copy.deepcopy(a.sj) + copy.deepcopy(b.sj)
    for k in ('sl', 'orifices', 'weirs', 'pumps'):
        rows = copy.deepcopy(getattr(b, k))
        for r in rows:
            r['sj_0'] += M
            r['sj_1'] += M
        setattr(n, k, copy.deepcopy(getattr(a, k)) + rows)
    n.transects = {**(a.transects or {}), **(b.transects or {})} or None
    n.storages = {**(a.storages or {}), **(b.storages or {})} or None
    for j, r in enumerate(n.sj):
        if n.storages:
            r.setdefault('table', None)
    for r in n.sl:
        if n.transects:
            r.setdefault('transect', None)
    return n


def pair_job(a, b, depth):
    rep = core.Report()
    ja, seqs = inputs(a, depth)
    jb, _ = inputs(b, depth)
    for s in seqs:
        ra, rb = trajectory(a, s, ja), trajectory(b, s, jb)
        n = join(a, b, False)
        acts = {}
        for name in set(ja) & set(jb):
            x, y = dict(ja[name]), dict(jb[name])
            dt = y['dt'] = x['dt']
            z = {k: v for k, v in x.items() if not isinstance(v, np.ndarray)}
            for k in ('Q_in', 'H_bc', 'Q_0Ik', 'u_o', 'u_w', 'u_p'):
                if k in ('H_bc',) and (k in x) != (k in y):
                    raise core.HarnessError('H_bc')
                v = [t[k] for t in (x, y) if k in t]
                if v:
                    z[k] = np.concatenate(v)
            acts[name] = z
        got = trajectory(n, s, acts)
        rep.count('pairs')
        rep.traces += 1
        for i, g in enumerate(got):
            rep.transitions += 1
            rep.state(g['H'], g['h'], g['Q'])
            for part, w, lo in ((a, ra[i], 0), (b, rb[i], 1)):
                sj = slice(0, a.M) if lo == 0 else slice(a.M, None)
                kk = slice(0, a.NK) if lo == 0 else slice(a.NK, None)
                gg = {k: g[k][sj] for k in ('H', 'A', 'V')}
                gg.update({k: g[k][kk] for k in ('h', 'Q', 'Qu', 'Qd')})
                for k, rows in (('Q_o', a.orifices), ('Q_w', a.weirs), ('Q_p', a.pumps)):
                    if k in w:
                        gg[k] = g[k][:len(rows)] if lo == 0 else g[k][len(rows):]
                d = differ(w, gg, 1e-4 if n.orifices else 1e-6)
                if d:
                    rep.violate('%s next to %s differs from %s alone: %s' % (a.name, b.name, part.name, d),
                                dict(nets=[a.name, b.name], sequence=s[:i + 1]))
                    return rep
    rep.sample(dict(pair=[a.name, b.name]))
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 4
    jobs = []
    for net in catalogue():
        P = list(itertools.permutations(range(net.M)))
        K = list(itertools.permutations(range(net.NK)))
        perms = [(p, K[0]) for p in P] + [(P[0], q) for q in K[1:]] + [(P[-1], K[-1])]
        if tier != 'quick':
            perms = list(itertools.product(P, K))
        for i in range(0, len(perms), 12):
            jobs.append((net, perms[i:i + 12], depth))
    rep = core.run_jobs(relabel_job, jobs)
    rep.merge(core.run_jobs(flip_job, [(n, depth) for n in flip_catalogue()]))
    cat = [n for n in catalogue() if 'permuted' not in n.name]
    cat.append(nets.control(which='o').copy('control-o2'))
    rep.merge(core.run_jobs(pair_job, [(a, b, depth) for a in cat for b in cat]))
    return rep
