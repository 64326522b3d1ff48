"""P09: solution paths and renumbering are interchangeable, for every small topology."""
import itertools
import numpy as np
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'compared': 20000, 'graphs': 43}, 'thorough': {'compared': 100000, 'graphs': 43}}
ASSUMPTIONS = ['inputs of a renumbered model are given in its own order (attribute permutations)',
               'agreement to 1e-6 relative: the elimination order differs']


def connected(M, edges):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for u, v in edges:
            for x, y in ((u, v), (v, u)):
                if x == a and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return len(seen) == M


def graphs():
    out = []
    for M in (2, 3, 4):
        pairs = list(itertools.combinations(range(M), 2))
        for r in range(1, len(pairs) + 1):
            for e in itertools.combinations(pairs, r):
                if connected(M, e):
                    out.append((M, e))
    # larger: star, path in scrambled order, ladder, binary tree, ring, wheel
    out += [(6, tuple((0, i) for i in range(1, 6))), (6, tuple((5, i) for i in range(5))),
            (6, ((0, 5), (5, 1), (1, 4), (4, 2), (2, 3))), (6, ((0, 1), (2, 3), (4, 5), (0, 2), (2, 4), (1, 3), (3, 5))),
            (7, ((0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6))), (6, ((0, 3), (3, 1), (1, 4), (4, 2), (2, 5), (5, 0))),
            (5, ((0, 1), (1, 2), (2, 3), (3, 0), (4, 0), (4, 1), (4, 2), (4, 3)))]
    return out


SH = ('rect_open', 'circular', 'trapezoidal', 'parabolic', 'wide', 'rect_closed', 'triangular')


def network(M, edges, bcs, kinds=None):
    """kinds: per edge 'c' conduit, 'o', 'w', 'p'"""
    z = [.1 * ((3 * j) % M) + .02 * j for j in range(M)]
    sj = [dict(z_inv=z[j], h_0=.9 + .07 * j - z[j], c=8. + j, bc=(j in bcs)) for j in range(M)]
    kinds = kinds or 'c' * len(edges)
    sl, o, w, p = [], [], [], []
    for i, ((u, v), k) in enumerate(zip(edges, kinds)):
        if i % 2:
            u, v = v, u
        if k == 'c':
            sl.append(nets.link(u, v, SH[i % 7], dx=30. + 5 * i, h_0=.6))
        elif k == 'o':
            o.append(nets.ori(u, v))
        elif k == 'w':
            w.append(nets.weir(u, v, z_w=.3))
        else:
            p.append(nets.pump(u, v, dH_min=.1))
    return nets.Net('graph', sj, sl, orifices=o, weirs=w, pumps=p, internal_links=2)


def sequences(M, depth):
    q = np.zeros(M)
    q[0], q[-1] = .3, -.05
    H = .8 + .1 * np.arange(M)
    acts = [dict(Q_in=q, H_bc=H, dt=10.), dict(Q_in=q[::-1].copy(), H_bc=H[::-1] + .3, dt=60.), dict(Q_in=None, H_bc=None, dt=1., num_iter=3, head_tol=0.)]
    return acts, list(itertools.product(range(len(acts)), repeat=depth))


VARIANTS = [('dense', {}, None), ('sparse', dict(sparse=True), None), ('banded', {}, True),
            ('permuted', dict(auto_permute=True), None), ('permuted-dense', dict(auto_permute=True), False)]


def job(M, edges, bcs, kinds, depth):
    rep = core.Report()
    net = network(M, edges, bcs, kinds)
    acts, seqs = sequences(M, depth)
    ctl = dict(u_o=np.linspace(1, .5, len(net.orifices)) if net.orifices else None,
               u_w=np.linspace(1, .5, len(net.weirs)) if net.weirs else None,
               u_p=np.linspace(1, .5, len(net.pumps)) if net.pumps else None)
    models = [(name, net.build(**kw), banded) for name, kw, banded in VARIANTS]
    bases = [core.snap(m) for _, m, _ in models]
    if kinds is None or set(kinds) == {'c'}:
        rep.count('graphs' if len(bcs) == 0 else 'graphs_bc')
    for name, m, _ in models[:1]:
        if not np.array_equal(np.asarray(m.permutations), np.arange(M)):
            rep.violate('unpermuted model has permutation %s' % m.permutations, dict(edges=edges))
    for seq in seqs:
        for (name, m, b), base in zip(models, bases):
            core.restore(m, base)
        rep.traces += 1
        for i, a in enumerate(seq):
            res = []
            for name, m, banded in models:
                perm = np.asarray(m.permutations)
                kw = {}
                for k, v in acts[a].items():
                    kw[k] = v[perm].copy() if isinstance(v, np.ndarray) else v
                kw.update({k: v.copy() for k, v in ctl.items() if v is not None})
                if banded is not None:
                    kw['banded'] = banded
                m.step(**kw)
                inv = np.argsort(perm)
                res.append((name, np.concatenate([m.H_j[inv], m.A_sj[inv]]), m.h_Ik.copy(),
                            np.concatenate([m.Q_ik, m.Q_uk, m.Q_dk] + [np.asarray(getattr(m, q)) for q in ('Q_o', 'Q_w', 'Q_p')
                                            if getattr(m, 'n' + q[1:])])))
                rep.transitions += 1
            rep.state(res[0][1], res[0][2], res[0][3])
            for name, H, h, Q in res[1:]:
                rep.count('compared')
                # orifice flow goes with the square root of head differences
                tq = 1e-4 if net.orifices else 1e-6
                if not (core.close(H, res[0][1], 1e-6, 1e-7) and core.close(h, res[0][2], 1e-5, 1e-7)
                        and core.close(Q, res[0][3], tq, tq)):
                    rep.violate('%s differs from dense: heads %s, expected %s' % (name, H[:M], res[0][1][:M]),
                                dict(M=M, edges=edges, kinds=kinds, boundaries=bcs, sequence=seq[:i + 1]))
                    return rep
    rep.sample(dict(M=M, edges=edges, boundaries=bcs, kinds=kinds))
    return rep


def run(tier, seed):
    depth = 2 if tier == 'quick' else 4
    jobs = []
    for M, e in graphs():
        for r in (0, 1, 2):
            for b in itertools.combinations(range(M), r):
                jobs.append((M, e, b, None, depth))
    # structures in place of conduits: every assignment on small graphs
    for M, e in ((3, ((0, 1), (1, 2))), (4, ((0, 1), (1, 2), (2, 3))), (4, ((0, 3), (1, 3), (2, 3))), (4, ((0, 1), (1, 3), (3, 2), (0, 2)))):
        for kinds in itertools.product('cowp', repeat=len(e)):
            if 'c' in kinds and set(kinds) != {'c'}:
                for b in ((), (M - 1,)):
                    jobs.append((M, e, b, ''.join(kinds), depth))
    return core.run_jobs(job, jobs)
