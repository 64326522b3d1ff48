"""P37: drawings show the state of the model and leave it alone.

In every state reached by the action sequences, every path along conduits is drawn in profile and the network is drawn in plan and
in three dimensions; what was drawn is compared with the tables and the heads and depths of the model, and the model with its own
state before drawing."""
import os
os.environ.setdefault('MPLBACKEND', 'Agg')
import itertools
import numpy as np
from mc import core, nets
from mc.checks import _hydrobase as hb, _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'profiles': 1500, 'plans': 600, 'views': 250}, 'thorough': {'profiles': 8000, 'plans': 3000, 'views': 1500}}
ASSUMPTIONS = ['paths of a profile run down the conduits, as the model numbers superjunctions', 'conduits that join the same two superjunctions: the profile may show either',
               'positions along a conduit and bed levels are those of the model (P29 and P31 check them)']


def catalogue():
    out = [nets.chain(('rect_open', 'circular', 'wide')), nets.tee(), nets.loop(), nets.flipped(), nets.drop_net(), nets.control(which='owp'),
           nets.twin_controls(), nets.parallel(), nets.tee(mobile_elements=True, internal_links=5).copy('tee-mobile'),
           nets.loop(auto_permute=True).copy('loop-permuted'), nets.control(which='owp', auto_permute=True).copy('control-permuted'),
           _wq.ends(nets.tee(), 'tee-ends', up=3., dn=5.), _wq.ends(nets.flipped(), 'flipped-ends', up=2., dn=6.)]
    for n in out:
        for j, r in enumerate(n.sj):
            r.update(map_x=30. * j - 7. * (j * j % 3), map_y=11. * ((j * 2) % 5) - 4.)
    return out


class Plan:
    """the network in the numbering of the model, from its tables"""
    def __init__(self, net, m):
        self.net, self.m = net, m
        self.perm = np.asarray(m.permutations)
        self.inv = np.argsort(self.perm)
        self.L = _wq.Layout.__new__(_wq.Layout)
        z = [r['z_inv'] for r in net.sj]
        self.K = []
        for r in net.sl:
            u, v = r['sj_0'], r['sj_1']
            a, b = r.get('dx_uk', 0.), r.get('dx_dk', 0.)
            if z[u] + r['in_offset'] < z[v] + r['out_offset']:
                u, v, a, b = v, u, b, a
            self.K.append((self.inv[u], self.inv[v], a, r['dx'], b))
        self.z = np.array(z)[self.perm]
        self.xy = np.array([[r['map_x'], r['map_y']] for r in net.sj], float)[self.perm]
        self.n1 = net.kw['internal_links'] + 1

    def rows(self, k):
        return np.arange(k * self.n1, (k + 1) * self.n1)

    def junctions(self):
        """position on the map of every junction"""
        x = self.m.x_Ik
        out = []
        for k, (u, v, a, L, b) in enumerate(self.K):
            f = (x[self.rows(k)] / (a + L + b))[:, None]
            out.append(self.xy[u] + f * (self.xy[v] - self.xy[u]))
        return np.concatenate(out)

    def segments(self, p):
        """pairs of consecutive junctions"""
        p = np.asarray(p)
        return np.array([[p[i], p[i + 1]] for k in range(len(self.K)) for i in self.rows(k)[:-1]])

    def structures(self, p):
        p = np.asarray(p)
        return [np.array([[p[self.inv[r['sj_0']]], p[self.inv[r['sj_1']]]] for r in t]) for t in (self.net.orifices, self.net.weirs, self.net.pumps) if t]

    def paths(self):
        down = {}
        for u, v, *_ in self.K:
            down.setdefault(int(u), set()).add(int(v))
        out = []

        def go(p):
            if len(p) > 1:
                out.append(tuple(p))
            for v in sorted(down.get(p[-1], ())):
                if v not in p:
                    go(p + [v])
        for u in sorted(down):
            go([u])
        return out


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and core.close(a, b, 1e-9, 1e-9)


def inside(lim, lo, hi):
    return lim[0] <= lo + 1e-9 and lim[1] >= hi - 1e-9


def profile(P, path, width, plt):
    m = P.m
    ax = plt.figure().add_subplot()
    m.plot_profile(list(path), ax=ax, width=width)
    boxes = [p.get_xy()[:4] for p in ax.patches]
    polys = [[np.asarray(q.vertices)[:4] for q in c.get_paths()] for c in ax.collections]
    lines = [np.column_stack(l.get_data()) for l in ax.lines]
    if len(boxes) != len(path) or len(polys) != len(path) - 1:
        return '%d boxes, %d conduits' % (len(boxes), len(polys))
    x = 0.
    lo, hi = np.inf, -np.inf
    want = []
    for i, j in enumerate(path):
        z, H = P.z[j], m.H_j[j]
        if not near(boxes[i], [[x, z], [x, H], [x + width, H], [x + width, z]]):
            return 'superjunction %d is drawn as %s' % (j, boxes[i].tolist())
        want.append(np.array([[x, z], [x + width, z]]))
        lo, hi = min(lo, z), max(hi, H)
        x += width
        if i + 1 < len(path):
            fit = None
            for k, (u, v, a, L, b) in enumerate(P.K):
                if (u, v) != (j, path[i + 1]):
                    continue
                I = P.rows(k)
                xs, zs, hs = m.x_Ik[I] + x, m._z_inv_Ik[I], m.h_Ik[I]
                q = [np.array([[xs[c], zs[c]], [xs[c], zs[c] + hs[c]], [xs[c + 1], zs[c + 1] + hs[c + 1]], [xs[c + 1], zs[c + 1]]]) for c in range(len(I) - 1)]
                if near(polys[i], q):
                    fit = k
                    lo, hi = min(lo, zs.min()), max(hi, (zs + hs).max())
                    want.append(np.column_stack([xs, zs]))
                    x += a + L + b
                    break
            if fit is None:
                return 'the conduit from %d to %d is not drawn with its depths' % (j, path[i + 1])
    if len(lines) != len(want) or not all(near(a, b) for a, b in zip(lines, want)):
        return 'the beds drawn are %s' % [l.tolist() for l in lines]
    if not inside(ax.get_xlim(), 0., x) or not inside(ax.get_ylim(), lo, hi):
        return 'the drawing is cut off: %s %s' % (ax.get_xlim(), ax.get_ylim())


def plan(P, plt):
    m = P.m
    ax = plt.figure().add_subplot()
    c = m.plot_network_2d(ax=ax)
    I = P.junctions()
    if len(c) != 3 + len(P.structures(P.xy)):
        return '%d collections' % len(c)
    if not near(c[0].get_offsets(), I):
        return 'junctions are drawn at %s, not %s' % (np.asarray(c[0].get_offsets()).tolist(), I.tolist())
    if not near(c[1].get_segments(), P.segments(I)):
        return 'conduits are drawn as %s' % np.asarray(c[1].get_segments()).tolist()
    if not near(c[2].get_offsets(), P.xy):
        return 'superjunctions are drawn at %s' % np.asarray(c[2].get_offsets()).tolist()
    for a, b in zip(c[3:], P.structures(P.xy)):
        if not near(a.get_segments(), b):
            return 'structures are drawn as %s, not %s' % (np.asarray(a.get_segments()).tolist(), b.tolist())
    if len(ax.collections) != len(c):
        return 'not everything was put on the axes'


def view(P, plt, own=None):
    m = P.m
    ax = plt.figure().add_subplot(projection='3d')
    kw = {}
    hj, hI = m.H_j - P.z, m.h_Ik.copy()
    if own:
        hj, hI = np.arange(len(hj)) * .3 + .1, np.linspace(.2, 2., len(hI))
        kw = dict(superjunction_signal=hj.copy(), junction_signal=hI.copy())
        for o in ('superjunction_stems', 'junction_stems', 'border', 'fill'):
            kw[o] = o in own
    parts = own if own else ('superjunction_stems', 'junction_stems', 'border', 'fill')
    c = list(m.plot_network_3d(ax=ax, **kw))
    if len(ax.collections) != len(c):
        return 'not everything was put on the axes'
    I, z = P.junctions(), m._z_inv_Ik
    bed, top = np.column_stack([I, z]), np.column_stack([I, z + hI])
    node, head = np.column_stack([P.xy, P.z]), np.column_stack([P.xy, P.z + hj])
    want = [P.segments(bed)] + P.structures(node)
    if 'superjunction_stems' in parts:
        want.append(np.stack([node, head], axis=1))
    if 'junction_stems' in parts:
        want.append(np.stack([bed, top], axis=1))
    if 'border' in parts:
        want.append(P.segments(top))
    if 'fill' in parts:
        want.append(np.array([[bed[i], top[i], top[i + 1], bed[i + 1]] for k in range(len(P.K)) for i in P.rows(k)[:-1]]))
    if len(c) != len(want):
        return '%d parts are drawn instead of %d' % (len(c), len(want))
    for i, (a, w) in enumerate(zip(c, want)):
        got = next((np.asarray(getattr(a, n)) for n in ('_segments3d', '_faces') if hasattr(a, n)), None)
        if got is None:
            raise core.HarnessError('layout of a three-dimensional collection')
        if not near(got, w):
            return 'part %d is drawn as %s, not %s' % (i, np.asarray(got).tolist(), w.tolist())
    lo = min(head[:, 2].min(), top[:, 2].min())
    if not inside(ax.get_zlim(), lo, max(head[:, 2].max(), top[:, 2].max())) or not inside(ax.get_xlim(), *np.sort(P.xy[:, 0])[[0, -1]]) \
            or not inside(ax.get_ylim(), *np.sort(P.xy[:, 1])[[0, -1]]):
        return 'the view is cut off'


def same(a, b):
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or a[k].dtype != b[k].dtype or not (np.array_equal(a[k], b[k], equal_nan=True) if a[k].dtype.kind == 'f' else np.array_equal(a[k], b[k])):
                return k
        elif isinstance(a[k], (int, float, bool, str)) and a[k] != b[k] and a[k] == a[k]:
            return k
    return 'attributes' if set(a) != set(b) else None


def arrays(m):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(m).items()}


def job(net, first, depth):
    import matplotlib.pyplot as plt
    rep = core.Report()
    m = net.build()
    P = Plan(net, m)
    acts = dict(hb.action_list(net, 'quick'))
    subsets = [(), ('superjunction_stems',), ('junction_stems', 'fill'), ('border',), ('superjunction_stems', 'border', 'fill')]
    seen = [0]

    def go(a):
        a = {k: (v[P.perm].copy() if k in ('Q_in', 'H_bc') else v) for k, v in acts[a].items()}
        m.step(**a)

    def look(hist):
        rep.state(m.H_j, m.h_Ik)
        seen[0] += 1
        before = arrays(m)
        try:
            jobs = [('profile %s' % (p,), lambda p=p: profile(P, p, [1., 4.5][i % 2], plt), 'profiles') for i, p in enumerate(P.paths())]
            jobs.append(('plan', lambda: plan(P, plt), 'plans'))
            jobs.append(('view', lambda: view(P, plt), 'views'))
            jobs.append(('view of other values', lambda: view(P, plt, subsets[seen[0] % len(subsets)] or None), 'views'))
            for nm, f, key in jobs:
                bad = f()
                plt.close('all')
                rep.count(key)
                rep.transitions += 1
                k = same(before, arrays(m))
                if k:
                    bad = 'drawing changed %s of the model' % k
                if bad:
                    rep.violate('%s: %s' % (nm.split()[0], bad), dict(net=net.name, drawing=nm, ops=hist))
                    return False
        finally:
            plt.close('all')
        return True

    def rec(hist):
        if not look(hist):
            return False
        if len(hist) == depth:
            rep.traces += 1
            return True
        s = core.snap(m)
        for a in (acts if hist or first is None else (first,)):
            core.restore(m, s)
            go(a)
            if not rec(hist + (a,)):
                return False
        core.restore(m, s)
        return True
    rec(())
    rep.sample(dict(net=net.name, first=first, paths=P.paths()))
    return rep


def run(tier, seed):
    depth = 2 if tier == 'quick' else 3
    return core.run_jobs(job, [(n, a, depth) for n in catalogue() for a, _ in hb.action_list(n, 'quick')])
