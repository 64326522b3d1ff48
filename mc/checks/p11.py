"""P11: cross-section geometry.

(a) every shape x dimension set x grid of depth pairs, both implementations, against
    figures defined independently (mc/shapes.py);
(b) every state reached by all action sequences to the depth bound on real networks:
    the geometry the model used for the step is that of each conduit's own figure at
    the depths before the step."""
import itertools
import numpy as np
from mc import core, nets, hydro, shapes
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'depths': 5000, 'steps': 5000, 'full': 300, 'links': 30000, 'sampled': 2000},
         'thorough': {'depths': 20000, 'steps': 50000, 'full': 1000, 'links': 300000}}
ASSUMPTIONS = ['the perimeter of a closed rectangular conduit is taken without its soffit, and that of a wide channel without its walls, as the code documents',
               'irregular sections are tabulated at sample_points depths and linear in between']
NG = {'circular': ('Circular', 'g1', 'g1', 'g1 g2'), 'rect_closed': ('Rect_Closed', 'g1 g2', 'g1 g2', 'g1 g2 g3'),
      'rect_open': ('Rect_Open', 'g1 g2', 'g1 g2', 'g1 g2'), 'triangular': ('Triangular', 'g1 g2', 'g1 g2', 'g1 g2'),
      'trapezoidal': ('Trapezoidal', 'g1 g2 g3', 'g1 g2 g3', 'g1 g2 g3'),
      'parabolic': ('Parabolic', 'g1 g2', 'g1 g2', 'g1 g2'),
      'elliptical': ('Elliptical', 'g1 g2', None, 'g1 g2'), 'wide': ('Wide', 'g1 g2', 'g1 g2', 'g1 g2'),
      'force_main': ('Force_Main', 'g1 g2', 'g1 g2', 'g1 g2'),
      'floodplain': ('Floodplain', *['g1 g2 g3 g4 g5 g6 g7'] * 3)}
PSLOT = {'circular': 'g2', 'rect_closed': 'g3'}
DIMS = {
    'circular': [dict(g1=d, g2=s) for d in (.3, 1., 2.4) for s in (.001, .05)],
    'rect_closed': [dict(g1=h, g2=w, g3=s) for h in (.4, 2.) for w in (.3, 1.7) for s in (.001, .1)],
    'rect_open': [dict(g1=h, g2=w) for h in (.5, 3.) for w in (.2, 4.)],
    'triangular': [dict(g1=h, g2=m) for h in (.5, 3.) for m in (.4, 1., 3.)],
    'trapezoidal': [dict(g1=h, g2=b, g3=m) for h in (.6, 3.) for b in (.2, 2.) for m in (.3, 1., 2.)],
    'parabolic': [dict(g1=h, g2=b) for h in (.5, 1., 3.) for b in (.4, 2., 5.)],
    'elliptical': [dict(g1=h, g2=b) for h in (.5, 1., 2.) for b in (.4, 1., 3.)],
    'wide': [dict(g1=h, g2=b) for h in (.5, 2.) for b in (1., 20.)],
    'force_main': [dict(g1=d, g2=s) for d in (.2, 1.) for s in (.001, .05)],
    'floodplain': [dict(g1=5., g2=a, g3=b, g4=t, g5=m, g6=k, g7=w) for a in (.4, 1.) for b in (.3, 1.2)
                   for t, m, k in ((3., .5, 8.), (1., 2., .2)) for w in (0., .7)],
}
RTOL, ATOL = 2e-6, 1e-9


def section(shape, g, n):
    rep = core.Report()
    from pipedream_solver import ngeometry, geometry
    ref = shapes.SHAPES[shape](**g)
    cls, ga, gp, gb = NG[shape]
    arr = getattr(geometry, cls)
    fA, fR, fB = (getattr(ngeometry, '%s_%s_ik' % (cls, q)) for q in 'ARB')
    fP = getattr(ngeometry, cls + '_Pe_ik', None)
    pick = lambda names: [g[k] for k in names.split()]
    ys = [ref.full * k / n for k in range(0, int(1.5 * n) + 1)]
    ys += [1e-6, 1e-4, ref.full * (1 - 1e-7), ref.full * (1 + 1e-7)]
    if shape == 'floodplain':
        ys += [g['g2'], g['g2'] + g['g3']]
    last = -1.
    for y in sorted(set(ys)):
        want = dict(A=ref.A(y), B=ref.B(y), Pe=ref.Pe(y))
        want['R'] = want['A'] / want['Pe'] if want['Pe'] > 0 else 0.
        for up in (y, 0., 2 * y, 1.7 * y):
            dn = 2 * y - up
            case = dict(shape=shape, dims=g, depth_up=up, depth_dn=dn)
            got = dict(A=fA(up, dn, *pick(ga)), B=fB(up, dn, *pick(gb)))
            if fP is not None and gp:
                got['Pe'] = fP(up, dn, *pick(gp))
                got['R'] = fR(got['A'], got['Pe'])
            if shape != 'floodplain':
                # array implementation, with a second conduit of other size alongside
                two = lambda v, o: np.array([v, o], float)
                kw = {k: two(v, 2 * v) for k, v in g.items()}
                hu, hd = two(up, .1), two(dn, .1)
                if shape in PSLOT:
                    kw['pslot'] = g[PSLOT[shape]]
                A = np.asarray(arr.A_ik(hu.copy(), hd.copy(), **kw))
                P = np.asarray(arr.Pe_ik(hu.copy(), hd.copy(), **kw))
                got['A (array)'] = A[0]
                got['Pe (array)'] = P[0]
                got['R (array)'] = np.asarray(arr.R_ik(A, P))[0]
                got['B (array)'] = np.asarray(arr.B_ik(hu.copy(), hd.copy(), **kw))[0]
            for k, v in got.items():
                w = want[k.split()[0]]
                if y < 1e-9 and k[0] in 'PR':       # empty section: perimeter is rounding, radius 0/0
                    if k[0] == 'P' and shape not in ('force_main', 'wide') and not abs(v - w) < 1e-6:
                        rep.violate('%s of an empty %s conduit is %.9g' % (k, shape, v), dict(case, quantity=k))
                        return rep
                    continue
                # the width of a round pipe is infinitely steep at its ends, and its depth is rounded
                tol = ATOL + RTOL * abs(w) + (1e-7 * ref.full if shape in ('circular', 'elliptical', 'parabolic') else 0.)
                if not abs(v - w) <= tol:
                    # a depth within rounding of full may be on either side of it
                    if k[0] == 'B' and abs(y - ref.full) <= 1e-12 * ref.full and not ref.open:
                        continue
                    rep.violate('%s of a %s conduit is %.9g, of the figure %.9g' % (k, shape, v, w), dict(case, quantity=k))
                    return rep
                rep.evaluations += 1
            rep.transitions += 1
        if want['A'] < last - 1e-12:
            raise core.HarnessError('reference area decreasing')
        last = want['A']
        rep.count('depths')
        rep.state(hash(shape) % 1000003, list(g.values()), y)
    rep.traces += 1
    return rep


def judge_net(net, first, depth):
    rep = core.Report()
    lay = hydro.Layout(net)
    acts = hb.action_list(net, 'quick')
    table = dict(acts)
    m = net.build()
    refs = [shapes.of(net.sl[K['k']], net.transects) for K in lay.K]
    hold = {}

    def apply(m, name):
        hold['h'], hold['H'] = m.h_Ik.copy(), m.H_j.copy()
        hb.do(m, table[name])

    def visit(m, _, hist, out):
        h, H = hold['h'], hold['H']
        rep.count('steps')
        rep.state(m.H_j, m.h_Ik, m.Q_ik)
        for K, ref in zip(lay.K, refs):
            hk = h[K['I']]
            mid = (hk[1:] + hk[:-1]) / 2
            got = dict(A=m.A_ik[K['i']], B=m.B_ik[K['i']], Pe=m.Pe_ik[K['i']], R=m.R_ik[K['i']])
            near = 1e-9 * ref.full
            for i, y in enumerate(mid):
                rep.count('links')
                if y >= ref.full:
                    rep.count('full')
                for q, v in got.items():
                    w = getattr(ref, q)(y)
                    if q == 'B' and abs(y - ref.full) < near:
                        continue
                    if not abs(v[i] - w) <= 1e-9 + 1e-5 * abs(w) + 1e-7 * ref.full:
                        rep.violate('%s of link %d of conduit %d (%s) at depth %.9g is %.9g, of its figure %.9g'
                                    % (q, i, K['k'], net.sl[K['k']]['shape'], y, v[i], w),
                                    dict(net=net.name, options=net.kw, history=hist))
                        return False
            for end, z, j, hi, v in (('upstream', K['zu'], K['u'], hk[0], m.A_uk[K['k']]),
                                     ('downstream', K['zv'], K['v'], hk[-1], m.A_dk[K['k']])):
                y = (hi + max(H[j] - z, 0.)) / 2
                w = ref.A(y)
                rep.count('ends')
                if not abs(v - w) <= 1e-9 + 1e-5 * abs(w) + 1e-7 * ref.full:
                    rep.violate('flow area at the %s end of conduit %d (%s) is %.9g, of its figure %.9g'
                                % (end, K['k'], net.sl[K['k']]['shape'], v, w),
                                dict(net=net.name, options=net.kw, history=hist))
                    return False
        return True

    apply(m, first)
    rep.transitions += 1
    if visit(m, None, (first,), None):
        core.explore(m, list(table), apply, depth, visit, rep, prefix=(first,))
    return rep


def mixed():
    """every shape in one network, each conduit of its own size"""
    n = nets.chain(tuple(nets.DIM), drop=.15, h=.7, name='all-shapes')
    for i, r in enumerate(n.sl):
        if r['shape'] != 'wide':
            r['g1'] = r['g1'] * (1 + .07 * i)
    n.sl.append(dict(nets.SL, **nets.link(0, 3, 'floodplain', g1=5., g2=.5, g3=.4, g4=2., g5=.5, g6=3., g7=.6, h_0=.7)))
    for r in n.sl[:-1]:
        r.update(g5=0., g6=0., g7=0.)
    return n


def catalogue():
    out = nets.basic() + nets.shapes() + [mixed(), nets.chain(('circular', 'rect_closed'), h=2.6, bc_last=False, name='full')]
    two = nets.irregular()
    two.sl.append(dict(nets.SL, **nets.link(0, 2, 'circular', h_0=.7)))
    for r in two.sl:
        r.setdefault('transect', None)
    two.name = 'irregular-and-circular'
    return out + [two]


def exact(x, y, h):
    """area, wetted bed and surface width of a polygonal bed under a level surface"""
    A = P = B = 0.
    wet = 0
    for x0, x1, y0, y1 in zip(x, x[1:], y, y[1:]):
        lo, hi, dx = min(y0, y1), max(y0, y1), x1 - x0
        if h <= lo:
            continue
        f = 1. if h >= hi else (h - lo) / (hi - lo)
        w = f * dx
        B += w
        P += f * np.hypot(dx, hi - lo)
        A += w * (h - (lo + min(h, hi)) / 2)
        wet += 1
    return A, P, B


def sampled(first, n, points):
    """beds given by points, sampled and tabulated: within the resolution of the samples of the polygon's own"""
    from pipedream_solver.geometry import Irregular
    rep = core.Report()
    for rest in itertools.product((0., .5, 1.), repeat=points - 1):
        y = np.array((first,) + rest)
        if y.min() != 0 or y.max() != 1.:
            continue
        for gaps in ((1.,) * (points - 1), tuple(.4 + .7 * k for k in range(points - 1))):
            x = np.concatenate([[0.], np.cumsum(gaps)])
            c = Irregular(x.copy(), y.copy(), horiz_points=n, vert_points=n)
            dx, dz = (x[-1] - x[0]) / (n - 1), 1. / (n - 1)
            grid = [h for h in np.linspace(.03, .97, 21) if abs(h - .5) > 3 * dz]
            got = np.array([f(np.array(grid), np.array(grid)) for f in (c.A_ik, c.Pe_ik, c.B_ik, c.R_ik)])
            steep = max(np.hypot(b - a, v - u) / (b - a) for a, b, u, v in zip(x, x[1:], y, y[1:]))
            for h, (A, P, B, R) in zip(grid, got.T):
                a, p, b = exact(x, y, h)
                rep.count('sampled')
                e = points * dx           # each of the crossings of the surface may be off by a sample
                for nm, v, w, tol in (('area', A, a, e / 4), ('perimeter', P, p, e * steep), ('width', B, b, e), ('hydraulic radius', R, a / p, e / p)):
                    if not abs(v - w) <= tol:
                        rep.violate('%s of a section given by points is %s at depth %s, of the polygon %s' % (nm, v, h, w),
                                    dict(x=x.tolist(), y=y.tolist(), points=n))
                        return rep
            two = c.A_ik(np.array([.2, .9]), np.array([.6, .3]))
            if not core.close(two, c.A_ik(np.array([.4, .6]), np.array([.4, .6])), 1e-12, 1e-12):
                rep.violate('the depth of a link is not the mean of its ends', dict(x=x.tolist(), y=y.tolist(), points=n))
                return rep
            rep.state(x, y, [n])
            rep.traces += 1
    rep.sample(dict(points=points, first=first, samples=n))
    return rep


def job(kind, *a):
    return {'s': section, 'n': judge_net, 'p': sampled}[kind](*a)


def run(tier, seed):
    n, depth = (128, 4) if tier == 'quick' else (1024, 5)
    jobs = [('n', net, f, depth) for net in catalogue() for f, _ in hb.action_list(net, tier)]
    jobs += [('s', s, g, n) for s in NG for g in DIMS[s]]
    jobs += [('p', f, s, p) for f in (0., .5, 1.) for s in (200, 500) for p in ((3, 4) if tier == 'quick' else (3, 4, 5))]
    return core.run_jobs(job, jobs)
