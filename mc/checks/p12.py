"""P12: storage curves.  Every assignment of storage kinds and tables to the superjunctions
of a small network, every listing order of the tables, a grid of depths on each
superjunction, then the states reached by all action sequences to the depth bound."""
import itertools
import numpy as np
from mc import core, nets
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
FLOOR = {'quick': {'levels': 10000, 'assignments': 400, 'steps': 2000, 'above_table': 1000},
         'thorough': {'levels': 100000, 'assignments': 400, 'steps': 10000, 'above_table': 1000}}
ASSUMPTIONS = ['below the first tabulated depth the area is the first one and no volume is counted; depths between table points are linear in area; above the last depth the area stays the last one']

TABLES = {
    'pond': ([0., .5, 1.2, 2.], [4., 6., 6., 11.]),
    'basin': ([0., 1., 3.], [20., 25., 45.]),
    'tank': ([0., .8], [7., 7.]),
    'wetland': ([0., .3, .4, .9, 1.1, 2.5], [2., 9., 9.5, 30., 30., 80.]),
    'raised': ([.3, 1., 2.], [5., 8., 13.]),
    'bulb': ([0., .6, 1.4, 2.2], [3., 12., 9., 5.]),
    'funnel': ([.2, .9, 1.8], [14., 9., 4.]),
}
FUNC = {'f1': dict(a=0., b=0., c=9.), 'f2': dict(a=3., b=1., c=2.), 'f3': dict(a=4., b=.5, c=1.), 'f4': dict(a=1.5, b=2., c=0.5)}
MIND = 1e-5


def curve(kind):
    """(area, volume) functions of depth from the table or formula alone"""
    if kind in FUNC:
        p = FUNC[kind]
        x, w = np.polynomial.legendre.leggauss(40)

        def A(h):
            return p['a'] * h**p['b'] + p['c']

        def V(h):          # quadrature of the area; h = H s^2 removes the root at 0
            s = (x + 1) / 2
            return float(np.sum(w * A(h * s**2) * 2 * s * h) / 2)
        return A, V, np.inf
    hs, As = TABLES[kind]

    def A(h):
        if h < hs[0]:
            return As[0]
        for (h0, a0), (h1, a1) in zip(zip(hs, As), zip(hs[1:], As[1:])):
            if h <= h1:
                return a0 + (a1 - a0) * (h - h0) / (h1 - h0)
        return As[-1]

    def V(h):
        v = 0.
        for (h0, a0), (h1, a1) in zip(zip(hs, As), zip(hs[1:], As[1:])):
            if h > h0:
                t = min(h, h1)
                v += (t - h0) * (a0 + a0 + (a1 - a0) * (t - h0) / (h1 - h0)) / 2
        if h > hs[-1]:
            v += (h - hs[-1]) * As[-1]
        return v
    return A, V, np.inf


def network(kinds, order, kindoflist=np.array):
    M = len(kinds)
    sj = []
    for j, k in enumerate(kinds):
        r = dict(z_inv=.2 * (M - j), h_0=.5, table=k if k in TABLES else 'none')
        if k in TABLES:
            r.update(storage='tabular' if j % 2 else 'Tabular', a=99., b=1., c=77.)
        else:
            r.update(FUNC[k])
        sj.append(r)
    sl = [nets.link(i, i + 1, h_0=.5) for i in range(M - 1)]
    st = {k: dict(h=kindoflist(TABLES[k][0]), A=kindoflist(TABLES[k][1])) for k in order}
    return nets.Net('storage', sj, sl, storages=st, internal_links=2)


def assignment(kinds, order, levels, opts, depth):
    rep = core.Report()
    net = network(kinds, order, list if len(kinds) % 2 else np.array)
    case0 = dict(kinds=kinds, table_order=order, options=opts)
    m = net.build(**opts)
    perm = np.asarray(getattr(m, 'permutations', np.arange(net.M)))
    inv = np.argsort(perm)
    z = np.array([r['z_inv'] for r in net.sj])
    fs = [curve(k) for k in kinds]
    rep.count('assignments')

    def judge(h, A, V, case):
        for j, (fA, fV, lim) in enumerate(fs):
            d = max(h[j], MIND)
            if d > lim:
                continue
            if kinds[j] in TABLES and d > TABLES[kinds[j]][0][-1]:
                rep.count('above_table')
            for what, got, want in (('area', A[j], fA(d)), ('volume', V[j], fV(d))):
                rep.evaluations += 1
                if not abs(got - want) <= 1e-9 + 1e-8 * abs(want):
                    rep.violate('storage %s of superjunction %d (%s) at depth %.9g is %.9g, of its own curve %.9g'
                                % (what, j, kinds[j], d, got, want), case)
                    return False
        return True

    first = core.snap(m)
    for hs in levels:
        m.H_j = (z + hs)[perm].copy()
        m.compute_storage_areas()
        m.compute_storage_volumes()
        rep.count('levels')
        rep.transitions += 1
        rep.state(hash(kinds) % 1000003, hs)
        if not judge(hs, m.A_sj[inv], m.V_j[inv], dict(case0, depths=hs)):
            return rep
    rep.traces += 1
    core.restore(m, first)
    acts = {'fill': dict(Q_in=np.full(net.M, .6), dt=5.), 'drain': dict(Q_in=np.full(net.M, -.2), dt=5.),
            'one': dict(Q_in=np.eye(net.M)[0] * 3., dt=8.), 'rest': dict(Q_in=np.zeros(net.M), dt=20.)}
    hold = {}

    def apply(m, a):
        hold['H'] = m.H_j[inv].copy()
        x = dict(acts[a])
        x['Q_in'] = x['Q_in'][perm]
        m.step(**x)

    def visit(m, _, hist, out):
        rep.count('steps')
        rep.state(m.H_j, m.Q_ik)
        return judge(hold['H'] - z, m.A_sj[inv], m.V_j[inv], dict(case0, history=hist))
    core.explore(m, list(acts), apply, depth, visit, rep)
    return rep


def standalone(n):
    """the storage classes on their own"""
    from pipedream_solver import storage
    rep = core.Report()
    for k in list(TABLES) + list(FUNC):
        fA, fV, lim = curve(k)
        top = TABLES[k][0][-1] * 1.5 if k in TABLES else 3.
        h = np.array([d for d in np.linspace(0, top, n + 1) if k not in TABLES or d >= TABLES[k][0][0]])
        if k in TABLES:
            g = storage.Tabular(*TABLES[k])
            A, V = g.A_sj(h.copy()), g.V_sj(h.copy())
        else:
            A, V = storage.Functional.A_sj(h.copy(), **FUNC[k]), storage.Functional.V_sj(h.copy(), **FUNC[k])
        for d, a, v in zip(h, A, V):
            if d > lim:
                continue
            rep.evaluations += 2
            rep.transitions += 1
            for what, got, want in (('area', a, fA(d)), ('volume', v, fV(d))):
                if not abs(got - want) <= 1e-9 + 1e-8 * abs(want):
                    rep.violate('%s of the %s curve %s at depth %g is %g, expected %g'
                                % (what, 'tabular' if k in TABLES else 'functional', k, d, got, want),
                                dict(curve=k, depth=float(d)))
                    return rep
    rep.traces += 1
    return rep


def job(kind, *a):
    return assignment(*a) if kind == 'a' else standalone(*a)


def run(tier, seed):
    grid = np.array([0., 1e-3, .25, .31, .5, .8, .95, 1.2, 1.7, 2.3, 3.1])
    K = list(TABLES) + list(FUNC)
    M = 3
    levels = [np.array([grid[(i + s * j) % len(grid)] for j in range(M)]) for i in range(len(grid)) for s in (1, 2, 5)]
    jobs = []
    tn = list(TABLES)
    for n, kinds in enumerate(itertools.product(K, repeat=M)):
        # table listings: rotations and reversal of all tables, unused ones included
        order = tn[n % len(tn):] + tn[:n % len(tn)]
        if n % 2:
            order = order[::-1]
        opts = [{}, {}, dict(sparse=True), dict(auto_permute=True)][n % 4]
        depth = 2 if tier == 'quick' else 4
        jobs.append(('a', kinds, tuple(order), levels, opts, depth))
    # every listing order for one network using three of the tables
    for order in itertools.permutations(tn):
        jobs.append(('a', ('wetland', 'pond', 'bulb'), order, levels, {}, 1))
    M = 4
    levels4 = [np.array([grid[(i + s * j) % len(grid)] for j in range(M)]) for i in range(len(grid)) for s in (1, 3)]
    if tier == 'thorough':
        for n, kinds in enumerate(itertools.product(K, repeat=4)):
            jobs.append(('a', kinds, tuple(tn[n % len(tn):] + tn[:n % len(tn)]), levels4, {}, 1))
    else:
        for n, kinds in enumerate(itertools.product(['pond', 'basin', 'f2', 'f3'], repeat=4)):
            jobs.append(('a', kinds, tuple(tn[n % len(tn):] + tn[:n % len(tn)]), levels4, {}, 1))
    jobs.append(('s', 600))
    return core.run_jobs(job, jobs)
