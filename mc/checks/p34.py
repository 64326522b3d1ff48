"""P34: what is left out takes its default.

Twin models: one is built and stepped with optional columns, tables and arguments left out, the other with the defaults
written out.  Every subset of the optional columns is left out (of every table, for every combination of conduit
directions), and every sequence of calls to a depth, each call leaving out every subset of its optional arguments, is
taken by both in lock step."""
import itertools
import numpy as np
import pandas as pd
from mc import core, nets
from mc.checks import _wq, p31
from mc.checks.p08 import observe, same

LEVEL = 'model_checking'
FLOOR = {'quick': {'tables': 1200, 'calls': 1500, 'quality': 300, 'forms': 300}, 'thorough': {'tables': 5000, 'calls': 10000}}
ASSUMPTIONS = ['defaults: no end cells, loss coefficient 1/0.67^2 at conduit ends, no largest depth, Chezy-Manning friction, square orifice '
               'openings, two-way orifices, slots of 1 mm, closed controls, no inflow, heads and concentrations kept at boundaries']
C0 = 1 / .67**2
FRICTION = dict(cm=.014, hw=110., dw=.0012)


# ------------------------------------------------------------------ tables
SL = {   # column -> value that means the same as leaving it out
    'C_uk': C0, 'C_dk': C0, 'dx_uk': 0., 'dx_dk': 0., 'friction_method': 'cm', 'max_depth': np.inf, 'name': None}
SJ = {'name': None, 'max_depth': np.inf, 'map_x': 0., 'map_y': 0.}


def dress(net):
    """values that differ from row to row for all optional columns of conduits"""
    n = net.copy()
    for k, r in enumerate(n.sl):
        r.update(C_uk=.3 + .2 * k, C_dk=1.1 - .2 * k, dx_uk=3. + k, dx_dk=6. - k, max_depth=2.5 - .1 * k, name='pipe%d' % k,
                 friction_method=('cm', 'hw', 'dw')[k % 3])
        r['n'] = FRICTION[r['friction_method']]
    for j, r in enumerate(n.sj):
        r.update(name='node%d' % j, max_depth=3. + j, map_x=1. * j, map_y=-1. * j)
    return n


def base():
    out = [nets.tee(('rect_open', 'circular', 'trapezoidal')), nets.flipped(), nets.loop(), nets.drop_net(), nets.control(which='owp'), nets.outfall(),
           nets.tee(auto_permute=True).copy('tee-permuted'), nets.loop(sparse=True).copy('loop-sparse')]
    return [dress(n) for n in out]


def turns(net):
    """the conduits written down in every combination of directions"""
    for flip in itertools.product([False, True], repeat=net.NK):
        v = net.copy()
        for r, f in zip(v.sl, flip):
            if f:
                for x, y in (('sj_0', 'sj_1'), ('in_offset', 'out_offset'), ('C_uk', 'C_dk'), ('dx_uk', 'dx_dk')):
                    r[x], r[y] = r[y], r[x]
                r['Q_0'] = -r['Q_0']
        yield flip, v


def step(m, a):
    m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()})


def acts_of(net):
    M = net.M
    q = .07 * ((np.arange(M) * 3) % 4)
    z = np.array([r['z_inv'] for r in net.sj])
    if net.kw.get('auto_permute'):
        z = z[net.build().permutations]
    ctl = {}
    for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
        if rows:
            ctl[key] = np.linspace(1., .4, len(rows))
    return {'fill': dict(Q_in=q, dt=5., **ctl), 'back': dict(H_bc=z + 1.3, Q_in=-.1 * q, dt=8., **ctl), 'iter': dict(Q_in=2 * q, dt=20., num_iter=3, head_tol=1e-9)}


def lockstep(rep, a, b, acts, depth, case, key, look=observe):
    """both models take the same steps"""
    bad = same(look(a), look(b))
    if bad:
        rep.violate('%s differs at the start from the model with the defaults written out' % bad, case)
        return

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return True
        sa, sb = core.snap(a), core.snap(b)
        for name, act in acts.items():
            core.restore(a, sa)
            core.restore(b, sb)
            step(a, act)
            step(b, act)
            rep.transitions += 1
            rep.count(key)
            rep.state(a.H_j, a.h_Ik, a.Q_ik)
            x, y = look(a), look(b)
            bad = same(x, y)
            if bad:
                rep.violate('%s is %s, with the defaults written out %s' % (bad, x[bad], y[bad]), dict(case, ops=hist + (name,)))
                return False
            if not rec(hist + (name,)):
                return False
        core.restore(a, sa)
        core.restore(b, sb)
        return True
    rec(())


def make(net, t):
    from pipedream_solver.hydraulics import SuperLink
    return SuperLink(**t, **net.kw)


def columns(net, flip, table, depth):
    rep = core.Report()
    spec = dict(superlinks=SL, superjunctions=SJ)[table]
    acts = acts_of(net)
    for out in itertools.chain.from_iterable(itertools.combinations(spec, r) for r in range(1, len(spec) + 1)):
        if table == 'superlinks' and 'max_depth' in out and len(out) not in (1, len(spec)):
            continue
        case = dict(net=net.name, written_against=flip, table=table, left_out=out)
        if 'friction_method' in out:
            net = net.copy()
            for r in net.sl:
                r['n'] = .014
        ta, tb = net.tables(), net.tables()
        for c in out:
            ta[table] = ta[table].drop(columns=c)
            if spec[c] is None:
                tb[table][c] = list(ta[table].index)
            else:
                tb[table][c] = spec[c]
        if table == 'superlinks' and len(out) == 2:
            ta[table] = ta[table].rename(columns={'n': 'roughness'})
        a, b = make(net, ta), make(net, tb)
        if list(a.superlink_names) != list(b.superlink_names) or list(a.superjunction_names) != list(b.superjunction_names):
            rep.violate('names are %s %s' % (list(a.superlink_names), list(a.superjunction_names)), case)
            continue
        lockstep(rep, a, b, acts, depth, case, 'tables')
    rep.sample(dict(net=net.name, table=table))
    return rep


def slots(depth):
    """pieces of a section that have a default, and unused dimensions"""
    rep = core.Report()
    for shape, need, extra in (('circular', ('g1',), dict(g2=.001)), ('rect_closed', ('g1', 'g2'), dict(g3=.001)), ('force_main', ('g1',), dict(g2=.001)),
                               ('rect_open', ('g1', 'g2'), {}), ('triangular', ('g1', 'g2'), {}), ('trapezoidal', ('g1', 'g2', 'g3'), {}),
                               ('wide', ('g1', 'g2'), {}), ('parabolic', ('g1', 'g2'), {})):
        for h in (.5, 2.3):
            net = nets.chain((shape, shape), h=h)
            acts = acts_of(net)
            for form in ('column left out', 'zero', 'half'):
                ta, tb = net.tables(), net.tables()
                for g in ('g1', 'g2', 'g3', 'g4'):
                    if g not in need:
                        tb['superlinks'][g] = extra.get(g, 0.)
                        if form == 'column left out':
                            ta['superlinks'] = ta['superlinks'].drop(columns=g)
                        elif form == 'zero':
                            ta['superlinks'][g] = 0.
                        else:
                            ta['superlinks'][g] = [0., extra.get(g, 0.)]
                lockstep(rep, make(net, ta), make(net, tb), acts, depth, dict(shape=shape, depth=h, dimensions=form), 'tables')
    return rep


def orifices(depth):
    rep = core.Report()
    for orient in ('side', 'bottom'):
        for h in (.3, .9):
            net = nets.control(which='owp')
            for r in net.sj:
                r['h_0'] = h
            for r in net.orifices:
                r.update(orientation=orient, A=.25 + .1 * r['sj_0'], shape='rect_open', oneway=False)
                r.update(g1=np.sqrt(r['A']), g2=np.sqrt(r['A']), g3=0.)
            acts = acts_of(net)
            for out in (('shape', 'g1', 'g2', 'g3'), ('oneway',), ('shape', 'g1', 'g2', 'g3', 'oneway'), ('name',)):
                ta = net.tables()
                for c in out:
                    ta['orifices'] = ta['orifices'].drop(columns=c, errors='ignore')
                lockstep(rep, make(net, ta), net.build(), acts, depth, dict(orientation=orient, h=h, table='orifices', left_out=out), 'tables')
    return rep


def options(depth):
    """constructor arguments, every one left out"""
    rep = core.Report()
    from pipedream_solver.hydraulics import SuperLink
    full = dict(dt=60, sparse=False, min_depth=1e-5, method='b', inertial_damping=False, bc_method='z', exit_hydraulics=False,
                auto_permute=False, end_length=None, end_method='b', internal_links=4, mobile_elements=False, links=None, junctions=None,
                transects={}, storages={}, orifices=None, weirs=None, pumps=None)
    for net in (nets.tee(), nets.flipped(), nets.flat()):
        acts = acts_of(net)
        acts['plain'] = {}
        t = net.tables()
        for out in [tuple(full)] + [(k,) for k in full]:
            ta = dict(net.tables(), **{k: v for k, v in full.items() if k not in out})
            lockstep(rep, SuperLink(**ta), SuperLink(**net.tables(), **full), acts, depth, dict(net=net.name, arguments_left_out=out), 'tables')
    return rep


# ------------------------------------------------------------------ arguments of steps
def calls(net, depth, first, deep):
    """step(): every subset of the optional arguments left out against the defaults handed over"""
    rep = core.Report()
    a, b = net.build(dt=7.), net.build(dt=7.)
    optional = ['Q_in', 'Q_0Ik', 'H_bc', 'dt', 'rest'] + [k for k in 'owp' if getattr(a, 'n_' + k)]
    nI = len(a.h_Ik)
    q = .07 * ((np.arange(net.M) * 3) % 4)
    z = np.array(a._z_inv_j)
    plan = list(itertools.product([False, True], repeat=len(optional)))
    if not deep:
        plan = [x for x in plan if sum(x) in (0, 1, len(x) - 1, len(x))]

    def given(m, out, spell):
        d = {}
        for k, gone in zip(optional, out):
            val, dflt = {'Q_in': (q, np.zeros(net.M)), 'Q_0Ik': (np.full(nI, 2e-3), np.zeros(nI)), 'H_bc': (z + .8, np.array(m.H_j)),
                         'dt': (11., 7.), 'rest': (None, None), 'o': (np.full(m.n_o, .6), np.zeros(m.n_o)),
                         'w': (np.full(m.n_w, .7), np.zeros(m.n_w)), 'p': (np.full(m.n_p, .8), np.zeros(m.n_p))}[k]
            if k == 'rest':
                if not gone or spell:
                    d.update(first_time=False, implicit=True, banded=m.banded, first_iter=True, num_iter=1, head_tol=.0015)
                continue
            k = 'u_' + k if k in 'owp' else k
            if not gone:
                d[k] = val
            elif spell:
                d[k] = dflt
        return d

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        sa, sb = core.snap(a), core.snap(b)
        for out in (plan if hist else [first]):
            core.restore(a, sa)
            core.restore(b, sb)
            step(a, given(a, out, False))
            step(b, given(b, out, True))
            rep.transitions += 1
            rep.count('calls')
            rep.state(a.H_j, a.h_Ik, a.Q_ik)
            x, y = observe(a), observe(b)
            bad = same(x, y)
            h = hist + (tuple(k for k, g in zip(optional, out) if g),)
            if bad:
                rep.violate('%s is %s, with the defaults handed over %s' % (bad, x[bad], y[bad]), dict(net=net.name, arguments_left_out=h))
                return
            rec(h)
        core.restore(a, sa)
        core.restore(b, sb)
    rec(())
    return rep


# ------------------------------------------------------------------ tabulated elements
def elements(net, depth):
    rep = core.Report()
    n = 3
    sl, links, juncs = p31.explicit(net, (n,) * net.NK)
    from pipedream_solver.hydraulics import SuperLink
    kw = {k: v for k, v in net.kw.items() if k != 'internal_links'}
    acts = acts_of(net)

    def build(s, l, j):
        t = net.tables()
        t['superlinks'] = s
        return SuperLink(links=l, junctions=j, **t, **kw)
    l2 = links.copy()
    l2['friction_method'] = 'cm'
    l2['n'] = .014
    forms = {'no friction method': l2.drop(columns='friction_method'), 'roughness': l2.rename(columns={'n': 'roughness'}),
             'both': l2.assign(roughness=l2['n']).drop(columns='friction_method'), 'no transect': l2.drop(columns='transect', errors='ignore'),
             'few dimensions': l2.drop(columns=[g for g in ('g4', 'g5', 'g6', 'g7') if g in l2]), 'no names': l2.drop(columns=['name', 'h_0', 'A_s'])}
    for what, l in forms.items():
        lockstep(rep, build(sl, l, juncs), build(sl, l2, juncs), acts, depth, dict(net=net.name, links=what), 'tables')
    lockstep(rep, build(sl.drop(columns=['dx_uk', 'dx_dk', 'C_uk', 'C_dk', 'name', 'max_depth', 'friction_method']), l2, juncs.drop(columns='name')),
             build(sl.assign(dx_uk=0., dx_dk=0., C_uk=C0, C_dk=C0, max_depth=np.inf), l2, juncs), acts, depth,
             dict(net=net.name, superlinks='only required columns'), 'tables')
    return rep


# ------------------------------------------------------------------ water quality
QOPT = ('junctions', 'links', 'D_uk', 'D_dk', 'filter', 'limits')
QARG = ('dt', 'c_bc', 'c_0j', 'Q_0j', 'c_0Ik', 'Q_0Ik')


def quality(name, depth, out):
    rep = core.Report()
    from pipedream_solver.transport import QualityBuilder
    net = next(n for n in _wq.catalogue() if n.name == name)
    m = net.build(dt=4.)
    NK, nl, M = net.NK, net.kw['internal_links'], net.M
    per = dict(K=1e-3 * (1 + np.arange(NK)), D=.01 * (1 + np.arange(NK)), c_0=1. + np.arange(NK))
    case = dict(net=name, left_out=out)

    def tables(spell):
        t = _wq.params(net, 0., K=1e-4, D=.02)
        t['superjunction_params']['c_0'] = .5 + np.arange(M)
        for c, v in per.items():
            t['superlink_params'][c] = v
        t['superlink_params']['D_uk'] = .05 + .01 * np.arange(NK)
        t['superlink_params']['D_dk'] = .09 - .01 * np.arange(NK)
        t['superlink_params'][['KF_obs_point', 'KF_process_sigma', 'KF_measure_sigma']] = [0, 0., 0.]
        t['superlink_params']['KF_obs_point'] = 0
        t['junction_params']['c_0'] = np.linspace(2., 5., NK * (nl + 1))
        t['link_params']['c_0'] = np.linspace(3., 4., NK * nl)
        lim = dict(c_min=.0, c_max=np.inf)
        for o in out:
            if o in ('junctions', 'links'):
                key, n = ('junction_params', nl + 1) if o == 'junctions' else ('link_params', nl)
                if spell:
                    t[key] = pd.DataFrame({c: np.repeat(v, n) for c, v in per.items()})
                else:
                    del t[key]
            elif o in ('D_uk', 'D_dk'):
                if spell:
                    t['superlink_params'][o] = per['D']
                else:
                    t['superlink_params'] = t['superlink_params'].drop(columns=o)
            elif o == 'filter' and not spell:
                t['superlink_params'] = t['superlink_params'].drop(columns=['KF_obs_point', 'KF_process_sigma', 'KF_measure_sigma'])
            elif o == 'limits' and not spell:
                lim = {}
        p = _wq.order(m)
        if p is not None:
            t['superjunction_params'] = t['superjunction_params'].iloc[p].reset_index(drop=True)
        return dict(t, **lim)
    a, b = QualityBuilder(m, **tables(False)), QualityBuilder(m, **tables(True))
    if not core.close(_wq.flat(_wq.conc(m, a)), _wq.flat(_wq.conc(m, b)), 1e-12, 1e-12):
        rep.violate('concentrations at the start differ from those with the defaults written out', case)
        return rep
    hyd = {k: dict(v, dt=4.) for k, v in _wq.actions(net) if k in ('head', 'side')}
    plan = [set(x) for r in (0, 1, 2, len(QARG)) for x in itertools.combinations(QARG, r)]
    plan = [x for x in plan if len(x) != 2 or x in ({'c_0j', 'c_0Ik'}, {'Q_0j', 'Q_0Ik'}, {'c_bc', 'dt'})]

    def given(w, gone, spell, h):
        full = dict(dt=(4., 4.), c_bc=(np.linspace(.2, .6, M), np.array(w.c_j)), c_0j=(np.linspace(1., 3., M), np.zeros(M)),
                    Q_0j=(np.array(h['Q_in']), np.array(h['Q_in'])), c_0Ik=(np.full(len(w.c_Ik), 1.5), np.zeros(len(w.c_Ik))),
                    Q_0Ik=(h.get('Q_0Ik', np.zeros(len(w.c_Ik))),) * 2)
        return {k: v[1] if k in gone else v[0] for k, v in full.items() if spell or k not in gone}

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return True
        s = [core.snap(o) for o in (m, a, b)]
        for hn, h in hyd.items():
            for gone in plan:
                for o, x in zip((m, a, b), s):
                    core.restore(o, x)
                h_ = _wq.todo(m, h)
                m.step(**_wq.todo(m, h))
                ca, cb = given(a, gone, False, h_), given(b, gone, True, h_)
                a.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in ca.items()})
                b.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in cb.items()})
                rep.transitions += 1
                rep.count('quality')
                x, y = _wq.conc(m, a), _wq.conc(m, b)
                rep.state(_wq.flat(x))
                hh = hist + ((hn, tuple(sorted(gone))),)
                if not gone and not hist:
                    # inflows given to the call count, not those of the hydraulic model
                    here = core.snap(a)
                    for q, c in (('Q_0j', 'c_0j'), ('Q_0Ik', 'c_0Ik')):
                        r = []
                        for f in (0., 1e-3 if q == 'Q_0Ik' else .05):
                            for v in (0., 4.):
                                core.restore(a, s[1])
                                kw = {k: (u.copy() if isinstance(u, np.ndarray) else u) for k, u in given(a, (), True, h_).items()}
                                a.step(**dict(kw, **{q: np.full(len(kw[q]), f), c: np.full(len(kw[c]), v)}))
                                r.append(_wq.flat(_wq.conc(m, a)))
                        rep.count('given_inflows')
                        if not core.close(r[0], r[1], 1e-12, 1e-12):
                            rep.violate('without inflow (%s given as zero) the concentration of inflow matters' % q, dict(case, action=hn), got=r[1], want=r[0])
                            return False
                        if core.close(r[2], r[3], 1e-6, 1e-6):
                            rep.violate('the concentration of the given inflow (%s) does not matter' % q, dict(case, action=hn), got=r[3])
                            return False
                    core.restore(a, here)
                for e in 'jIiud':
                    if not core.close(x[e], y[e], 1e-9, 1e-12):
                        rep.violate('c_%s is %s, with the defaults written out %s' % (e, x[e], y[e]), dict(case, calls_left_out=hh))
                        return False
                if not rec(hh):
                    return False
        for o, x in zip((m, a, b), s):
            core.restore(o, x)
        return True
    rec(())
    return rep


# ------------------------------------------------------------------ simulations
def forms(kind, depth):
    """covariances and matrices as number, vector or matrix; times and step size left out"""
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    net = nets.tee() if kind == 'tee' else nets.loop(auto_permute=True).copy('loop-permuted')
    M = net.M
    t = [2., 30., 90.]
    Q = pd.DataFrame(np.outer([.1, .4, .2], 1 + np.arange(M)), index=t)
    Z = 1. + .1 * np.arange(M)
    I = np.eye(M)
    vec = np.linspace(.5, 1.5, M)
    mats = dict(Qcov=(np.zeros((M, M)), .02), Rcov=(np.zeros((M, M)), .3), C=(I, .8), H=(I, 1.2))

    def sim(**kw):
        return Simulation(net.build(dt=9.), Q_in=Q, **kw)

    def run(s, ops):
        out = [np.array([s.t, s.t_start, s.t_end, s.dt, s.min_dt, s.max_dt, s.tol])]
        for op in ops:
            if op == 'filter':
                s.kalman_filter(Z.copy())
            else:
                s.step(**({} if op == 'plain' else dict(dt=4.)))
            out.append(np.concatenate([[s.t], s.model.H_j, s.model.Q_ik, s.P_x_k_k.ravel()]))
        return out
    ops = [o for r in range(1, depth + 1) for o in itertools.product(('plain', 'filter', 'four'), repeat=r) if o[0] != 'filter']

    def both(what, a, b):
        for o in ops:
            x, y = run(sim(**a), o), run(sim(**b), o)
            rep.count('forms')
            rep.transitions += len(o)
            rep.state(*x)
            for k, (u, v) in enumerate(zip(x, y)):
                if u.shape != v.shape or not core.close(np.nan_to_num(u, posinf=1e99), np.nan_to_num(v, posinf=1e99), 1e-9, 1e-10):
                    rep.violate('simulation with %s differs from the one with the matrices and times written out' % what, dict(net=net.name, ops=o, at=k))
                    return
            rep.traces += 1
    on = dict(Qcov=.02 * I, Rcov=.3 * I)
    for k, (dflt, num) in mats.items():
        rest = {x: v for x, v in on.items() if x != k}
        if k != 'Rcov':
            both(k + ' left out', rest, dict(rest, **{k: dflt}))
        both(k + ' a number', dict(rest, **{k: num}), dict(rest, **{k: num * I}))
        both(k + ' a vector', dict(rest, **{k: num * vec}), dict(rest, **{k: num * np.diag(vec)}))
    both('step size and times left out', on, dict(on, dt=9., t_start=2., t_end=90.))
    both('limits left out', on, dict(on, min_dt=1, max_dt=200, tol=.01, min_rel_change=1e-10, max_rel_change=1e10, safety_factor=.9,
                                     interpolation_method='linear', max_iter=None, H_bc=None, Q_Ik=None))
    both('initial covariance left out', dict(on, C=.8), dict(on, C=.8, Pxx=.8 * .02 * .8 * I))
    return rep


def dispatch(kind, *a):
    return dict(columns=columns, slots=slots, orifices=orifices, options=options, calls=calls, elements=elements, quality=quality,
                forms=forms)[kind](*a)


def run(tier, seed):
    deep = tier != 'quick'
    d = 3 if deep else 2
    jobs = []
    for net in base():
        for flip, v in turns(net):
            jobs.append(('columns', v, flip, 'superlinks', 2 if deep else 1))
        jobs.append(('columns', net, (), 'superjunctions', d))
    jobs += [('slots', d), ('orifices', d), ('options', d)]
    for n in (nets.tee(), nets.control(which='owp'), nets.loop(auto_permute=True).copy('loop-permuted'), nets.control(which='owp', sparse=True).copy('control-sparse')):
        k = 5 + len(''.join(c for c, r in zip('owp', (n.orifices, n.weirs, n.pumps)) if r))
        for first in itertools.product([False, True], repeat=k):
            jobs.append(('calls', n, 2, first, deep))
    for n in (nets.tee(), nets.flipped(), nets.loop(method='lsq').copy('loop-lsq')):
        jobs.append(('elements', dress(n), d))
    for name in ('tee', 'flipped', 'control-owp', 'loop-permuted', 'tee-sparse'):
        for r in range(1, len(QOPT) + 1):
            for out in itertools.combinations(QOPT, r):
                jobs.append(('quality', name, 2 if deep and r in (1, len(QOPT)) else 1, out))
    for kind in ('tee', 'loop'):
        jobs.append(('forms', kind, 4 if deep else 3))
    return core.run_jobs(dispatch, jobs)
