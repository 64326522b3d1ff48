"""P16: inputs belong to the caller and models do not share state.

Stateless exploration (every sequence is executed from its constructor call, nothing is restored from a
snapshot, which would cut the very aliases the property is about): all sequences of API calls to a depth, with
 - a deep fingerprint (values, types, labels) of every caller-owned object before and after each call,
 - a twin whose caller overwrites every object he passed as soon as the call is over.
All interleavings of the steps of two models over shared or separate tables, in both orders of construction,
against each model alone in a process in which nothing else was ever built."""
import copy
import itertools
import multiprocessing as mp
import numpy as np
import pandas as pd
from mc import core, nets, sims, soil
from mc.checks.p08 import observe, same

LEVEL = 'model_checking'
FLOOR = {'quick': {'calls': 4000, 'fingerprints': 40000, 'scribbled': 3000, 'interleavings': 1000, 'sim_calls': 500, 'soil_calls': 500, 'wq_calls': 300, 'copies': 900},
         'thorough': {'calls': 40000, 'fingerprints': 400000, 'scribbled': 30000, 'interleavings': 5000}}
ASSUMPTIONS = ['objects the model hands out (m.H_j, m.states) belong to the model; a state dictionary the caller made himself belongs to the caller',
               'fresh-process trajectories are taken in forked children of a process that has built nothing']


# ------------------------------------------------------------- caller objects
def fp(o):
    """deep fingerprint"""
    if isinstance(o, pd.DataFrame):
        return ('df', tuple(map(str, o.columns)), tuple(o.index.tolist()), str(o.index.dtype),
                tuple((str(o[c].dtype), fp(o[c].values)) for c in o.columns))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('obj', o.shape, tuple(map(repr, o.ravel())))
        return ('arr', o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, dict):
        return ('dict', tuple((k, fp(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fp(v) for v in o))
    return (type(o).__name__, repr(o))


def scribble(o):
    """overwrite everything reachable, in place"""
    if isinstance(o, pd.DataFrame):
        for c in o.columns:
            v = o[c].values
            if o[c].dtype == object:
                o[c] = ['scribble'] * len(o)
            elif o[c].dtype == bool:
                o[c] = ~v
            else:
                try:
                    v[...] = 7
                except ValueError:
                    pass
                o[c] = np.full(len(o), 7, dtype=v.dtype)
        for r in list(o.index)[1:]:
            o.drop(index=r, inplace=True)
    elif isinstance(o, np.ndarray):
        o[...] = 7.77
    elif isinstance(o, dict):
        for v in o.values():
            scribble(v)
        o.clear()
    elif isinstance(o, list):
        o[:] = [7.77] * len(o)


class Caller:
    """keeps every object handed to the library with its fingerprint at that time"""
    def __init__(self, rep):
        self.rep = rep
        self.objs = {}

    def own(self, name, o):
        self.objs[name] = (o, fp(o))
        return o

    def check(self, case, call):
        for name, (o, f) in self.objs.items():
            self.rep.count('fingerprints')
            if fp(o) != f:
                self.rep.violate('%s changed the caller\'s %s' % (call, name), case, now=repr(o)[:400])
                return False
        return True


# ------------------------------------------------------------- hydraulics
def catalogue():
    out = [nets.tee(), nets.flipped(), nets.control(which='owp'), nets.control(which='owp', auto_permute=True).copy('control-permuted'),
           nets.irregular(), nets.loop(sparse=True).copy('loop-sparse'), nets.drop_net(inertial_damping=True).copy('drop-damped')]
    n = nets.tee().copy('tee-tabular')
    for r in n.sj:
        r.update(storage='tabular', table='t')
    n.storages = {'t': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.])), 'u': dict(h=[0., 1.], A=[2., 2.5])}
    out.append(n)
    out.append(nets.chain(('rect_open', 'trapezoidal'), drop=.6, h=.3, internal_links=4, mobile_elements=True).copy('chain-mobile'))
    n = nets.tee().copy('tee-explicit')
    n.explicit = True
    out.append(n)
    # columns the constructor may want to add or rename; defaults for slots
    n = nets.chain(('circular', 'rect_closed', 'force_main')).copy('chain-bare')
    for r in n.sj:
        r.pop('map_x'), r.pop('map_y')
    for r in n.sl:
        r['g2' if r['shape'] != 'rect_closed' else 'g3'] = 0.
    out.append(n)
    n = nets.control(which='owp').copy('control-ints')
    n.ints = True
    out.append(n)
    return out


def tables(net):
    t = net.tables()
    if getattr(net, 'explicit', False):
        from mc.checks.p31 import explicit
        t['superlinks'], t['links'], t['junctions'] = explicit(net, [3] * net.NK)
    if getattr(net, 'ints', False):
        for k in ('superjunctions', 'superlinks', 'orifices', 'weirs', 'pumps'):
            f = t[k]
            for c in f.columns:
                if f[c].dtype == float and np.all(np.isfinite(f[c])) and np.all(f[c] == np.round(f[c])):
                    f[c] = f[c].astype(int)
    return t


def build(net, t):
    from pipedream_solver.hydraulics import SuperLink
    kw = dict(net.kw)
    if 'links' in t:
        kw.pop('internal_links')
    return SuperLink(**t, **kw)


def arrays(net, which):
    M = net.M
    NI = net.NK * (net.kw['internal_links'] + 1)
    q = np.zeros(M)
    z = np.array([r['z_inv'] for r in net.sj], float)
    a = {}
    if which == 'a':
        q[0] = .3
        a = dict(Q_in=q, H_bc=z + .6, Q_0Ik=np.full(NI, 1e-3))
    elif which == 'b':
        q[-1] = .2
        q[0] = -.02
        a = dict(Q_in=q, H_bc=z + .35)
    for i, (rows, key) in enumerate(((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p'))):
        if rows and which in 'ab':
            a[key] = np.linspace(1., .4, len(rows)) if which == 'a' else np.linspace(1.2, .2, len(rows))
    return a


def ops_of(net):
    ops = ['a', 'b', 'iter', 'set', 'keep', 'load', 'undo', 'spinup']
    if net.kw.get('mobile_elements'):
        ops.append('move')
    return ops


def call(m, net, op, own, kept):
    """perform one API call with objects obtained from own(name, obj); returns objects passed"""
    passed = []

    def give(name, o):
        passed.append(o)
        return own(name, o)
    if op in 'ab':
        m.step(dt=8. if op == 'a' else 15., **{k: give(op + '.' + k, v) for k, v in arrays(net, op).items()})
    elif op == 'iter':
        m.step(dt=10., num_iter=3, head_tol=1e-9, **{k: give('iter.' + k, v) for k, v in arrays(net, 'a').items()})
    elif op == 'none':
        m.step(dt=5.)
    elif op == 'keep':
        m.save_state()
        kept[0] = own('kept state', copy.deepcopy(m.states))
    elif op == 'load' and kept[0]:
        m.load_state(kept[0])
        passed.append(kept[0])
        kept[0] = None
    elif op == 'undo':
        m.load_state()
    elif op == 'spinup':
        q = arrays(net, 'b')
        m.spinup(n_steps=2, dt=3., Q_in=give('spinup.Q_in', q['Q_in']), H_bc=give('spinup.H_bc', q['H_bc']))
    elif op == 'set':
        # states may be assigned
        for k, f in (('h_Ik', 1.1), ('Q_ik', .9), ('Q_uk', .9), ('Q_dk', .8)):
            setattr(m, k, give('assigned ' + k, np.array(getattr(m, k)) * f))
        m.step(dt=5.)
    elif op == 'move':
        m.reposition_junctions()
    return passed


def job_hyd(net, first, depth):
    rep = core.Report()
    ops = ops_of(net)
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        if 'load' in seq and ('keep' not in seq or seq.index('load') < seq.index('keep')):
            continue
        case = dict(net=net.name, options=net.kw, calls=seq)
        c = Caller(rep)
        t = tables(net)
        for k, v in t.items():
            c.own('table ' + k, v)
        m = build(net, t)
        rep.count('calls')
        if not c.check(case, 'construction'):
            return rep
        # the twin's caller overwrites whatever he passed
        t2 = tables(net)
        m2 = build(net, t2)
        for v in t2.values():
            scribble(v)
        kept, kept2 = [None], [None]
        for k, op in enumerate(seq + ('a', 'iter')):
            call(m, net, op, c.own, kept)
            passed = call(m2, net, op, lambda n, o: o, kept2)
            for o in passed:
                scribble(o)
            rep.count('calls')
            rep.count('scribbled', len(passed))
            rep.transitions += 1
            if not c.check(dict(case, at=k), 'call `%s`' % op):
                return rep
            bad = same(observe(m), observe(m2))
            qi, qi2 = getattr(m, '_Q_in', None), getattr(m2, '_Q_in', None)
            if bad is None and qi is not None and qi2 is not None:
                if not core.close(qi, qi2, 1e-12, 1e-12):
                    bad = 'inflow of the last step'
            if bad:
                rep.violate('the model changes when the caller reuses his objects (%s)' % bad, dict(case, at=k))
                return rep
            rep.state(m.H_j, m.Q_ik, [m.t])
        rep.traces += 1
    rep.sample(dict(net=net.name, calls=ops, depth=depth))
    return rep


# ------------------------------------------------------------- simulation
def job_sim(kind, first, depth):
    from pipedream_solver.simulation import Simulation
    rep = core.Report()
    permute = kind.endswith('+')
    kind = kind.rstrip('+')
    n = sims.scene(kind, permute)
    ops = ['step', 'retry', 'explicit', 'record', 'kalman', 'load', 'filter', 'progress', 'exit']
    M = n.M
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + rest
        if 'exit' in seq[:-1]:
            continue
        case = dict(scene=n.name, calls=seq)
        out = []
        for twin in (False, True):
            c = Caller(rep)

            def own(name, o):
                given.append(o)
                return c.own(name, o)
            given = []

            def after(what):
                if twin:
                    for o in given:
                        scribble(o)
                    given.clear()
                    return True
                return c.check(case, what)
            t = n.tables()
            m = n.build()
            tab = {k: own('series ' + k, v) for k, v in sims.series(n, 'qhi').items() if v is not None}
            for k, v in tab.items():          # integer labels and values
                pass
            obs = np.eye(M)[[0, M - 1]]
            sim = Simulation(m, dt=5., **tab, Qcov=own('Qcov', np.diag(np.linspace(.1, .3, M))), C=own('C', np.eye(M)),
                             H=own('H', obs), Rcov=own('Rcov', .1 * np.eye(2)), Pxx=own('Pxx', .2 * np.eye(M)))
            if not after('construction of a simulation'):
                return rep
            ctl = {}
            if n.orifices:
                ctl['u_o'] = np.array([.7, .4])[:len(n.orifices)]
            trail = []
            kept = None
            with_ctl = lambda: {k: own(k, v.copy()) for k, v in ctl.items()}
            for k, op in enumerate(seq + (() if seq[-1] == 'exit' else ('step', 'kalman'))):
                if op == 'step':
                    sim.step(dt=6., **with_ctl())
                elif op == 'retry':
                    sim.step(dt=20., subdivisions=2, retries=2, tol=1e-6, coeffs=own('coeffs', [.5, .5, 0, .5, 0]), **with_ctl())
                elif op == 'explicit':
                    sim.step(dt=4., Q_in=own('Q_in', np.linspace(.2, .1, M)), **with_ctl())
                elif op == 'record':
                    sim.record_state()
                    kept = {a: copy.deepcopy(b) for a, b in m.states.items()}
                elif op == 'kalman':
                    sim.step(dt=2.)
                    sim.kalman_filter(own('Z', m.H_j[[0, M - 1]] + np.array([.01, -.02])), dt=2.)
                elif op == 'load' and kept is not None:
                    sim.load_state(own('state', kept))
                    kept = None
                elif op == 'filter':
                    sim.step(dt=6., subdivisions=2)
                    sim.step(dt=6., subdivisions=2)
                    sim.filter_step_size(tol=.3, coeffs=own('coeffs', [.5, .5, 0, .5, 0]), errs=own('errs', [.2, .1, .3]), dts=own('dts', [5., 6., 7.]))
                elif op == 'progress':
                    sim.step(dt=1.)
                elif op == 'exit':
                    sim.__exit__(None, None, None)
                rep.count('sim_calls')
                rep.transitions += 1
                if not after('simulation call `%s`' % op):
                    return rep
                trail.append(dict(observe(m), P=np.array(sim.P_x_k_k)))
                rep.state(m.H_j, [m.t])
            out.append(trail)
        for k, (a, b) in enumerate(zip(*out)):
            bad = same(a, b)
            if bad:
                rep.violate('the simulation changes when the caller reuses his objects (%s)' % bad, dict(case, at=k))
                return rep
        rep.traces += 1
    return rep


# ------------------------------------------------------------- infiltration
def soil_classes():
    from mc.checks.p17 import classes
    return classes()


def job_soil(cls, depth):
    rep = core.Report()
    names = list(soil.SOILS)
    net = nets.tee()
    ops = ['rain', 'dry', 'storm', 'pond', 'surface']
    for seq in itertools.product(ops, repeat=depth):
        case = dict(cls=cls, calls=seq)
        out = []
        for twin in (False, True):
            c = Caller(rep)
            tab = c.own('soil table', soil.table(names))
            m = soil_classes()[cls](tab)
            hyd = net.build()
            surf = np.copy(hyd.h_Ik)
            if twin:
                scribble(tab)
            elif not c.check(case, 'construction'):
                return rep
            K = np.array([soil.Soil(**soil.SOILS[n]).K for n in names])
            trail = []
            for op in seq + ('rain', 'dry'):
                given = []
                if op in ('rain', 'dry', 'storm'):
                    i = c.own('rain', K * {'rain': .8, 'dry': 0., 'storm': 30.}[op])
                    given.append(i)
                    m.step(400., i)
                elif op == 'pond':
                    d = c.own('ponded depth', np.linspace(.001, .02, len(names)))
                    m.d = d
                    m.step(300., np.zeros(len(names)))
                    if not twin and not c.check(case, 'call `%s`' % op):
                        return rep
                    given.append(d)
                elif op == 'surface':
                    # as in the documentation: the depth of water on the surface is the hydraulic model's
                    m.d = hyd.h_Ik[:len(names)] if len(hyd.h_Ik) >= len(names) else np.resize(hyd.h_Ik, len(names))
                    m.step(300., K * .1)
                    if not np.array_equal(hyd.h_Ik, surf):
                        rep.violate('infiltration changed the depths of the hydraulic model', case)
                        return rep
                rep.count('soil_calls')
                rep.transitions += 1
                if twin:
                    for o in given:
                        scribble(o)
                    c.objs.clear()
                elif not c.check(case, 'call `%s`' % op):
                    return rep
                if not np.array_equal(hyd.h_Ik, surf):
                    rep.violate('infiltration changed the depths of the hydraulic model', case)
                    return rep
                trail.append(dict(f=np.array(m.f), F=np.array(m.F), T=np.array(m.T)))
            out.append(trail)
        for k, (a, b) in enumerate(zip(*out)):
            bad = same(a, b)
            if bad:
                rep.violate('the soil changes when the caller reuses his objects (%s)' % bad, dict(case, at=k))
                return rep
            rep.state(a['F'], a['f'])
        rep.traces += 1
    return rep


# ------------------------------------------------------------- several models
class Hyd:
    """one hydraulic model with its fixed step script"""
    def __init__(self, net, t=None):
        self.net = net
        self.m = build(net, t or tables(net))

    def go(self, k):
        self.m.step(dt=[8., 15., 3.][k], **arrays(self.net, 'aba'[k]))
        if self.net.kw.get('mobile_elements'):
            self.m.reposition_junctions()

    def view(self):
        return observe(self.m)


class Sim:
    def __init__(self, kind, t=None):
        from pipedream_solver.simulation import Simulation
        self.n = sims.scene(kind)
        self.m = build(self.n, (t or {}).get('tables') or tables(self.n))
        self.s = Simulation(self.m, dt=5., **((t or {}).get('series') or {k: v for k, v in sims.series(self.n, 'qhi').items()}))

    def go(self, k):
        if k == 1:
            self.s.step(dt=20., subdivisions=2, retries=1, tol=1e-3)
        else:
            self.s.step(dt=7.)
        self.s.record_state()

    def view(self):
        v = observe(self.m)
        v['recorded'] = np.array(sorted(self.s.states.H_j), float)
        return v


class Soil:
    def __init__(self, cls, t=None):
        self.names = list(soil.SOILS)
        self.m = soil_classes()[cls](t if t is not None else soil.table(self.names))

    def go(self, k):
        K = np.array([soil.Soil(**soil.SOILS[n]).K for n in self.names])
        self.m.step([300., 900., 100.][k], K * [2., 0., 40.][k])

    def view(self):
        return {k: np.array(getattr(self.m, k), float) for k in ('f', 'F', 'd', 'T')}


def make(spec, t=None):
    kind, x = spec
    if kind == 'hyd':
        return Hyd(x, t)
    if kind == 'sim':
        return Sim(x, t)
    if kind == 'soil':
        return Soil(x, t)
    from mc.checks import _wq
    return _wq.Pairing(x, t)


def shared(spec):
    kind, x = spec
    if kind == 'hyd':
        return tables(x)
    if kind == 'sim':
        n = sims.scene(x)
        return dict(tables=tables(n), series=sims.series(n, 'qhi'))
    if kind == 'soil':
        return soil.table(list(soil.SOILS))
    from mc.checks import _wq
    return _wq.pairing_tables(x)


def alone(spec):
    """trajectory of one model in a process that has built nothing else"""
    o = make(spec)
    out = [o.view()]
    for k in range(3):
        o.go(k)
        out.append(o.view())
    return out


def label(spec):
    return '%s:%s' % (spec[0], getattr(spec[1], 'name', spec[1]))


def job_pair(a, b, ra, rb, share):
    rep = core.Report()
    orders = sorted(set(itertools.permutations('aaabbb')))
    for swap in (False, True):
        for order in orders:
            t = shared(a) if share else None
            o = {}
            for k in 'ba' if swap else 'ab':
                o[k] = make({'a': a, 'b': b}[k], t)
            n = dict(a=0, b=0)
            case = dict(a=label(a), b=label(b), shared_tables=share, built='ba' if swap else 'ab', order=''.join(order))
            for k in order:
                o[k].go(n[k])
                n[k] += 1
                rep.transitions += 1
                for w, ref in (('a', ra), ('b', rb)):
                    bad = same(ref[n[w]], o[w].view())
                    if bad:
                        rep.violate('model %s differs from a run without the other (%s)' % (w, bad), dict(case, after=dict(n)))
                        return rep
            rep.count('interleavings')
            rep.state(hash(str(case)))
            rep.traces += 1
    return rep


def job_clone(a, ra):
    """copies of a running model (copy.deepcopy, pickle) continue as it does, and neither disturbs the other"""
    import pickle
    rep = core.Report()
    for how in ('deepcopy', 'pickle'):
        for at in range(3):
            for order in sorted(set(itertools.permutations('a' * (3 - at) + 'b' * (3 - at)))):
                o = {'a': make(a)}
                for k in range(at):
                    o['a'].go(k)
                o['b'] = copy.deepcopy(o['a']) if how == 'deepcopy' else pickle.loads(pickle.dumps(o['a']))
                n = dict(a=at, b=at)
                case = dict(a=label(a), copied=how, after=at, order=''.join(order))
                for k in order:
                    o[k].go(n[k])
                    n[k] += 1
                    rep.transitions += 1
                    for w in 'ab':
                        bad = same(ra[n[w]], o[w].view())
                        if bad:
                            rep.violate('%s differs once the model has a copy (%s)' % ('the model' if w == 'a' else 'the copy', bad), dict(case, steps=dict(n)))
                            return rep
                rep.count('copies')
                rep.traces += 1
                rep.state(hash(str(case)))
    return rep


def job_wq(x, first, depth):
    from mc.checks import _wq
    return _wq.ownership(x, first, depth, Caller, scribble)


def dispatch(kind, *a):
    return globals()[kind](*a)


def run(tier, seed):
    q = tier == 'quick'
    cat = catalogue()
    specs = [('hyd', n) for n in cat] + [('sim', 'chain'), ('sim', 'control'), ('soil', 'compiled'), ('soil', 'scalar')]
    try:
        from mc.checks import _wq
        specs += [('wq', x) for x in _wq.PAIRINGS]
    except ImportError:
        _wq = None
    ctx = mp.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        refs = pool.map(_alone, specs, chunksize=1)
    rep = core.Report()
    for s, r in zip(specs, refs):
        if isinstance(r, str):
            raise core.HarnessError(r) if not r.startswith('REPO') else RuntimeError(r)
    jobs = []
    depth = 3 if q else 4
    for n in cat:
        for f in ops_of(n):
            jobs.append(('job_hyd', n, f, depth))
    for kind in ('chain', 'control+', 'tee+') if q else ('chain', 'control', 'control+', 'tee+', 'bc2', 'flat'):
        for f in ('step', 'retry', 'explicit', 'record', 'kalman', 'load', 'filter', 'progress', 'exit'):
            jobs.append(('job_sim', kind, f, 2 if q else 3))
    for cls in soil_classes_n():
        jobs.append(('job_soil', cls, 3 if q else 5))
    if _wq:
        for x in _wq.PAIRINGS:
            for f in _wq.OWN_OPS:
                jobs.append(('job_wq', x, f, 3 if q else 4))
    for i, (a, ra) in enumerate(zip(specs, refs)):
        jobs.append(('job_pair', a, a, ra, ra, True))
        jobs.append(('job_clone', a, ra))
        for b, rb in list(zip(specs, refs))[i + 1:]:
            if q and (i + specs.index(b)) % 3 and a[0] == b[0] == 'hyd':
                continue
            jobs.append(('job_pair', a, b, ra, rb, False))
    rep.merge(core.run_jobs(dispatch, jobs))
    return rep


def soil_classes_n():
    return list(soil_classes())


def _alone(spec):
    import traceback
    try:
        return alone(spec)
    except Exception as e:
        return ('REPO ' if core.from_repo(e) else '') + traceback.format_exc()


def coverage(rep):
    return dict(bounds='all call sequences of depth 3 (4) over 8-9 calls on 11 networks, of depth 2 (3) over 9 simulation calls; '
                       'all 20 interleavings of 3+3 steps, both orders of construction, of pairs of models, and of a model and its deep or pickled copy')
