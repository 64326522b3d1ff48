"""P32: compiled and interpreted kernels give the same trajectories.

The same exploration (every action sequence to a depth, every scene) runs twice: in this process with the kernels
interpreted, and in a second one with the kernels compiled from the current sources.  Every state of every history is
compared."""
import copy
import itertools
import os
import pickle
import subprocess
import sys
import time
import numpy as np
from mc import core, nets, sims, soil
from mc.checks import _hydrobase, _wq

LEVEL = 'model_checking'
FLOOR = {'quick': {'compared': 15000, 'scenes_hydraulics': 40, 'scenes_soil': 2, 'scenes_quality': 20, 'scenes_simulation': 8, 'scenes_explicit': 4, 'whole': 900},
         'thorough': {'compared': 100000}}
ASSUMPTIONS = ['same to 1e-6 of the largest magnitude of a quantity: compiled code may order floating-point operations differently']


# ------------------------------------------------------------------ scenes
def hydraulic_nets():
    out = {n.name: n for n in _hydrobase.configs('quick')}
    for n in (nets.irregular(), nets.loop(auto_permute=True).copy('loop-permuted'),
              nets.control(which='owp', auto_permute=True).copy('control-permuted'),
              nets.loop(auto_permute=True, sparse=True).copy('loop-permuted-sparse')):
        out[n.name] = n
    n = nets.tee().copy('tee-tabular')
    for r in n.sj:
        r.update(storage='tabular', table='t')
    n.storages = {'t': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.]))}
    out[n.name] = n
    n = nets.flat().copy('flat-curves')
    for r in n.sj:
        r.update(a=2., b=1.5, c=1.)
    out[n.name] = n
    n = nets.chain(('rect_open', 'trapezoidal'), drop=.6, h=.3, internal_links=4, mobile_elements=True).copy('chain-mobile')
    n.sl[1].update(dx=25.)
    out[n.name] = n
    for base in ('control-owp', 'twin-controls', 'twin-controls-sparse', 'irregular', 'tee-tabular', 'flipped', 'chain-mobile', 'loop-permuted', 'shape-rect_closed',
                 'shape-trapezoidal', 'loop-ctrl', 'chain-endcells'):
        for f in (int, float):
            n = whole(out[base], f)
            out[n.name] = n
    return out


def whole(net, f):
    """the network with every figure of its tables a whole number, in columns of type f"""
    n = net.copy(net.name + ('-whole' if f is int else '-whole-float'))
    up = lambda v: f(0 if v == 0 else max(1, round(v)))
    for r in n.sj:
        r.update(z_inv=f(round(3 * r['z_inv'])), h_0=f(1), max_depth=f(20), a=up(r['a']), b=up(r['b']), c=up(r['c']), map_x=f(1), map_y=f(2))
    for r in n.sl:
        for k, v in r.items():
            if isinstance(v, float) and k != 'n':
                r[k] = up(v)
        r.update(h_0=f(1), C_uk=f(1), C_dk=f(1))
    for rows in (n.orifices, n.weirs, n.pumps):
        for r in rows:
            for k, v in r.items():
                if isinstance(v, float):
                    r[k] = up(v)
    for r in n.pumps:
        r.update(b_p=f(8), c_p=f(2))
    if n.storages:
        n.storages = {k: {c: np.round(np.asarray(v)).astype(f) for c, v in t.items()} for k, t in n.storages.items()}
    if n.transects:
        n.transects = {k: {c: (np.round(2 * np.asarray(v)).astype(f) if np.ndim(v) and c != 'n' else v) for c, v in t.items()} for k, t in n.transects.items()}
    return n


def whole_action(a, f):
    """whole numbers in the arguments of a step"""
    out = {}
    for k, v in a.items():
        if k in ('Q_in', 'Q_0Ik'):
            v = (v > .2).astype(f) if k == 'Q_in' else np.zeros(v.size, f)
        elif isinstance(v, np.ndarray):
            v = np.round(v).astype(f)
        elif k == 'dt':
            v = f(round(v))
        out[k] = v
    return out


def scenes(tier):
    out = [('hydraulics', x) for x in hydraulic_nets()]
    out += [('soil', x) for x in ('dry', 'mixed', 'even-whole', 'even-whole-float')]
    names = [n.name for n in _wq.catalogue(tier)]
    out += [('quality', x) for x in names + ['flat-whole', 'flat-whole-float', 'control-permuted-whole', 'control-permuted-whole-float', 'tee-tabular-whole', 'tee-tabular-whole-float']]
    out += [('explicit', x) for x in ('tee-whole', 'tee-whole-float', 'control-whole', 'control-whole-float')]
    out += [('simulation', x) for x in itertools.product(('chain', 'control+', 'flat', 'bc2'), ('linear', 'nearest'), ('float', 'int'))]
    return out


def vec(*a):
    return np.concatenate([np.atleast_1d(np.asarray(x, float)).ravel() for x in a if x is not None] or [np.zeros(0)])


def parts(m):
    d = {k: np.array(getattr(m, k), float) for k in ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'A_ik', 'B_ik', 'R_ik', 'A_uk', 'A_dk', 'A_sj', 'x_Ik')}
    for k in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + k[1:]):
            d[k] = np.array(getattr(m, k), float)
    d['V_sj'] = np.array(m._V_sj, float)
    return d


def dfs(obj_snap, obj_restore, acts, depth, apply, observe, log, hist=()):
    """every sequence of acts; log[history] = quantities, or the exception"""
    if len(hist) >= depth:
        return
    base = obj_snap()
    for a in acts:
        obj_restore(base)
        h = hist + (a,)
        try:
            apply(a)
            log[h] = observe()
        except Exception as e:
            log[h] = '%s: %s' % (type(e).__name__, str(e)[:150])
            continue
        dfs(obj_snap, obj_restore, acts, depth, apply, observe, log, h)
    obj_restore(base)


def record(scene, depth):
    kind, x = scene
    log = {}
    try:
        globals()['record_' + kind](x, depth, log)
    except Exception as e:
        log[('set up',)] = '%s: %s' % (type(e).__name__, str(e)[:150])
    return log


def record_hydraulics(x, depth, log):
    n = hydraulic_nets()[x]
    m = n.build()
    log[()] = parts(m)
    acts = dict(_hydrobase.action_list(n, 'quick'))
    if '-whole' in x:
        acts = {k: whole_action(a, float if x.endswith('-float') else int) for k, a in acts.items()}
    extra = ['iterate', 'spin', 'undo']

    def apply(a):
        if a == 'iterate':
            _hydrobase.do(m, dict(list(acts.values())[1], num_iter=3, head_tol=1e-9))
        elif a == 'spin':
            b = list(acts.values())[-1]
            m.spinup(n_steps=2, dt=b['dt'], Q_in=b['Q_in'].copy())
        elif a == 'undo':
            m.load_state(m.states)
            _hydrobase.do(m, list(acts.values())[0])
        else:
            _hydrobase.do(m, acts[a])
        if m.mobile_elements:
            m.reposition_junctions()
    dfs(lambda: core.snap(m), lambda s: core.restore(m, s), list(acts) + extra, depth, apply, lambda: parts(m), log)


def record_soil(x, depth, log):
    from pipedream_solver.hydrology import GreenAmpt

    def settle(m):
        # a puddle that soaks in completely within a step may leave a rounding error; whether it rains at all next is then rounding's choice
        d = np.array(m.d, float)
        m.d = np.where(np.abs(d) < 1e-12, 0., d)
    if x.startswith('even-whole'):
        # a table, steps and rain in whole numbers (metres and hours, say)
        f = float if x.endswith('float') else int
        import pandas as pd
        m = GreenAmpt(pd.DataFrame([dict(psi_f=1, Ks=1, theta_s=1, theta_i=0, A_s=100), dict(psi_f=2, Ks=3, theta_s=1, theta_i=0, A_s=7)]).astype(f))
        ints = {'dry': (3, 0), 'drizzle': (1, 1), 'rain': (2, 2), 'storm': (1, 9)}
        dfs(lambda: core.snap(m), lambda s: core.restore(m, s), list(ints), depth + 1, lambda a: (m.step(f(ints[a][0]), np.array([ints[a][1], 2 * ints[a][1]]).astype(f)), settle(m)),
            lambda: dict({k: np.array(getattr(m, k), float) for k in soil.STATE}, Q=np.array(m.Q, float)), log)
        return
    names = list(soil.SOILS)
    m = GreenAmpt(soil.table(names))
    ref = [soil.Soil(**soil.SOILS[n]) for n in names]
    acts = {'dry': (900., 0.), 'break': (40000., 0.), 'drizzle': (300., .6), 'rain': (600., 3.), 'storm': (900., 40.), 'drops': (60., 1.)}

    def apply(a):
        dt, r = acts[a]
        f = np.array([1., 1.5, .4, 2., 1.]) if x == 'mixed' else np.ones(5)
        m.step(dt, np.array([r * s.K for s in ref]) * f)
        settle(m)
    dfs(lambda: core.snap(m), lambda s: core.restore(m, s), list(acts), depth + 1, apply,
        lambda: dict({k: np.array(getattr(m, k), float) for k in soil.STATE}, Q=np.array(m.Q, float)), log)


def record_quality(x, depth, log):
    n = next(n for n in _wq.catalogue('quick') if n.name == x.split('-whole')[0])
    f = int if x.endswith('-whole') else float
    P = [dict(D=0., K=0.), dict(D=.3, K=2e-3)]
    w = _wq.World(n, [(lambda m, n, p=p: _wq.quality(m, n, _wq.span(n, 0, .2, 2.), **p)) for p in P])
    acts = dict(_wq.actions(n))
    nI = n.NK * (n.kw['internal_links'] + 1)

    def observe():
        d = {'hyd ' + k: v for k, v in _wq.view(w.m).items()}
        for k, q in enumerate(w.w):
            d.update({'%d %s' % (k, e): v for e, v in _wq.conc(w.m, q).items()})
        return d
    log[()] = observe()

    def apply(a):
        c = dict(c_0j=np.linspace(0., 3., n.M))
        if a in ('head', 'side', 'draw'):
            c.update(c_0Ik=np.full(nI, .7), c_bc=np.full(n.M, .5))
        if '-whole' in x:
            c = {k: np.round(v).astype(f) for k, v in c.items()}
            if a in ('head', 'side'):
                c.update(Q_0j=np.arange(n.M).astype(f), Q_0Ik=np.zeros(nI, f))
        if a == 'update':
            w.step(acts['head'], [c] * 2)
            for q in w.w:
                q.Kalman_Filter_WQ2(np.array([.8]), acts['head']['dt'], 0)
        else:
            w.step(acts[a], [c] * 2)
    dfs(w.snap, w.restore, list(acts) + (['update'] if x in ('chain', 'loop', 'flat') else []), depth, apply, observe, log)


def record_explicit(x, depth, log):
    """a model whose elements are tabulated one by one, in whole numbers"""
    from mc.checks import p31
    from pipedream_solver.hydraulics import SuperLink
    base, f = x.split('-')[0], float if x.endswith('float') else int
    n = whole(nets.tee() if base == 'tee' else nets.control(which='owp'), f)
    for r in n.sl:
        r.update(dx=f(60), shape='rect_closed', g1=f(4), g2=f(3))
    t = n.tables()
    sl, links, juncs = p31.explicit(n, [3] * n.NK)
    juncs['z_inv'] = np.round(juncs['z_inv'])
    for d in (links, juncs):
        for c in ('dx', 'h_0', 'A_s', 'z_inv', 'Q_0', 'g1', 'g2', 'A_c', 'C'):
            if c in d:
                d[c] = d[c].round().astype(f)
    for c in ('in_offset', 'out_offset', 'C_uk', 'C_dk', 'dx_uk', 'dx_dk', 'max_depth'):
        if c in sl:
            sl[c] = sl[c].replace(np.inf, 1000).astype(f)
    t['superlinks'] = sl
    args = {k: v for k, v in n.kw.items() if k != 'internal_links'}
    m = SuperLink(links=links, junctions=juncs, **t, **args)
    log[()] = parts(m)
    acts = {k: whole_action(a, f) for k, a in _hydrobase.action_list(n, 'quick')}
    dfs(lambda: core.snap(m), lambda s: core.restore(m, s), list(acts), depth, lambda a: _hydrobase.do(m, acts[a]), lambda: parts(m), log)


def record_simulation(x, depth, log):
    from pipedream_solver.simulation import Simulation
    kind, method, dtype = x
    n = sims.scene(kind.rstrip('+'), kind.endswith('+'))
    ops = ['step', 'retry', 'adapt', 'filter']
    for seq in itertools.product(ops, repeat=depth):
        m = n.build()
        t = sims.series(n, 'qhi')
        if dtype == 'int':
            t = {k: (np.round(v * 3.) if k != 'H_bc' else np.round(v + .5)).astype(int) for k, v in t.items()}
        s = Simulation(m, Q_in=t['Q_in'], H_bc=t['H_bc'], Q_Ik=t['Q_Ik'], t_start=10., t_end=130., dt=4., min_dt=.5, max_dt=20., tol=.01,
                       interpolation_method=method, H=np.eye(n.M)[:2], C=np.eye(n.M), Qcov=1e-4 * np.eye(n.M), Rcov=1e-3 * np.eye(2))
        for k, op in enumerate(seq):
            h = seq[:k + 1]
            try:
                if op == 'step':
                    s.step(dt=6.)
                elif op == 'retry':
                    s.step(dt=20., subdivisions=2, retries=2)
                elif op == 'adapt':
                    s.step()
                    s.dt = s.filter_step_size(tol=.01) if hasattr(s, 'filter_step_size') else s.dt
                elif op == 'filter':
                    s.kalman_filter(np.array([1., .9]), dt=5.)
                s.record_state()
                log[h] = dict(parts(m), t=np.array([m.t, s.dt]))
            except Exception as e:
                log[h] = '%s: %s' % (type(e).__name__, str(e)[:150])
                break


# ------------------------------------------------------------------ the compiled side
def depth_of(scene, tier):
    return {'hydraulics': 2, 'soil': 2, 'quality': 2, 'simulation': 2, 'explicit': 2}[scene[0]] + (tier == 'thorough')


def _one(a):
    return record(*a)


def child(tier, path):
    import multiprocessing as mp
    todo = [(s, depth_of(s, tier)) for s in scenes(tier)]
    # compile everything once, before forking
    t0 = time.time()
    seen = {}
    for s, d in todo:
        if s[0] != 'hydraulics' and s[0] in seen and s[0] != 'simulation':
            continue
        if s[0] == 'hydraulics' and s[1] not in ('chain', 'control-permuted', 'tee-tabular', 'irregular', 'loop-sparse', 'chain-mobile', 'tee-f', 'loop-lsq'):
            continue
        seen[s[0]] = 1
        record(s, 1)
    t1 = time.time()
    with mp.get_context('fork').Pool(4) as pool:
        logs = pool.map(_one, todo, chunksize=1)
    from numba.core.registry import CPUDispatcher
    import pipedream_solver.nsuperlink as N
    import pipedream_solver.nquality as Q
    import pipedream_solver.ninfiltration as G
    import pipedream_solver.ngeometry as E
    compiled = sum(isinstance(f, CPUDispatcher) for mod in (N, Q, G, E) for f in vars(mod).values())
    with open(path, 'wb') as f:
        pickle.dump(dict(logs=logs, compiled=compiled, warm=t1 - t0), f)


# ------------------------------------------------------------------ comparison
def compare(scene, depth, other):
    rep = core.Report()
    rep.count('scenes_' + scene[0])
    mine = record(scene, depth)
    rep.traces += 1
    if scene[0] != 'simulation' and scene[1].endswith('-whole'):
        # a column of whole numbers means the same whatever its type
        twin = record((scene[0], scene[1] + '-float'), depth)
        for h in mine:
            a, b = mine[h], twin.get(h)
            rep.count('whole')
            if isinstance(a, str) or not isinstance(b, dict) or any(not core.close(a[k], b[k], 1e-9, 1e-12) for k in a):
                rep.violate('whole numbers in integer columns give %s, in columns of floats %s' % (repr(a)[:300], repr(b)[:300]), dict(scene=scene, history=h),
                            signature='%s:whole' % (scene,))
                return rep
    for h in mine:
        a, b = mine[h], other.get(h)
        if isinstance(b, str) and not isinstance(a, str):
            rep.violate('only the compiled kernels raise %s' % b, dict(scene=scene, history=h), signature='%s:raises' % (scene,))
            return rep
        if isinstance(a, str) and b is not None and not isinstance(b, str):
            rep.violate('only the interpreted kernels raise %s' % a, dict(scene=scene, history=h), signature='%s:raises' % (scene,))
            return rep
    if set(mine) != set(other):
        k = sorted(set(mine) ^ set(other), key=repr)[0]
        rep.violate('a history ends early in one mode', dict(scene=scene, history=k, interpreted=repr(mine.get(k))[:200], compiled=repr(other.get(k))[:200]),
                    signature='%s:ends' % (scene,))
        return rep
    for h in mine:
        a, b = mine[h], other[h]
        rep.transitions += 1
        if isinstance(a, str):
            rep.violate('raises %s' % a, dict(scene=scene, history=h), signature='%s:raises' % (scene,))
            return rep
        rep.state(*a.values())
        for k in a:
            rep.count('compared')
            x, y = a[k], b[k]
            ok = x.shape == y.shape and np.array_equal(np.isfinite(x), np.isfinite(y))
            if ok and x.size:
                f = np.isfinite(x)
                ok = not f.any() or np.abs(x - y)[f].max() <= 1e-6 * (.1 + np.abs(x[f]).max())
            if not ok:
                rep.violate('%s: interpreted %s, compiled %s' % (k, x[:6], y[:6]), dict(scene=scene, history=h), signature='%s:%s' % (scene, k))
                return rep
    return rep


def run(tier, seed):
    path = os.path.join(os.environ['VP_SCRATCH'], 'compiled.pickle')
    env = dict(os.environ, NUMBA_DISABLE_JIT='0')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mc.checks.p32', tier, path], env=env, cwd=core.HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    rep = core.Report()
    if p.returncode:
        # does the package compile at all?
        q = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import pipedream_solver.hydraulics, pipedream_solver.hydrology, '
                            'pipedream_solver.transport, pipedream_solver.simulation'], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if q.returncode:
            rep.violate('the kernels do not compile', dict(output=q.stdout[-1500:]), signature='compile')
            return rep
        raise core.HarnessError(p.stdout[-3000:])
    got = pickle.load(open(path, 'rb'))
    if got['compiled'] < 50:
        raise core.HarnessError('kernels are not compiled (%d)' % got['compiled'])
    todo = [(s, depth_of(s, tier)) for s in scenes(tier)]
    rep = core.run_jobs(compare, [(s, d, o) for (s, d), o in zip(todo, got['logs'])])
    rep.counts['kernels_compiled'] = got['compiled']
    rep.counts['warm_up_seconds'] = int(got['warm'])
    return rep


if __name__ == '__main__':
    child(sys.argv[1], sys.argv[2])
