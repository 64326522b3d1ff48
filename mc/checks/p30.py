"""P30: clock, counters, iteration, default arguments and warm-up.

Every sequence (to a depth) of step calls with each optional argument present or omitted, with iteration
counts, and of warm-up calls; a twin model takes the written-out equivalent of each call."""
import numpy as np
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'steps': 10000, 'iterated': 1500, 'spinups': 800, 'converged': 300},
         'thorough': {'steps': 100000, 'iterated': 10000, 'spinups': 8000, 'converged': 2000}}
ASSUMPTIONS = ['an omitted control signal means closed (as the code documents it)',
               'twin comparison to 1e-9 relative, iterated results compared to the head tolerance']
KEYS = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik')


def catalogue():
    out = [nets.tee(), nets.loop(), nets.flipped(), nets.drop_net(), nets.parallel(), nets.irregular(),
           nets.flat(inertial_damping=True).copy('flat-damped'), nets.control(which='o'), nets.control(which='w'),
           nets.control(which='p'), nets.control(which='owp'), nets.outfall(), nets.tee(method='f').copy('tee-f'),
           nets.loop(method='lsq').copy('loop-lsq'), nets.loop(auto_permute=True).copy('loop-permuted'),
           nets.control(which='owp', auto_permute=True).copy('control-permuted'),
           nets.chain(('rect_open', 'circular'), dt=7.5).copy('chain-dt7.5'),
           nets.chain(('rect_open', 'trapezoidal'), drop=.6, h=.3, internal_links=4, mobile_elements=True).copy('chain-mobile')]
    n = nets.chain(('rect_open', 'circular', 'wide'), h=.8).copy('two-boundaries')
    n.sj[1]['bc'] = True
    return out + [n]


def obs(m):
    d = {k: np.array(getattr(m, k), float) for k in KEYS}
    for k in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + k[1:]):
            d[k] = np.array(getattr(m, k), float)
    return d


def same(a, b, r=1e-9, t=1e-10):
    for k in a:
        if not core.close(a[k], b[k], r, t):
            return k
    return None


def calls(net):
    """name -> (kind, kwargs)"""
    M, NI = net.M, net.NK * (net.kw['internal_links'] + 1)
    q = .03 * ((np.arange(M) * 3) % 4)
    qi = .002 * (np.arange(NI) % 3)
    z = np.array([r['z_inv'] for r in net.sj])
    if net.kw.get('auto_permute'):
        z = z[net.build().permutations]
    hb = z + .7
    ctl = {}
    for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
        if rows:
            ctl[key] = np.linspace(1., .4, len(rows))
    c = {'all': ('step', dict(Q_in=q, Q_0Ik=qi, H_bc=hb, dt=6., **ctl)),
         'noH': ('step', dict(Q_in=q, Q_0Ik=qi, dt=4., **ctl)),
         'noQ': ('step', dict(H_bc=hb - .2, Q_0Ik=qi, dt=9., **ctl)),
         'noI': ('step', dict(H_bc=hb - .1, Q_in=-.3 * q, dt=3., **ctl)),
         'bare': ('step', dict(dt=11.)),
         'none': ('step', dict()),
         'it3': ('step', dict(Q_in=q * 4, dt=20., num_iter=3, head_tol=1e-12, **ctl)),
         'it2': ('step', dict(Q_in=q * 2, dt=8., num_iter=2, head_tol=1e-12, **ctl)),
         'it6': ('step', dict(Q_in=-q, H_bc=hb, dt=12., num_iter=6, **ctl)),
         'itn': ('step', dict(dt=5., num_iter=40, head_tol=1e-6)),
         'sp': ('spin', dict(n_steps=3, dt=4.)),
         'spk': ('spin', dict(n_steps=2, dt=2.5, Q_in=q, Q_0Ik=qi, reset_counters=False, H_bc=hb, **ctl))}
    if net.kw.get('mobile_elements'):
        c['spr'] = ('spin', dict(n_steps=3, dt=4., H_bc=z + .15, reposition_junctions=True))
    for x in ctl:
        d = dict(c['all'][1])
        d.pop(x)
        c['no' + x] = ('step', d)
    return c


def cp(kw):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}


def written_out(m, net, kw):
    """the same call with every default spelled out"""
    kw = cp(kw)
    kw.setdefault('dt', float(net.kw.get('dt', 60)))
    kw.setdefault('Q_in', np.zeros(net.M))
    kw.setdefault('Q_0Ik', np.zeros(m._I.size))
    kw.setdefault('H_bc', m.H_j.copy())
    for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
        if rows:
            kw.setdefault(key, np.zeros(len(rows)))
    return kw


def job(net, depth, first):
    rep = core.Report()
    c = calls(net)
    m, tw = net.build(), net.build()
    case0 = dict(net=net.name, options={k: str(v) for k, v in net.kw.items()})
    if m.t != 0 or m.iter_count != 0:
        rep.violate('a new model starts at t=%s with %s steps taken' % (m.t, m.iter_count), case0)

    def one(m, tw, name, case):
        kind, kw = c[name]
        t0, n0 = m.t, m.iter_count
        if kind == 'step':
            rep.count('steps')
            w = written_out(tw, net, kw)
            before = core.snap(m)
            m.step(**cp(kw))
            dt, N = w['dt'], kw.get('num_iter', 1)
            if abs(m.t - (t0 + dt)) > 1e-9 * max(1., abs(t0 + dt)):
                rep.violate('step of %s s from t=%s left the clock at %s' % (dt, t0, m.t), case)
            if m.iter_count != n0 + 1:
                rep.violate('step counted %s times' % (m.iter_count - n0), case)
            if not 1 <= m.iter_elapsed <= N:
                rep.violate('%s iterations, at most %s allowed' % (m.iter_elapsed, N), case)
            if 'H_bc' not in kw and m.bc.any() and not core.close(m.H_j[m.bc], before["H_j"][m.bc], 1e-9, 1e-9):
                rep.violate('boundary heads moved from %s to %s though none were given' % (
                    before['H_j'][m.bc], m.H_j[m.bc]), case)
            if N == 1:
                tw.step(**w)
            else:
                # the same iterations one by one: every pass starts from the state before the step
                rep.count('iterated')
                end = core.snap(m)
                prev = None
                for n in range(1, m.iter_elapsed + 1):
                    core.restore(tw, before)
                    tw.step(**dict(cp(w), num_iter=n, head_tol=0.))
                    if n < m.iter_elapsed:
                        prev = tw.H_j.copy()
                tol = kw.get('head_tol', .0015)
                if m.iter_elapsed < N and m.iter_elapsed > 1:
                    rep.count('converged')
                    if not (np.abs(m.H_j - prev) < tol).all():
                        rep.violate('iteration stopped after %s of %s passes, heads still moved by %s (tolerance %s)' % (
                            m.iter_elapsed, N, np.abs(m.H_j - prev).max(), tol), case)
                if m.iter_elapsed == 1 and not (np.abs(m.H_j - before['H_j']) < tol).all():
                    rep.violate('no iteration although heads moved by %s' % np.abs(m.H_j - before['H_j']).max(), case)
                if m.iter_elapsed == N and N > 2:
                    # it must not have gone on after convergence
                    core.restore(tw, before)
                    tw.step(**dict(cp(w), num_iter=N - 1, head_tol=0.))
                    h1 = tw.H_j.copy()
                    core.restore(tw, before)
                    tw.step(**dict(cp(w), num_iter=N - 2, head_tol=0.))
                    if N > 3 and (np.abs(h1 - tw.H_j) < tol * .999).all():
                        rep.violate('iteration went on after heads settled to %s' % np.abs(h1 - tw.H_j).max(), case)
                    core.restore(tw, before)
                    tw.step(**dict(cp(w), num_iter=N, head_tol=0.))
            bad = same(obs(m), obs(tw))
            if bad:
                rep.violate('%s of %s is %s, with every default spelled out %s' % (bad, name, obs(m)[bad], obs(tw)[bad]), case)
                return False
        else:
            rep.count('spinups')
            kw = cp(kw)
            m.spinup(**cp(kw))
            n, dt = kw.pop('n_steps'), kw.pop('dt')
            reset, rj = kw.pop('reset_counters', True), kw.pop('reposition_junctions', False)
            kw.setdefault('Q_in', np.full(net.M, 1e-6))
            kw.setdefault('Q_0Ik', np.full(m._I.size, 1e-6))
            for _ in range(n):
                tw.step(dt=dt, **cp(kw))
                if rj:
                    tw.reposition_junctions()
            want_t, want_n = (0., 0) if reset else (t0 + n * dt, n0 + n)
            if abs(m.t - want_t) > 1e-9 * max(1., want_t) or m.iter_count != want_n:
                rep.violate('after the warm-up the clock is at %s and the counter at %s, expected %s and %s' % (
                    m.t, m.iter_count, want_t, want_n), case)
            tw.t, tw.iter_count = m.t, m.iter_count
            bad = same(obs(m), obs(tw))
            if bad:
                rep.violate('%s after the warm-up is %s, after the same steps %s' % (bad, obs(m)[bad], obs(tw)[bad]), case)
                return False
        return True

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        a0, b0 = core.snap(m), core.snap(tw)
        for name in (c if hist or first is None else [first]):
            if name not in c:
                continue
            core.restore(m, a0)
            core.restore(tw, b0)
            h = hist + (name,)
            rep.transitions += 1
            if one(m, tw, name, dict(case0, ops=h)):
                rep.state(*[getattr(m, k) for k in KEYS], [m.t, m.iter_count])
                rec(h)
        core.restore(m, a0)
        core.restore(tw, b0)
    rec(())
    rep.sample(dict(case0, depth=depth, first=first))
    return rep


def run(tier, seed):
    depth = 3 if tier == 'quick' else 4
    return core.run_jobs(job, [(n, depth, f) for n in catalogue() for f in calls(n)])
