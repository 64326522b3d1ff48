"""P08: a saved state restores completely; saving takes a snapshot."""
import copy
import numpy as np
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'loads': 3000, 'returns': 1500}, 'thorough': {'loads': 30000, 'returns': 30000}}
ASSUMPTIONS = ['the counter of steps taken and fixed tables are not part of a state',
               'comparison to 1e-9 relative (the same operations are repeated, so rounding is the same)']

KEYS = ('H_j', 'h_Ik', 'Q_ik', 'Q_uk', 'Q_dk', 'x_Ik')


def catalogue():
    out = [nets.tee(), nets.loop(), nets.flipped(), nets.drop_net(), nets.flat(inertial_damping=True).copy('flat-damped'),
           nets.control(which='o'), nets.control(which='w'), nets.control(which='p'), nets.control(which='owp'),
           nets.tee(method='f').copy('tee-f'), nets.loop(method='lsq').copy('loop-lsq'), nets.irregular(),
           nets.control(which='owp', auto_permute=True).copy('control-permuted'), nets.outfall()]
    n = nets.tee().copy('tee-tabular')
    for r in n.sj:
        r.update(storage='tabular', table='t')
    n.storages = {'t': dict(h=np.array([0., 1., 3.]), A=np.array([4., 9., 30.]))}
    out.append(n)
    # mobile junctions: every step is followed by repositioning
    n = nets.chain(('rect_open', 'trapezoidal'), drop=.6, h=.3, internal_links=4, mobile_elements=True).copy('chain-mobile')
    n.sl[1].update(dx=25.)
    out.append(n)
    out.append(n.copy('chain-mobile-3', internal_links=3))
    return out


def observe(m):
    d = {k: np.array(getattr(m, k), float) for k in KEYS}
    for k in ('Q_o', 'Q_w', 'Q_p'):
        if getattr(m, 'n' + k[1:]):
            d[k] = np.array(getattr(m, k), float)
    if m.mobile_elements:
        d['z_inv_Ik'] = np.array(m._z_inv_Ik)
        d['dx_ik'] = np.array(m._dx_ik)
    d['t'] = np.array([m.t])
    return d


GEOM = ('A_ik', 'B_ik', 'R_ik', 'A_uk', 'A_dk', 'A_sj')


def same(a, b):
    for k in a:
        if not core.close(a[k], b[k], 1e-9, 1e-11):
            return k
    return None


def acts_of(net):
    M = net.M
    q = np.zeros(M)
    q[0] = .4
    c1, c2 = {}, {}
    for rows, key in ((net.orifices, 'u_o'), (net.weirs, 'u_w'), (net.pumps, 'u_p')):
        if rows:
            c1[key] = np.linspace(1., .4, len(rows))
            c2[key] = np.linspace(.2, .8, len(rows))
    if net.kw.get('mobile_elements'):
        H = np.array([r['z_inv'] for r in net.sj])
        return {'a': dict(Q_in=q * .2, H_bc=H + .15, dt=8.), 'b': dict(Q_in=-.05 * q[::-1], H_bc=H + .5, dt=25.),
                'i': dict(Q_in=q[::-1] * .1, H_bc=H + .33, dt=15., num_iter=4, head_tol=1e-7)}
    return {'a': dict(Q_in=q, dt=8., **c1), 'b': dict(Q_in=-.1 * q[::-1], dt=25., **c2),
            'i': dict(Q_in=q[::-1] * 2, dt=15., num_iter=4, head_tol=1e-7, **c1)}


def step(m, a):
    m.step(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()})
    if m.mobile_elements:
        m.reposition_junctions()


def job(net, depth, warm):
    """ops: steps a,b,i ; L = load_state() (to before the last step) ; S / R = keep / return to an own copy"""
    rep = core.Report()
    acts = acts_of(net)
    m = net.build()
    for w in warm:
        step(m, acts[w])
    # the effective history -> observation, from runs that never take a detour
    truth = {}
    ref = net.build()
    for w in warm:
        step(ref, acts[w])
    base = core.snap(ref)

    def expect(h):
        if h not in truth:
            core.restore(ref, base)
            for a in h:
                step(ref, acts[a])
            truth[h] = observe(ref)
        return truth[h]

    def rec(hist, eff, prev, kept):
        """eff: effective history; prev: effective history before the last step (None: nothing to load)"""
        if len(hist) == depth:
            rep.traces += 1
            return
        here = core.snap(m)
        ops = list(acts) + (['L'] if prev is not None else []) + ['S'] + (['R'] if kept is not None else [])
        for op in ops:
            core.restore(m, here)
            rep.transitions += 1
            h = hist + (op,)
            case = dict(net=net.name, options=net.kw, warm=warm, ops=h)
            if op in acts:
                step(m, acts[op])
                e, p, k = eff + (op,), eff, kept
            elif op == 'L':
                m.load_state()
                e, p, k = prev, prev, kept
                rep.count('loads')
            elif op == 'S':
                m.save_state()
                k = (copy.deepcopy(m.states), eff)
                e, p = eff, eff
            else:
                given = copy.deepcopy(kept[0])
                m.load_state(given)
                e, p, k = kept[1], None, kept
                rep.count('returns')
            want = expect(e)
            got = observe(m)
            rep.state(*[got[x] for x in KEYS])
            bad = same(want, got)
            if bad:
                rep.violate('%s differs from the run without the detour: %s, expected %s' % (bad, got[bad], want[bad]), case)
                continue
            if op == 'R':
                # the state handed over must not become part of the model
                frozen = copy.deepcopy(given)
                mark = core.snap(m)
                step(m, acts['b'])
                for x in frozen:
                    if not np.array_equal(frozen[x], given[x]):
                        rep.violate('a step after load_state changed the state that was loaded (%s)' % x, case)
                core.restore(m, mark)
            if op == 'S':
                frozen = copy.deepcopy(m.states)
                live = m.states
                mark = core.snap(m)
                m.H_j += .1
                m.h_Ik *= 1.5
                m.Q_ik += 1.
                for x in frozen:
                    if not np.array_equal(frozen[x], live[x]):
                        rep.violate('the saved state follows the model (%s)' % x, case)
                core.restore(m, mark)
            rec(h, e, p, k)
        core.restore(m, here)

    rec((), (), None, None)
    rep.sample(dict(net=net.name, warm=warm, depth=depth))
    return rep


def partial(net):
    """exclude_states leaves exactly the named entries alone"""
    rep = core.Report()
    acts = acts_of(net)
    m = net.build()
    step(m, acts['a'])
    for excl in [set()] + [{k} for k in KEYS] + [{'t'}, {'t', 'H_j'}]:
        base = core.snap(m)
        b0 = observe(m)
        step(m, acts['b'])
        b1 = observe(m)
        m.load_state(exclude_states=excl)
        got = observe(m)
        for k in got:
            want = b1[k] if k in excl else b0[k]
            if not core.close(got[k], want, 1e-12, 1e-13):
                rep.violate('load_state(exclude_states=%s): %s is %s, expected %s' % (sorted(excl), k, got[k], want),
                            dict(net=net.name))
        rep.transitions += 1
        core.restore(m, base)
    # geometry belongs to the restored state
    g = net.build()
    step(g, acts['a'])
    step(g, acts['b'])
    g.load_state()
    got = {k: np.array(getattr(g, k)) for k in GEOM}
    base = core.snap(g)
    step(g, acts['a'])        # reported geometry after a step is that of the state before it
    want = {k: np.array(getattr(g, k)) for k in GEOM}
    bad = same(want, got)
    if bad:
        rep.violate('%s after load_state is %s, the restored state has %s' % (bad, got[bad], want[bad]), dict(net=net.name))
    rep.traces += 1
    return rep


def run(tier, seed):
    depth = 4 if tier == 'quick' else 6
    warms = [(), ('a', 'b')]
    rep = core.run_jobs(job, [(n, depth, w) for n in catalogue() for w in warms])
    rep.merge(core.run_jobs(partial, [(n,) for n in catalogue()]))
    return rep
