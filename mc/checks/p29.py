"""P29: repositioning of mobile junctions keeps every conduit grid valid.

All sequences (to a depth) of [downstream-head profile x subset of conduits to reposition] on one, two and
three conduits in every table order, against an independent per-conduit reference; plus sequences of real
steps and repositioning."""
import itertools
import numpy as np
from mc import core, nets

LEVEL = 'model_checking'
FLOOR = {'quick': {'moves': 5000, 'shifts': 1000, 'coincident': 200, 'stepped': 1000},
         'thorough': {'moves': 50000, 'shifts': 10000, 'coincident': 2000, 'stepped': 10000}}
ASSUMPTIONS = ['conduits have a uniform bed slope (the only form mobile elements are generated for)',
               'a mobile junction asked to sit on a fixed one may go anywhere that keeps the grid valid']
# fraction of the bed fall at which the downstream surface meets the bed; outside (0,1): out of range
FRACS = [-.3, .1, .3, .5, .62, .9, 1.4, 'fixed']
CONDUITS = [dict(dx=40., z=(1.2, .4)), dict(dx=75., z=(.9, .1)), dict(dx=55., z=(.7, .65))]


def net(order, nl, ends):
    """conduits CONDUITS[order[i]] as separate two-junction systems, listed in the given order"""
    sj, sl = [], []
    for c in order:
        d = CONDUITS[c]
        b = len(sj)
        sj += [dict(z_inv=d['z'][0], h_0=.6, c=8.), dict(z_inv=d['z'][1], h_0=.6, c=6., bc=True)]
        sl.append(nets.link(b, b + 1, ('rect_open', 'trapezoidal', 'circular')[c], dx=d['dx'], h_0=.4, Q_0=.01 * (c + 1),
                            A_s=.05, **(dict(dx_uk=6. + c, dx_dk=4.) if ends else {})))
    return nets.Net('mobile-%s-%d%s' % (order, nl, '-ends' if ends else ''), sj, sl, internal_links=nl,
                    mobile_elements=True)


class Conduit:
    """reference: positions, depths, flows of one conduit with one mobile junction"""
    def __init__(self, d, nl, ends):
        self.L = d['dx']
        uk = ends[0] if ends else 0.
        dk = ends[1] if ends else 0.
        self.x0 = uk
        self.slope = (d['z'][0] - d['z'][1]) / (self.L + uk + dk)
        self.zu = d['z'][0]
        self.fixed = [self.x0 + self.L * i / (nl - 1) for i in range(nl)]
        # centre, half a cell aside when a fixed junction sits there
        self.home = self.x0 + self.L / 2 + (self.L / nl / 2 if (nl + 1) % 2 == 0 else 0.)
        self.nl = nl

    def z(self, x):
        return self.zu - self.slope * np.asarray(x, float)

    def target(self, Hd):
        """(where the mobile junction belongs, or None when it would coincide with a fixed one)"""
        zt, zb = self.z(self.fixed[0]), self.z(self.fixed[-1])
        if zb < Hd < zt:
            x = (self.zu - Hd) / self.slope
            if min(abs(x - f) for f in self.fixed) < 1e-5 * self.L:
                return None
            return x
        return self.home

    def move(self, x, h, Q, Hd):
        """old grid (x, h, Q) -> expected new (h, Q) given the new positions"""
        def after(xn):
            hn = [np.interp(p, x, h) for p in xn]
            return np.array(hn)
        return after


def split(a, NK):
    return np.asarray(a, float).reshape(NK, -1)


def judge(rep, refs, before, m, mask, case):
    NK = len(refs)
    x, z, dx = split(m.x_Ik, NK), split(m._z_inv_Ik, NK), split(m._dx_ik, NK)
    h, Q = split(m.h_Ik, NK), split(m.Q_ik, NK)
    xb, hb, Qb = [split(b, NK) for b in before]
    ok = True

    def bad(what):
        nonlocal ok
        ok = False
        rep.violate(what, case)
    for k, r in enumerate(refs):
        if not np.isfinite(np.concatenate([x[k], z[k], dx[k], h[k], Q[k]])).all():
            bad('conduit %d: grid or state not finite: x=%s dx=%s' % (k, x[k], dx[k]))
            continue
        if not (np.diff(x[k]) > 0).all():
            bad('conduit %d: junctions not strictly ordered: %s' % (k, x[k]))
            continue
        if not (dx[k] > 0).all() or abs(dx[k].sum() - r.L) > 1e-9 * r.L:
            bad('conduit %d: element lengths %s, conduit length %s' % (k, dx[k], r.L))
            continue
        if not core.close(np.diff(x[k]), dx[k], 1e-10, 1e-10):
            bad('conduit %d: element lengths %s do not match positions %s' % (k, dx[k], x[k]))
            continue
        if abs(x[k][0] - r.fixed[0]) > 1e-9 or abs(x[k][-1] - r.fixed[-1]) > 1e-9:
            bad('conduit %d: ends moved to %s, %s' % (k, x[k][0], x[k][-1]))
            continue
        if not core.close(z[k], r.z(x[k]), 1e-9, 1e-9):
            bad('conduit %d: inverts %s are off the profile %s' % (k, z[k], r.z(x[k])))
            continue
        if not mask[k]:
            if not (np.array_equal(x[k], xb[k]) and np.array_equal(h[k], hb[k]) and np.array_equal(Q[k], Qb[k])):
                bad('conduit %d changed although it was not to be repositioned' % k)
            continue
        rep.count('moves')
        t = r.target(m.H_j[2 * k + 1])
        own = [p for p in x[k] if min(abs(p - f) for f in r.fixed) > 1e-9]
        if len(own) != 1:
            bad('conduit %d: fixed junctions moved: %s' % (k, x[k]))
            continue
        if t is None:
            rep.count('coincident')
            # near a fixed junction or back at the centre; the depth must still be that of the old profile
            gap = (r.L / (r.nl - 1)) / 20.
            if min(abs(own[0] - f) for f in r.fixed) > gap and abs(own[0] - r.home) > 1e-6:
                bad('conduit %d: the mobile junction went to %s' % (k, own[0]))
                continue
        elif abs(own[0] - t) > 1e-6 * r.L:
            bad('conduit %d: the mobile junction is at %s, the surface meets the bed at %s' % (k, own[0], t))
            continue
        want = np.interp(x[k], xb[k], hb[k])
        if not core.close(h[k], want, 1e-7, 1e-7):
            bad('conduit %d: depths %s, the old profile has %s there' % (k, h[k], want))
            continue
        # flow: an element inside an old one keeps its flow; one spanning two old ones takes a value between
        mid = .5 * (x[k][1:] + x[k][:-1])
        for i in range(r.nl):
            lo = max(np.searchsorted(xb[k], x[k][i], 'right') - 1, 0)
            hi = min(np.searchsorted(xb[k], x[k][i + 1], 'left') - 1, r.nl - 1)
            # positions equal up to rounding
            if lo + 1 < r.nl and abs(xb[k][lo + 1] - x[k][i]) < 1e-9:
                lo += 1
            if hi > 0 and abs(xb[k][hi] - x[k][i + 1]) < 1e-9:
                hi -= 1
            over = Qb[k][lo:hi + 1]
            if len(over) and not (over.min() - 1e-9 <= Q[k][i] <= over.max() + 1e-9):
                bad('conduit %d: element %d (%.3f-%.3f) carries %s; the old elements there carried %s'
                    % (k, i, x[k][i], x[k][i + 1], Q[k][i], over))
                break
        if not np.array_equal(np.searchsorted(x[k], own[0]), np.argmin([abs(p - own[0]) for p in xb[k]])):
            rep.count('shifts')
    return ok


def head_for(r, f, k):
    if f == 'fixed':      # exactly on an interior fixed junction (or, with two, on the upstream end)
        i = 1 + k % max(r.nl - 2, 1) if r.nl > 2 else 0
        return float(r.z(r.fixed[i]))
    zt, zb = float(r.z(r.fixed[0])), float(r.z(r.fixed[-1]))
    return zt - f * (zt - zb)


def pure(order, nl, ends, depth):
    """repositioning alone, on distinct depths and flows so that a mix-up shows"""
    rep = core.Report()
    n = net(order, nl, ends)
    m = n.build()
    NK = len(order)
    refs = [Conduit(CONDUITS[c], nl, (6. + c, 4.) if ends else None) for c in order]
    # every conduit the same head position, or shifted positions per conduit; masks
    masks = [None] + [tuple(b) for b in itertools.product([True, False], repeat=NK) if any(b) and not all(b)][:4]
    acts = [(i, s, mk) for i in range(len(FRACS)) for s in ((0, 3) if NK > 1 else (0,)) for mk in masks]
    if NK > 1:
        acts = [a for j, a in enumerate(acts) if j % 3 != 1 or a[2] is None]
    rng = np.arange(m._I.size, dtype=float)

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        base = core.snap(m)
        for a in acts:
            core.restore(m, base)
            i, s, mk = a
            for k, r in enumerate(refs):
                m.H_j[2 * k + 1] = head_for(r, FRACS[(i + s * k) % len(FRACS)], k)
            # distinct values everywhere, different after every move
            m.h_Ik = .2 + .07 * ((rng * 5 + 3 * len(hist)) % 11)
            m.Q_ik = .1 + .05 * ((np.arange(m._ik.size) * 7 + 2 * len(hist)) % 13)
            before = (m.x_Ik.copy(), m.h_Ik.copy(), m.Q_ik.copy())
            case = dict(net=n.name, moves=hist + (a,))
            if mk is None:
                m.reposition_junctions()
            else:
                m.reposition_junctions(reposition=np.array(mk))
            rep.transitions += 1
            rep.state(m.x_Ik, m.h_Ik, m.Q_ik)
            if judge(rep, refs, before, m, mk or (True,) * NK, case):
                rec(hist + (a,))
        core.restore(m, base)
    rec(())
    rep.sample(dict(net=n.name, depth=depth, actions=len(acts)))
    return rep


def alone(order, nl, ends, depth):
    """stepped: conduits in one table behave as each does alone, whatever the order; grid valid throughout"""
    rep = core.Report()
    n = net(order, nl, ends)
    NK = len(order)
    m = n.build()
    singles = [net((c,), nl, ends).build() for c in order]
    refs = [Conduit(CONDUITS[c], nl, (6. + c, 4.) if ends else None) for c in order]
    start = core.snap(m)
    s_start = [core.snap(s) for s in singles]
    names = ['low', 'mid', 'high', 'drown', 'still', 'none']
    lev = dict(low=.85, mid=.45, high=.2, drown=-.6, still=-.6)

    def do(model, ks, a):
        H = model.H_j.copy()
        q = np.zeros(model.M)
        for p, k in enumerate(ks):
            if a != 'none':
                H[2 * p + 1] = head_for(refs[k], lev[a], k)
            q[2 * p] = 0. if a == 'still' else .03
        model.step(H_bc=H, Q_in=q, dt=4.)
        before = (model.x_Ik.copy(), model.h_Ik.copy(), model.Q_ik.copy())
        if a != 'none':
            model.reposition_junctions()
        return before

    def rec(hist):
        if len(hist) == depth:
            rep.traces += 1
            return
        base = core.snap(m)
        sb = [core.snap(s) for s in singles]
        for a in names:
            core.restore(m, base)
            for s, b in zip(singles, sb):
                core.restore(s, b)
            case = dict(net=n.name, ops=hist + (a,))
            before = do(m, range(NK), a)
            rep.transitions += 1
            rep.count('stepped')
            rep.state(m.x_Ik, m.h_Ik, m.Q_ik, m.H_j)
            good = judge(rep, refs, before, m, ((True,) if a != 'none' else (False,)) * NK, case)
            for k, s in enumerate(singles):
                do(s, [k], a)
                for q in ('x_Ik', 'h_Ik', 'Q_ik'):
                    if not core.close(split(getattr(m, q), NK)[k], getattr(s, q), 1e-7, 1e-9):
                        rep.violate('conduit %d: %s is %s in the network, %s alone' % (
                            k, q, split(getattr(m, q), NK)[k], getattr(s, q)), case)
                        good = False
                        break
                if abs(m.H_j[2 * k] - s.H_j[0]) > 1e-7:
                    rep.violate('conduit %d: upstream head %s in the network, %s alone' % (k, m.H_j[2 * k], s.H_j[0]), case)
                    good = False
            if good:
                rec(hist + (a,))
        core.restore(m, base)
        for s, b in zip(singles, sb):
            core.restore(s, b)
    rec(())
    return rep


def dispatch(kind, *a):
    return {'pure': pure, 'alone': alone}[kind](*a)


def run(tier, seed):
    deep = tier != 'quick'
    orders = [p for r in (1, 2, 3) for p in itertools.permutations(range(3), r)]
    jobs = []
    for o in orders:
        for nl in (2, 3, 4, 5, 6):
            for ends in (False, True):
                d = (3 if deep else 2) if len(o) < 3 else 2
                if len(o) == 1:
                    d = 4 if deep else 3
                if not deep and len(o) == 3 and nl in (3, 6):
                    continue
                jobs.append(('pure', o, nl, ends, d))
                if nl in (3, 4, 5):
                    jobs.append(('alone', o, nl, ends, 5 if deep else 3))
    jobs.sort(key=lambda j: -len(j[1]))
    return core.run_jobs(dispatch, jobs)
