"""P01: water balance of every superjunction, every step."""
import numpy as np
from mc import hydro
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
TOL = 1e-6
FLOOR = {'quick': {'balances': 20000}, 'thorough': {'balances': 200000}}
ASSUMPTIONS = ['steps in which any superjunction head is clamped at its physical range are excluded (water is then spilled or supplied by definition)',
               'storage area is taken at the start of the step, as documented for the linearised balance',
               'network catalogue of mc/nets.py; action alphabet of 6 per network; all sequences to the depth bound']


def components(net):
    par = list(range(net.M))
    def find(a):
        while par[a] != a:
            a = par[a]
        return a
    for rows in (net.orifices, net.weirs, net.pumps):
        for r in rows:
            par[find(r['sj_0'])] = find(r['sj_1'])
    comp = {}
    for j in range(net.M):
        comp.setdefault(find(j), []).append(j)
    return list(comp.values())


def judge(rep, s, lay, hist):
    if s.head_clamped.any() or s.bc_clamped.any():
        rep.count('clamped_steps')
        return
    r, sc = hydro.superjunction_residual(s)
    for comp in components(lay.net):
        if any(s.bc[j] for j in comp):
            if len(comp) == 1:
                continue
            continue
        rep.count('balances')
        tot, scale = r[comp].sum(), sc[comp].sum()
        if not abs(tot) <= TOL * scale:
            rep.violate('imbalance %.3e m3/s at superjunction(s) %s (flow scale %.3e)' % (tot, comp, scale),
                        dict(net=lay.net.name, options=lay.net.kw, history=hist),
                        H_before=s.H0, H_after=s.H1, Q_uk=s.qu1, Q_dk=s.qd1)


def run(tier, seed):
    rep = hb.run_all(tier, judge)
    rep.merge(hb.run_all(tier, judge, depth=2 if tier == 'quick' else 4, num_iter=4))
    return rep
