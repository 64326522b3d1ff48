"""P03: momentum balance of every link, every step."""
from mc import hydro
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
TOL = 1e-5
FLOOR = {'quick': {'iterated': 5000, 'conduit_balances': 40000}, 'thorough': {'conduit_balances': 400000}}
ASSUMPTIONS = ['conduits with a depth clamped at minimum or maximum in the step are excluded',
               'area and hydraulic radius are the ones the model reports for the state before the step (checked by P11)']


def judge(rep, s, lay, hist):
    for K in lay.K:
        if s.k_clamped[K['k']]:
            rep.count('clamped_conduits')
            continue
        rep.count('conduit_balances')
        r, sc = hydro.momentum_residuals(s, K)
        bad = abs(r) > TOL * sc + 3e-7
        if bad.any():
            a = int(bad.argmax())
            rep.violate('link %d of conduit %d violates the momentum balance by %.3e (scale %.3e)'
                        % (a, K['k'], r[a], sc[a]), dict(net=lay.net.name, options=lay.net.kw, history=hist),
                        residual=r)


def run(tier, seed):
    rep = hb.run_all(tier, judge)
    # iterated steps
    rep.merge(hb.run_all(tier, judge, depth=3 if tier == 'quick' else 5, num_iter=3))
    return rep
