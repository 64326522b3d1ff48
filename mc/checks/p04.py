"""P04: conduit inlets and outlets follow the documented end relation, every step."""
from mc import hydro
from mc.checks import _hydrobase as hb

LEVEL = 'model_checking'
TOL = 1e-6
FLOOR = {'quick': {'iterated': 5000, 'ends': 80000}, 'thorough': {'ends': 800000}}
ASSUMPTIONS = ['ends clamped to the minimum depth are only required to be at the minimum and not above the relation',
               'flow area at the end is the one the model reports for the state before the step']


def judge(rep, s, lay, hist):
    mind = lay.net.kw.get('min_depth', 1e-5)
    for K in lay.K:
        k = K['k']
        h = s.h1[K['I']]
        for end, hh, (r, sc) in zip(('inlet', 'outlet'), (h[0], h[-1]), hydro.end_residuals(s, K)):
            if hh <= mind * (1 + 1e-9):
                rep.count('clamped_ends')
                if r >= -TOL * sc:      # relation asks for less than the minimum: clamp is right
                    continue
            elif hh >= K['hmax'] * (1 - 1e-9):
                rep.count('clamped_ends')
                continue
            else:
                rep.count('ends')
                if abs(r) <= TOL * sc:
                    continue
            rep.violate('%s of conduit %d: depth %.6g differs from the end relation by %.3e' % (end, k, hh, r),
                        dict(net=lay.net.name, options=lay.net.kw, history=hist))


def run(tier, seed):
    rep = hb.run_all(tier, judge)
    # iterated steps
    rep.merge(hb.run_all(tier, judge, depth=3 if tier == 'quick' else 5, num_iter=3))
    return rep
