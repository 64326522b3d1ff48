"""Independent one-step reference for Green-Ampt infiltration of one soil element, used
by P17 and P18.  Exact solution by bisection; the state is a plain dict of floats."""
import math
import numpy as np
import pandas as pd

# one row per soil: psi_f [m], Ks [m/s], theta_s, theta_i, A_s
SOILS = {
    'sand':  dict(psi_f=0.049, Ks=3.3e-5, theta_s=0.437, theta_i=0.06, A_s=100.),
    'loam':  dict(psi_f=0.089, Ks=3.7e-6, theta_s=0.463, theta_i=0.20, A_s=217.),
    'clay':  dict(psi_f=0.316, Ks=8.3e-8, theta_s=0.475, theta_i=0.30, A_s=50.),
    'silt':  dict(psi_f=0.167, Ks=1.9e-6, theta_s=0.501, theta_i=0.48, A_s=1000.),
    'wet':   dict(psi_f=0.110, Ks=6.1e-6, theta_s=0.453, theta_i=0.453, A_s=10.),
}


def table(names):
    return pd.DataFrame([SOILS[n] for n in names], index=range(len(names)))


STATE = ('d', 'F', 'f', 'T', 'theta_d', 'theta_du', 'is_saturated')


def state(m, n):
    s = {k: float(np.asarray(getattr(m, k))[n]) for k in STATE}
    s['is_saturated'] = bool(s['is_saturated'])
    return s


class Soil:
    def __init__(self, psi_f, Ks, theta_s, theta_i, A_s):
        self.psi, self.K, self.A = psi_f, Ks, A_s
        self.dmax = theta_s - theta_i
        k = Ks / 0.0254 * 3600             # in/hr
        self.Lu = 4 * math.sqrt(k) * 0.0254
        self.kr = math.sqrt(k) / 75 / 3600
        self.Tr = 4.5 / math.sqrt(k) * 3600

    def ponded(self, F1, dt, td):
        """cumulative depth after dt of unlimited supply, starting from F1"""
        a = self.psi * td
        if a <= 0:
            return F1 + self.K * dt

        def g(F):
            return F - F1 - a * math.log((F + a) / (F1 + a)) - self.K * dt
        lo, hi = F1, F1 + self.K * dt + a + 1e-6
        while g(hi) < 0:
            hi = F1 + 2 * (hi - F1)
        for _ in range(200):
            mid = (lo + hi) / 2
            if mid <= lo or mid >= hi:
                break
            if g(mid) < 0:
                lo = mid
            else:
                hi = mid
        return (lo + hi) / 2

    def rate(self, F, td):
        """infiltration capacity at cumulative depth F"""
        a = self.psi * td
        return math.inf if F <= 0 and a > 0 else self.K * (1 + (a / F if a > 0 else 0))

    def step(self, s, dt, i):
        """returns (next state, runoff, case, slack); slack: how far the branch decisions
        were from the other side (relative), to tell when rounding may decide"""
        s = dict(s)
        ia = i + s['d'] / dt
        s['T'] -= dt
        slack = math.inf
        F, td = s['F'], s['theta_d']

        def take(dF):
            s['F'] = F + dF
            s['f'] = dF / dt
            s['theta_du'] = min(max(s['theta_du'] - dF / self.Lu, 0.), self.dmax)

        def limited():
            cap = self.ponded(F, dt, td) - F
            if cap > ia * dt:
                s['is_saturated'] = False
                take(ia * dt)
            else:
                s['is_saturated'] = True
                take(cap)
            return abs(cap - ia * dt)
        if s['is_saturated']:
            case = 'saturated'
            s['T'] = self.Tr
            slack = limited()
        elif ia == 0:
            case = 'dry'
            s['f'] = 0.
            dth = self.kr * self.dmax * dt
            s['theta_du'] = min(s['theta_du'] + dth, self.dmax)
            s['F'] = max(F - dth * self.Lu, 0.)
            if s['T'] <= 0:
                case = 'new event'
                s['theta_d'], s['F'] = s['theta_du'], 0.
            slack = abs(s['T'])
        elif ia <= self.K:
            case = 'drizzle'
            take(ia * dt)
            slack = (self.K - ia) * dt if ia != self.K else math.inf
        else:
            s['T'] = self.Tr
            Fs = self.K * self.psi * td / (ia - self.K)
            slack = min(abs(F - Fs), abs(F + ia * dt - Fs), (ia - self.K) * dt)
            if F >= Fs:
                case = 'ponded'
                s['is_saturated'] = True
                limited()
            elif F + ia * dt < Fs:
                case = 'absorbed'
                take(ia * dt)
            else:
                case = 'ponds within the step'
                s['is_saturated'] = True
                take(self.ponded(Fs, dt - (Fs - F) / ia, td) - F)
        f = s['f']
        s['d'] = max(s['d'] + (i - f) * dt, 0.)
        return s, max(i - f, 0.) * self.A, case, slack
