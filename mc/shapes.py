"""Reference cross-sections, written from the documented figures only.

Every figure is given by its surface width at a depth (`width`); area is the integral
of the width (quadrature), the perimeter a separate arc length.  Nothing here calls
the code under test."""
import numpy as np

_x, _w = np.polynomial.legendre.leggauss(80)
_CACHE = {}


def integral(f, Y):
    """integral of f over [0, Y]; the cosine substitution removes square-root ends"""
    if Y <= 0:
        return 0.
    t = (_x + 1) * np.pi / 2
    y = Y * (1 - np.cos(t)) / 2
    return float(np.sum(_w * f(y) * Y * np.sin(t) / 2) * np.pi / 2)


class Shape:
    open = True        # no soffit

    def __init__(self, **g):
        self.g = g

    def A(self, y):
        key = (type(self), tuple(sorted(self.g.items())), y)
        if key not in _CACHE:
            if len(_CACHE) > 300000:
                _CACHE.clear()
            _CACHE[key] = self.area(y)
        return _CACHE[key]

    def area(self, y):
        return integral(self.width, min(max(y, 0.), self.full))

    def Pe(self, y):
        return self.peri(min(max(y, 0.), self.full))

    def B(self, y):
        y = max(y, 0.)
        if y >= self.full:
            return self.top()
        return float(self.width(np.array([y]))[0])

    def top(self):
        return float(self.width(np.array([self.full]))[0])

    def R(self, y):
        p = self.Pe(y)
        return self.A(y) / p if p > 0 else 0.


class Circular(Shape):
    open = False

    def __init__(self, g1, g2=0., **_):
        super().__init__(g1=g1, g2=g2)
        self.full = g1

    def width(self, y):
        return 2 * np.sqrt(np.maximum(y * (self.full - y), 0.))

    def area(self, y):
        if y >= self.full:
            return np.pi * self.full**2 / 4
        if y > .5 * self.full:      # upper half from the complement: smooth integrand
            return np.pi * self.full**2 / 4 - integral(self.width, self.full - y)
        return super().area(y)

    def peri(self, y):
        # chord to arc by the half-angle: tan(phi/4) = ... uses the chord half-width
        s = np.sqrt(y / self.full)
        return 2 * self.full * np.arcsin(min(s, 1.))

    def top(self):
        return self.g['g2'] * self.full


class RectClosed(Shape):
    open = False

    def __init__(self, g1, g2, g3=0., **_):
        super().__init__(g1=g1, g2=g2, g3=g3)
        self.full = g1

    def width(self, y):
        return np.full(np.shape(y), self.g['g2'])

    def peri(self, y):          # bed and walls
        return self.g['g2'] + 2 * y

    def top(self):
        return self.g['g3'] * self.g['g2']


class RectOpen(RectClosed):
    open = True

    def __init__(self, g1, g2, **_):
        super().__init__(g1, g2)

    def top(self):
        return self.g['g2']


class Triangular(Shape):
    def __init__(self, g1, g2, **_):
        super().__init__(g1=g1, g2=g2)
        self.full = g1

    def width(self, y):
        return 2 * self.g['g2'] * np.asarray(y)

    def peri(self, y):
        return 2 * np.hypot(y, self.g['g2'] * y)


class Trapezoidal(Shape):
    def __init__(self, g1, g2, g3, **_):
        super().__init__(g1=g1, g2=g2, g3=g3)
        self.full = g1

    def width(self, y):
        return self.g['g2'] + 2 * self.g['g3'] * np.asarray(y)

    def peri(self, y):
        return self.g['g2'] + 2 * np.hypot(y, self.g['g3'] * y)


class Parabolic(Shape):
    def __init__(self, g1, g2, **_):
        super().__init__(g1=g1, g2=g2)
        self.full = g1

    def width(self, y):
        return self.g['g2'] * np.sqrt(np.asarray(y) / self.full)

    def peri(self, y):
        if y <= 0:
            return 0.
        half = self.g['g2'] * np.sqrt(y / self.full) / 2
        s = (_x + 1) / 2 * half         # horizontal distance from the axis
        slope = 8 * self.full * s / self.g['g2']**2
        return 2 * float(np.sum(_w * np.sqrt(1 + slope**2)) * half / 2)


class Elliptical(Shape):
    open = False

    def __init__(self, g1, g2, **_):
        super().__init__(g1=g1, g2=g2)
        self.full = g1

    def width(self, y):
        b = self.full / 2
        return self.g['g2'] * np.sqrt(np.maximum(1 - ((np.asarray(y) - b) / b)**2, 0.))

    def area(self, y):
        if y >= self.full:
            return np.pi * self.full * self.g['g2'] / 4
        if y > .5 * self.full:
            return np.pi * self.full * self.g['g2'] / 4 - integral(self.width, self.full - y)
        return super().area(y)

    def peri(self, y):
        a, b = self.g['g2'] / 2, self.full / 2
        top = np.arccos(np.clip(1 - y / b, -1, 1))
        f = (_x + 1) / 2 * top
        return 2 * float(np.sum(_w * np.sqrt((a * np.cos(f))**2 + (b * np.sin(f))**2)) * top / 2)

    def top(self):
        return 0.


class Wide(RectOpen):
    def peri(self, y):          # walls ignored: much wider than deep
        return self.g['g2']


class ForceMain(Shape):
    """always full"""
    open = False

    def __init__(self, g1, g2=0., **_):
        super().__init__(g1=g1, g2=g2)
        self.full = g1

    def area(self, y):
        return np.pi * self.full**2 / 4

    def peri(self, y):
        return np.pi * self.full

    def B(self, y):
        return self.g['g2'] * self.full


class Floodplain(Shape):
    def __init__(self, g1, g2, g3, g4, g5, g6, g7, **_):
        super().__init__(g1=g1, g2=g2, g3=g3, g4=g4, g5=g5, g6=g6, g7=g7)
        self.full = g1
        self.cut = [(0., g2, g5), (g2, g2 + g3, g6), (g2 + g3, np.inf, g4)]   # from, to, inverse slope

    def parts(self, y):
        return [(max(min(y, t) - f, 0.), m) for f, t, m in self.cut]

    def width(self, y):
        return np.array([self.g['g7'] * (v > 0) + 2 * sum(d * m for d, m in self.parts(v)) for v in np.atleast_1d(y)])

    def area(self, y):
        y = min(max(y, 0.), self.full)
        a, b = 0., self.g['g7']
        for d, m in self.parts(y):
            a += d * (b + b + 2 * m * d) / 2
            b += 2 * m * d
        return a

    def peri(self, y):
        return self.g['g7'] * (y > 0) + sum(2 * np.hypot(d, m * d) for d, m in self.parts(y))


class Transect(Shape):
    """polyline cross-section tabulated at `n` depths, linear in between"""

    def __init__(self, x, y, sample_points=100, **_):
        super().__init__()
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)
        self.full = float(self.y.max())
        self.z = np.linspace(0., self.full, sample_points)
        self.tab = np.array([self.exact(w) for w in self.z])      # A, B, Pe
        self.tabR = np.array([t[0] / t[2] if t[2] > 0 else 0. for t in self.tab])

    def exact(self, w):
        A = B = P = 0.
        for x0, y0, x1, y1 in zip(self.x[:-1], self.y[:-1], self.x[1:], self.y[1:]):
            if y0 > y1:
                x0, y0, x1, y1 = -x1, y1, -x0, y0        # mirror: y0 <= y1
            if y0 > w:
                continue
            t = 1. if y1 <= w else (w - y0) / (y1 - y0)  # wetted fraction of the segment
            A += t * (x1 - x0) * ((w - y0) + (w - (y0 + t * (y1 - y0)))) / 2
            B += t * (x1 - x0)
            P += t * np.hypot(x1 - x0, y1 - y0)
        return A, B, P

    def A(self, y):
        return float(np.interp(y, self.z, self.tab[:, 0]))

    def B(self, y):
        return float(np.interp(y, self.z, self.tab[:, 1]))

    def Pe(self, y):
        return float(np.interp(y, self.z, self.tab[:, 2]))

    def R(self, y):
        return float(np.interp(y, self.z, self.tabR))


SHAPES = dict(circular=Circular, rect_closed=RectClosed, rect_open=RectOpen, triangular=Triangular,
              trapezoidal=Trapezoidal, parabolic=Parabolic, elliptical=Elliptical, wide=Wide,
              force_main=ForceMain, floodplain=Floodplain)


def of(row, transects=None):
    """reference section of a conduit or orifice table row"""
    if row['shape'] == 'irregular':
        return Transect(**transects[row['transect']])
    g = {k: row[k] for k in ('g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'g7') if k in row}
    return SHAPES[row['shape']](**g)
