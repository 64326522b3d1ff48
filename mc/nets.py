"""Catalogue of small networks.  Every call returns fresh tables, so nothing is
shared between models unless a check shares it on purpose."""
import copy
import numpy as np
import pandas as pd

SJ = dict(z_inv=0., h_0=1e-5, bc=False, storage='functional', a=0., b=0., c=10.,
          max_depth=np.inf, map_x=0., map_y=0.)
SL = dict(in_offset=0., out_offset=0., dx=40., n=.013, shape='rect_open', g1=4., g2=1., g3=0.,
          g4=0., Q_0=0., h_0=1e-5, A_s=1., ctrl=False, A_c=0., C=0., C_uk=.67, C_dk=.67)
# dimensions (g1..g4) used for every shape in the catalogue: depth range up to ~2 m
DIM = {
    'circular': dict(g1=2.0, g2=.01),
    'rect_closed': dict(g1=2.0, g2=1.0, g3=.01),
    'rect_open': dict(g1=4.0, g2=1.0),
    'triangular': dict(g1=4.0, g2=.8),
    'trapezoidal': dict(g1=4.0, g2=.8, g3=.5),
    'parabolic': dict(g1=4.0, g2=2.0),
    'elliptical': dict(g1=2.0, g2=1.4),
    'wide': dict(g1=4.0, g2=1.5),
    'force_main': dict(g1=1.0, g2=.02),
}


class Net:
    def __init__(self, name, sj, sl, orifices=None, weirs=None, pumps=None, transects=None,
                 storages=None, **kw):
        self.name = name
        self.sj = [dict(SJ, **r) for r in sj]
        self.sl = [dict(SL, **r) for r in sl]
        self.orifices = orifices or []
        self.weirs = weirs or []
        self.pumps = pumps or []
        self.transects = transects
        self.storages = storages
        self.kw = dict(internal_links=3)
        self.kw.update(kw)

    def copy(self, name=None, **kw):
        n = copy.deepcopy(self)
        if name:
            n.name = name
        n.kw.update(kw)
        return n

    @property
    def M(self):
        return len(self.sj)

    @property
    def NK(self):
        return len(self.sl)

    def frame(self, rows):
        rows = [dict(r) for r in rows]
        for i, r in enumerate(rows):
            r.setdefault('id', i)
            r.setdefault('name', i)
        cols = []
        for r in rows:
            for c in r:
                if c not in cols:
                    cols.append(c)
        return pd.DataFrame(rows, columns=cols)

    def tables(self):
        t = dict(superlinks=self.frame(self.sl), superjunctions=self.frame(self.sj))
        for k in ('orifices', 'weirs', 'pumps'):
            rows = getattr(self, k)
            if rows:
                t[k] = self.frame(rows)
        if self.transects is not None:
            t['transects'] = copy.deepcopy(self.transects)
        if self.storages is not None:
            t['storages'] = copy.deepcopy(self.storages)
        return t

    def build(self, cls=None, **kw):
        if cls is None:
            from pipedream_solver.hydraulics import SuperLink as cls
        args = dict(self.kw)
        args.update(kw)
        banded = args.pop('banded', None)      # not an argument of the constructor: the default of step()
        m = cls(**self.tables(), **args)
        if banded is not None:
            m.banded = banded
        return m

    def bcs(self):
        return [i for i, r in enumerate(self.sj) if r['bc']]

    def topo(self):
        return [(r['sj_0'], r['sj_1']) for r in self.sl]


def link(u, v, shape='rect_open', **kw):
    d = dict(sj_0=u, sj_1=v, shape=shape)
    d.update(DIM.get(shape, {}))
    d.update(kw)
    return d


def ori(u, v, **kw):
    d = dict(sj_0=u, sj_1=v, A=.3, orientation='side', shape='rect_closed', g1=.5, g2=.6, g3=0.,
             z_o=0., y_max=.5, C=.67)
    d.update(kw)
    return d


def weir(u, v, **kw):
    d = dict(sj_0=u, sj_1=v, z_w=.5, y_max=.6, Cr=1.8, Ct=1.2, L=.8, s=.5)
    d.update(kw)
    return d


def pump(u, v, **kw):
    d = dict(sj_0=u, sj_1=v, z_p=.1, a_p=6., b_p=8., c_p=1.5, dH_min=.5, dH_max=4.)
    d.update(kw)
    return d


TRANSECTS = {
    'vee': dict(x=np.array([0., 1., 2., 3., 4.]), y=np.array([4., 1., 0., 1., 4.]), sample_points=61),
    'flat': dict(x=np.array([0., .5, .5, 1.5, 1.5, 2.]) + np.array([0, 0, 1e-6, 0, 1e-6, 0]),
                 y=np.array([4., 3., 0., 0., 3., 4.]), sample_points=41),
}


def wet(rows, h):
    for r in rows:
        r['h_0'] = h
    return rows


# ---------------------------------------------------------------- topologies
def chain(shapes=('rect_open',), drop=.2, h=.5, hl=None, bc_last=True, offs=(0., 0.), name=None,
          A=10., **kw):
    n = len(shapes)
    sj = [dict(z_inv=drop * (n - i), h_0=h, c=A, map_x=i) for i in range(n + 1)]
    if bc_last:
        sj[-1]['bc'] = True
    sl = [link(i, i + 1, s, h_0=h if hl is None else hl, in_offset=offs[0], out_offset=offs[1],
               C_uk=.5, C_dk=.8)
          for i, s in enumerate(shapes)]
    return Net(name or 'chain-' + '-'.join(shapes), sj, sl, **kw)


def tee(shapes=('circular', 'triangular', 'trapezoidal'), h=.6, **kw):
    sj = [dict(z_inv=.5, h_0=h, c=8.), dict(z_inv=.4, h_0=h, c=6., a=2., b=1.),
          dict(z_inv=.2, h_0=h, c=9.), dict(z_inv=0., h_0=h, bc=True)]
    sl = [link(0, 2, shapes[0], h_0=h, dx=50.), link(1, 2, shapes[1], h_0=h, dx=30., n=.02),
          link(2, 3, shapes[2], h_0=h, dx=45., C_uk=.3)]
    return Net('tee', sj, sl, **kw)


def loop(h=.7, **kw):
    sj = [dict(z_inv=.4, h_0=h, c=8.), dict(z_inv=.3, h_0=h, c=6.),
          dict(z_inv=.1, h_0=h, c=9.), dict(z_inv=0., h_0=h, bc=True)]
    sl = [link(0, 1, 'rect_open', h_0=h), link(1, 2, 'circular', h_0=h, dx=30.),
          link(0, 2, 'parabolic', h_0=h, dx=55., A_s=.2), link(2, 3, 'rect_closed', h_0=h, in_offset=.1)]
    return Net('loop', sj, sl, **kw)


def parallel(h=.8, **kw):
    sj = [dict(z_inv=.3, h_0=h, c=5.), dict(z_inv=0., h_0=h, c=7.)]
    sl = [link(0, 1, 'rect_open', h_0=h), link(0, 1, 'trapezoidal', h_0=h, dx=60., in_offset=.2),
          link(0, 1, 'wide', h_0=h, n=.03, out_offset=.3)]
    return Net('parallel', sj, sl, **kw)


def flipped(h=.7, **kw):
    """links listed from the low end to the high end (the constructor turns them round)"""
    sj = [dict(z_inv=0., h_0=h, bc=True), dict(z_inv=.4, h_0=h, c=5.), dict(z_inv=.2, h_0=h, c=7.)]
    sl = [link(0, 1, 'rect_open', h_0=h, dx=50.), link(2, 1, 'circular', h_0=h)]
    return Net('flipped', sj, sl, **kw)


def flat(h=1., **kw):
    """level bed: flow changes direction with the inputs"""
    sj = [dict(z_inv=0., h_0=h, c=6.), dict(z_inv=0., h_0=h, c=6.), dict(z_inv=0., h_0=h, c=6.)]
    sl = [link(0, 1, 'rect_open', h_0=h), link(1, 2, 'triangular', h_0=h, dx=25.)]
    return Net('flat', sj, sl, **kw)


def drop_net(h=.4, **kw):
    """inlet and outlet offsets of both signs of head difference"""
    sj = [dict(z_inv=1., h_0=h, c=5.), dict(z_inv=.2, h_0=h, c=6.), dict(z_inv=0., h_0=h, bc=True)]
    sl = [link(0, 1, 'rect_open', h_0=h, in_offset=.3, out_offset=.6, C_uk=.9, C_dk=.2),
          link(1, 2, 'circular', h_0=h, in_offset=.2, out_offset=.1, C_uk=.1, C_dk=1.2)]
    return Net('drop', sj, sl, **kw)


def control(h=1.2, which='owp', **kw):
    sj = [dict(z_inv=1., h_0=h, c=12.), dict(z_inv=.5, h_0=h, c=10.), dict(z_inv=.2, h_0=h, c=11., a=1., b=1.),
          dict(z_inv=0., h_0=h, c=9.)]
    sl = [link(2, 3, 'rect_open', h_0=h)]
    return Net('control-' + which, sj, sl,
               orifices=[ori(0, 1), ori(0, 2, orientation='bottom', z_o=.1, shape='circular', g1=.4, g2=0.,
                                        y_max=.4, A=.12)] if 'o' in which else None,
               weirs=[weir(0, 1), weir(1, 2, z_w=.3, L=1.1, s=0.)] if 'w' in which else None,
               pumps=[pump(3, 0)] if 'p' in which else None, **kw)


def twin_controls(h=1.2, **kw):
    """several structures of every kind side by side, listed in both directions, next to a conduit"""
    sj = [dict(z_inv=.6, h_0=h, c=12.), dict(z_inv=.3, h_0=h, c=10.), dict(z_inv=.1, h_0=h, c=11., a=1., b=1.)]
    sl = [link(0, 1, 'rect_open', h_0=h), link(1, 2, 'circular', h_0=h)]
    return Net('twin-controls', sj, sl,
               orifices=[ori(0, 2), ori(0, 2, A=.1, g1=.3, g2=.3, y_max=.3), ori(2, 0, orientation='bottom', A=.2), ori(1, 0)],
               weirs=[weir(0, 2), weir(2, 0, z_w=.4, L=1.2), weir(0, 1, s=0.), weir(0, 1, z_w=.8)],
               pumps=[pump(2, 0), pump(2, 0, a_p=3., b_p=5., dH_max=2.5), pump(1, 0)], **kw)


def outfall(h=1.2, **kw):
    """structures of every kind between the network and superjunctions of prescribed head, in both directions"""
    sj = [dict(z_inv=.7, h_0=h, c=12., bc=True), dict(z_inv=.5, h_0=h, c=10.), dict(z_inv=.2, h_0=h, c=11., a=1., b=1.),
          dict(z_inv=0., h_0=.6 * h, c=9., bc=True)]
    sl = [link(1, 2, 'rect_open', h_0=h), link(2, 3, 'circular', h_0=.8 * h)]
    return Net('outfall', sj, sl, orifices=[ori(0, 1, y_max=.47), ori(2, 0, A=.1, g1=.3, g2=.3, y_max=.31), ori(3, 1, orientation='bottom', A=.2, y_max=.53)],
               weirs=[weir(2, 3, z_w=.42), weir(0, 2, L=.5, z_w=.51), weir(0, 1, s=0., z_w=.37)], pumps=[pump(2, 0), pump(3, 1, a_p=3., dH_max=2.5)], **kw)


def two_tanks(kind, du=None, z=(0., 0.), h=(1., .5), A=50., rows=None, extra=(), **kw):
    """superjunctions 0,1 joined only by the structure(s); 2-3 a separate conduit (the solver needs one)"""
    sj = [dict(z_inv=z[0], h_0=h[0], c=A), dict(z_inv=z[1], h_0=h[1], c=A),
          dict(z_inv=.1, h_0=.5), dict(z_inv=0., h_0=.6)]
    sl = [link(2, 3, 'rect_open', h_0=.5)]
    return Net('two_tanks-' + kind, sj, sl, **{kind: rows}, **kw)


def shape_chain(shape, **kw):
    return chain((shape,), drop=.1, h=.6, bc_last=False, name='shape-' + shape, **kw)


def irregular(h=.7, **kw):
    sj = [dict(z_inv=.3, h_0=h, c=6.), dict(z_inv=.15, h_0=h, c=6.), dict(z_inv=0., h_0=h, bc=True)]
    base = dict(shape='irregular', g1=0., g2=0., g3=0.)
    sl = [link(0, 1, h_0=h, **dict(base, g1=0.), transect='vee') if False else
          dict(link(0, 1, h_0=h), **base, transect='vee'),
          dict(link(1, 2, h_0=h), **base, transect='flat')]
    return Net('irregular', sj, sl, transects=copy.deepcopy(TRANSECTS), **kw)


def basic(**kw):
    """the hydraulic catalogue without control structures"""
    return [chain(('rect_open', 'circular'), **kw), tee(**kw), loop(**kw), parallel(**kw),
            flipped(**kw), flat(**kw), drop_net(**kw), irregular(**kw)]


def shapes(**kw):
    return [shape_chain(s, **kw) for s in DIM]


def controls(**kw):
    return [control(which=w, **kw) for w in ('o', 'w', 'p', 'owp')]
