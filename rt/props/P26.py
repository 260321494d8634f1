"""Plotting functions: what is drawn, where, and reaction to events"""
import inspect
import re

import matplotlib
matplotlib.use('Agg')
import matplotlib.cm as cm
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from matplotlib import colors
from matplotlib.backend_bases import KeyEvent, MouseEvent
from mpl_toolkits.mplot3d import Axes3D

from sporco import plot, util
from rt import gen

RULE = ('random data, coordinates, figure and axes arrangements and display '
        'options for every plotting function; the artists in the resulting '
        'figures are compared with the data; random sequences of scroll '
        'wheel and key events sent to the canvas are compared with a model '
        'of the axes limits, figure size and open figures. Distinct = '
        'function and option set, or event and state.')
ASSUMPTIONS = ['matplotlib draws the artists it holds (Agg back end)']
KINDS = {'line': 2., 'surf': 1., 'contour': 1.5, 'imview': 3., 'zoom': 1.5,
         'keys': .5, 'notebook': .1}
EXPECT = {'line-data', 'line-scale', 'line-props', 'legend', 'labels',
          'figure', 'untouched', 'show', 'inputs', 'plot-type', 'surf-data',
          'surf-view', 'surf-contour', 'contour-lines', 'contour-levels',
          'contour-image', 'contour-text', 'contour-colorbar', 'image',
          'image-range', 'image-look', 'pixel-text', 'pixel-outside',
          'pixel-copy', 'image-colorbar', 'image-channels', 'zoom',
          'zoom-elsewhere', 'resize', 'quit', 'close', 'magic', 'wrapped'}


def cases(tier):
    k = 150 if tier == 'quick' else 700
    return [{'kind': kd, 'n': i} for kd, m in KINDS.items()
            for i in range(max(1, int(k * m)))]


def run(case, mon, rng):
    plt.close('all')
    shown = []
    keep = matplotlib.figure.Figure.show
    matplotlib.figure.Figure.show = lambda self, *a, **k: shown.append(self)
    try:
        globals()['go_' + case['kind']](mon, rng, shown)
    finally:
        matplotlib.figure.Figure.show = keep
        plt.close('all')


# --------------------------------------------------------------------------
def snap(fig):
    """Contents of a figure"""
    return [(id(a), len(a.lines), len(a.images), len(a.collections),
             len(a.texts), a.get_title(), a.get_xlabel(), a.get_ylabel())
            for a in fig.axes]


class Place:
    """Where to draw: new figure, given figure, or given axes, with other
    figures and axes around"""

    def __init__(self, rng, threed=False):
        self.kw = {}
        self.fig = self.ax = None
        self.others = []
        self.mode = ['new', 'new', 'num', 'fig', 'ax', 'ax'][
            rng.integers(6)]
        if rng.random() < .5:
            self.others.append(plt.figure())
            self.others[-1].gca().plot([1, 2, 3])
        if self.mode == 'new' and rng.random() < .4:
            self.kw['fgsz'] = (float(rng.integers(3, 7)),
                               float(rng.integers(3, 7)))
        if self.mode == 'num':
            self.kw['fgnm'] = int(rng.integers(20, 25))
            if rng.random() < .5:        # existing figure is cleared
                plt.figure(self.kw['fgnm']).gca().plot([3, 4])
        if self.mode == 'fig':
            self.fig = plt.figure()
            self.kw['fig'] = self.fig
        if self.mode == 'ax':
            nr, nc = int(rng.integers(1, 3)), int(rng.integers(1, 3))
            self.fig, axs = plt.subplots(nr, nc, squeeze=False)
            i = int(rng.integers(nr * nc))
            axl = list(axs.ravel())
            self.ax = axl[i]
            self.pos = self.ax.get_subplotspec()
            if threed and rng.random() < .5:
                self.ax.remove()
                self.ax = self.fig.add_subplot(self.pos, projection='3d')
            self.kw['fig'], self.kw['ax'] = self.fig, self.ax
            self.sub = [a for j, a in enumerate(axl) if j != i]
            plt.sca(axl[int(rng.integers(nr * nc))]
                    if nr * nc > 1 and not threed else self.ax)
        if rng.random() < .5:            # another figure is the current one
            self.others.append(plt.figure())
            self.others[-1].gca().plot([1, 2, 3])
        self.before = [snap(f) for f in self.others]
        self.nfig = set(plt.get_fignums())
        if self.mode == 'ax':
            self.sbefore = [(len(a.lines), len(a.images),
                             len(a.collections)) for a in self.sub]

    def check(self, mon, fig, ax, shown, what, threed=False):
        sg = '%s/%s' % (what, self.mode)
        mon.ok('figure', isinstance(fig, matplotlib.figure.Figure) and
               ax in fig.axes, sig=sg, axes=fig.axes)
        if self.fig is not None:
            mon.ok('figure', fig is self.fig, sig=sg, what='other figure')
        else:
            mon.ok('figure', fig not in self.others, sig=sg,
                   what='drawn in other figure')
            mon.ok('figure', len(set(plt.get_fignums()) - self.nfig) ==
                   int(self.kw.get('fgnm') not in self.nfig), sig=sg,
                   what='number of figures')
        if self.ax is not None:
            if not threed or self.ax.name == '3d':
                mon.ok('figure', ax is self.ax, sig=sg, what='other axes')
            else:
                mon.ok('figure', ax.get_subplotspec() == self.pos, sig=sg,
                       what='other position')
            mon.ok('untouched', self.sbefore == [
                (len(a.lines), len(a.images), len(a.collections))
                for a in self.sub], sig=sg, what='other axes')
            mon.ok('untouched', all(a in fig.axes for a in self.sub),
                   sig=sg, what='axes removed')
        if 'fgsz' in self.kw:
            mon.close('figure', fig.get_size_inches(), self.kw['fgsz'],
                      sig=sg, what='size')
        if 'fgnm' in self.kw:
            mon.ok('figure', fig.number == self.kw['fgnm'], sig=sg,
                   what='number')
        for f, b in zip(self.others, self.before):
            mon.ok('untouched', snap(f) == b, sig=sg, before=b,
                   after=snap(f))
        mon.ok('show', shown == ([] if self.fig is not None else [fig]),
               sig=sg, shown=len(shown))
        del shown[:]


def lab(rng):
    """Labels and title"""
    kw = {}
    for k, p in (('xlbl', .5), ('ylbl', .5), ('title', .5)):
        if rng.random() < p:
            kw[k] = '%s %d' % (k[0], rng.integers(100))
    return kw


def chk_labels(mon, ax, kw, what):
    mon.ok('labels', ax.get_xlabel() == kw.get('xlbl', '') and
           ax.get_ylabel() == kw.get('ylbl', '') and
           ax.get_title() == kw.get('title', ''),
           sig=what + '/' + ','.join(sorted(kw)), kw=kw,
           got=(ax.get_xlabel(), ax.get_ylabel(), ax.get_title()))


def hold(mon, arrs, what):
    """Returns function checking that the arrays still have their values"""
    arrs = [a for a in arrs if isinstance(a, np.ndarray)]
    keep = [a.copy() for a in arrs]

    def chk():
        for a, b in zip(arrs, keep):
            mon.ok('inputs', a.dtype == b.dtype and
                   np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'),
                   sig=what)
    return chk


def cmaps(rng):
    return [None, None, cm.viridis, cm.coolwarm][rng.integers(4)]


# --------------------------------------------------------------------------
def go_line(mon, rng, shown):
    n = int(rng.integers(2, 12))
    nl = int(rng.integers(0, 4))
    y = rng.standard_normal((n, nl) if nl else n)
    ptyp = ['plot', 'semilogx', 'semilogy', 'loglog'][rng.integers(4)]
    y = np.abs(y) + .1
    if rng.random() < .3:
        y = np.round(10 * y).astype([int, np.float32][rng.integers(2)])
    x = None
    if rng.random() < .6:
        x = np.cumsum(rng.random(n)) + .01
        x = [x, x[::-1], list(x)][rng.integers(3)]
    yy = gen.layout(rng, y)
    if nl == 0 and rng.random() < .2:
        yy = list(y)
    chk = hold(mon, [x, yy], 'plot')
    place = Place(rng)
    kw = lab(rng)
    ln = {}
    if rng.random() < .3:
        ln[['lw', 'linewidth'][rng.integers(2)]] = float(rng.integers(3, 6))
    if rng.random() < .3:
        ln[['ms', 'markersize'][rng.integers(2)]] = float(rng.integers(7, 9))
    if rng.random() < .3:
        ln['color'] = 'g'
    if rng.random() < .3:
        ln['marker'] = 'x'
    lg = {}
    if rng.random() < .4:
        lg['lgnd'] = ['c%d' % i for i in range(max(1, nl))]
        if rng.random() < .5:
            lg['lglc'] = 'lower left'
    if ptyp != 'plot' or rng.random() < .3:
        kw2 = {'ptyp': ptyp}
    else:
        kw2 = {}
    n0 = len(place.ax.lines) if place.ax is not None else 0
    if x is None:
        fig, ax = plot.plot(yy, **kw, **kw2, **ln, **lg, **place.kw)
    else:
        fig, ax = plot.plot(yy, x, **kw, **kw2, **ln, **lg, **place.kw) \
            if rng.random() < .5 else \
            plot.plot(yy, x=x, **kw, **kw2, **ln, **lg, **place.kw)
    place.check(mon, fig, ax, shown, 'plot')
    sg = '%s,%s,%d' % (ptyp, x is not None, nl)
    cols = [y] if nl == 0 else [y[:, i] for i in range(nl)]
    lines = ax.lines[n0:]
    if mon.ok('line-data', len(lines) == len(cols), sig=sg, got=len(lines)):
        for l, c in zip(lines, cols):
            mon.close('line-data', l.get_ydata(), c, 1e-12, sig=sg)
            mon.close('line-data', l.get_xdata(), np.arange(n) if x is None
                      else x, 1e-12, sig=sg)
            mon.ok('line-props', l.get_linewidth() ==
                   ln.get('lw', ln.get('linewidth', 1.5)) and
                   l.get_markersize() ==
                   ln.get('ms', ln.get('markersize', 6.)) and
                   ('color' not in ln or l.get_color() == 'g') and
                   l.get_marker() == ln.get('marker', 'None'),
                   sig=','.join(sorted(ln)), got=(
                       l.get_linewidth(), l.get_markersize(), l.get_color(),
                       l.get_marker()))
    mon.ok('line-scale', ax.get_xscale() ==
           ('log' if ptyp in ('semilogx', 'loglog') else 'linear') and
           ax.get_yscale() ==
           ('log' if ptyp in ('semilogy', 'loglog') else 'linear'), sig=sg)
    chk_labels(mon, ax, kw, 'plot')
    leg = ax.get_legend()
    if 'lgnd' in lg:
        mon.ok('legend', leg is not None and
               [t.get_text() for t in leg.get_texts()] == lg['lgnd'],
               sig=sg)
        if 'lglc' in lg and leg is not None:
            mon.ok('legend', leg._loc == 3, sig=sg, loc=leg._loc)
    else:
        mon.ok('legend', leg is None, sig=sg)
    v = float(rng.standard_normal() * 10)
    mon.ok('labels', float(ax.fmt_xdata(v)) == round(v, 2) and
           float(ax.fmt_ydata(v)) == round(v, 2), sig='fmt')
    chk()
    if rng.random() < .2:
        mon.raises('plot-type', ValueError, lambda: plot.plot(
            y, ptyp=['bar', 'semilog', 'plt', 'Plot'][rng.integers(4)]),
            sig='bad')
    if rng.random() < .2:                # second curve in the same axes
        plot.plot(y, fig=fig, ax=ax)
        mon.ok('line-data', len(ax.lines) == n0 + 2 * len(cols),
               sig='again')
    if rng.random() < .3:
        fig.canvas.draw()


# --------------------------------------------------------------------------
class Hook:
    """Record the arguments of a method of a matplotlib class"""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __enter__(self):
        self.calls = []
        self.own = self.name in vars(self.cls)
        self.orig = orig = getattr(self.cls, self.name)
        sig = inspect.signature(orig)

        def hook(this, *a, **k):
            b = sig.bind(this, *a, **k)
            self.calls.append((this, b.arguments))
            return orig(this, *a, **k)
        setattr(self.cls, self.name, hook)
        return self

    def __exit__(self, *exc):
        if self.own:
            setattr(self.cls, self.name, self.orig)
        else:
            delattr(self.cls, self.name)


def grid(rng, pos=False):
    nr, nc = (int(i) for i in rng.integers(3, 9, 2))
    z = rng.standard_normal((nr, nc))
    x = y = None
    if rng.random() < .6 or pos:
        x = np.cumsum(rng.random(nc) + .1) + (.1 if pos else -2.)
    if rng.random() < .6 or pos:
        y = np.cumsum(rng.random(nr) + .1) + (.1 if pos else -2.)
    # coordinates may also be decreasing
    if x is not None and rng.random() < .2:
        x = x[::-1].copy()
    if y is not None and rng.random() < .2:
        y = y[::-1].copy()

    def form(v, ax):
        if v is None:
            return None
        return [v, v.reshape((1, -1) if ax else (-1, 1)), list(v)][
            rng.integers(3)]
    return z, x, y, form(x, 1), form(y, 0)


def go_surf(mon, rng, shown):
    z, x, y, xa, ya = grid(rng)
    za = gen.layout(rng, z)
    chk = hold(mon, [za, xa, ya], 'surf')
    place = Place(rng, threed=True)
    kw = lab(rng)
    opt = {}
    if rng.random() < .5:
        opt['zlbl'] = 'z%d' % rng.integers(9)
    if rng.random() < .4:
        opt['elev'] = float(rng.integers(0, 60))
    if rng.random() < .4:
        opt['azim'] = float(rng.integers(-60, 60))
    if rng.random() < .3:
        opt['alpha'] = .5
    cmap = cmaps(rng)
    if cmap is not None:
        opt['cmap'] = cmap
    if rng.random() < .5:
        opt['cntr'] = int(rng.integers(2, 6)) if rng.random() < .5 else \
            [float(v) for v in np.sort(np.quantile(z, rng.random(3)))]
    nc0 = 0
    with Hook(Axes3D, 'plot_surface') as hs, Hook(Axes3D, 'contour') as hc:
        fig, ax = plot.surf(za, x=xa, y=ya, **kw, **opt, **place.kw)
    place.check(mon, fig, ax, shown, 'surf', threed=True)
    sg = ','.join(sorted(opt)) + '/%s%s' % (x is None, y is None)
    nr, nc = z.shape
    X, Y = np.meshgrid(np.arange(nc) if x is None else x,
                       np.arange(nr) if y is None else y)
    mon.ok('surf-data', ax.name == '3d' and len(ax.collections) - nc0 ==
           1 + ('cntr' in opt), sig=sg, got=ax.collections)
    if len(hs.calls) == 1:
        this, b = hs.calls[0]
        mon.ok('surf-data', this is ax, sig=sg)
        # as by plot_surface: arguments are broadcast
        got = np.broadcast_arrays(b['X'], b['Y'], b['Z'])
        for g, w in zip(got, (X, Y, z)):
            mon.close('surf-data', g, w, 1e-12, sig=sg)
    pc = ax.collections[0]
    # every grid cell is a face
    mon.ok('surf-data', len(pc.get_facecolor()) == (nr - 1) * (nc - 1),
           sig=sg, faces=len(pc.get_facecolor()))
    mon.ok('surf-view', pc.get_cmap().name ==
           ('YlOrRd' if cmap is None else cmap.name) and
           pc.get_alpha() == opt.get('alpha', 1.), sig=sg)
    mon.ok('surf-view', ('elev' not in opt or ax.elev == opt['elev']) and
           ('azim' not in opt or ax.azim == opt['azim']), sig=sg,
           got=(ax.elev, ax.azim), opt=opt)
    mon.ok('labels', ax.get_zlabel() == opt.get('zlbl', ''), sig='zlbl')
    chk_labels(mon, ax, kw, 'surf')
    if 'cntr' in opt:
        cs = ax.collections[1]
        if np.ndim(opt['cntr']):
            mon.close('surf-contour', cs.levels, opt['cntr'], 1e-12, sig=sg)
        if len(hc.calls) == 1:
            # contours are drawn at the lower end of the z axis
            this, b = hc.calls[0]
            off = b.get('offset', b.get('kwargs', {}).get('offset'))
            zl = ax.get_zlim()
            mon.ok('surf-contour', off is not None and off < z.min() and
                   abs(zl[0] - off) < 1e-9 and zl[1] >= z.max(), sig=sg,
                   off=off, zlim=zl, zmin=z.min())
            off = z.min() - .2 * (z.max() - z.min()) - off \
                if off is not None else 1.
            mon.le('surf-contour', abs(off), 6e-4, sig=sg)
    chk()
    if rng.random() < .2:
        fig.canvas.draw()


# --------------------------------------------------------------------------
def findex(v, c):
    """Fractional index of values v in monotone coordinates c"""
    i = np.arange(len(c))
    return np.interp(v, c, i) if c[-1] >= c[0] else \
        np.interp(v, c[::-1], i[::-1])


def bilin(z, fy, fx):
    i = np.clip(np.floor(fy).astype(int), 0, z.shape[0] - 2)
    j = np.clip(np.floor(fx).astype(int), 0, z.shape[1] - 2)
    a, b = fy - i, fx - j
    return ((1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[i + 1, j] +
            (1 - a) * b * z[i, j + 1] + a * b * z[i + 1, j + 1])


def go_contour(mon, rng, shown):
    xlog, ylog = bool(rng.random() < .25), bool(rng.random() < .25)
    z, x, y, xa, ya = grid(rng, xlog or ylog)
    za = gen.layout(rng, z)
    chk = hold(mon, [za, xa, ya], 'contour')
    place = Place(rng)
    kw = lab(rng)
    opt = {}
    if rng.random() < .7:
        opt['v'] = int(rng.integers(2, 8)) if rng.random() < .4 else \
            [float(v) for v in np.sort(z.min() + np.ptp(z) * (
                .05 + .9 * rng.random(3)))]
    if xlog or rng.random() < .3:
        opt['xlog'] = xlog
    if ylog or rng.random() < .3:
        opt['ylog'] = ylog
    if rng.random() < .6:
        opt['cfntsz'] = [None, 0, 8, 12][rng.integers(4)]
    if rng.random() < .4:
        opt['cfmt'] = '%.3f'
    if rng.random() < .4:
        opt['lfntsz'] = 14
    if rng.random() < .3:
        opt['alpha'] = .5
    if rng.random() < .3:
        opt['vmin'] = float(z.min() - rng.random() if rng.random() < .7
                            else z.min() + .3 * np.ptp(z))
    if rng.random() < .3:
        opt['vmax'] = float(z.max() + rng.random() if rng.random() < .7
                            else z.max() - .3 * np.ptp(z))
    cmap = cmaps(rng)
    if cmap is not None:
        opt['cmap'] = cmap
    fig, ax = plot.contour(za, x=xa, y=ya, **kw, **opt, **place.kw)
    place.check(mon, fig, ax, shown, 'contour')
    sg = ','.join(sorted(opt)) + '/%s%s' % (x is None, y is None)
    nr, nc = z.shape
    xv = np.arange(nc) if x is None else x
    yv = np.arange(nr) if y is None else y
    cs = [c for c in ax.collections if hasattr(c, 'levels')]
    qm = [c for c in ax.collections if not hasattr(c, 'levels')]
    if not mon.ok('contour-image', len(cs) == 1 and len(qm) == 1, sig=sg):
        return
    cs, qm = cs[0], qm[0]
    mon.close('contour-image', np.ma.getdata(qm.get_array()).reshape(z.shape),
              z, 1e-12, sig=sg)
    mon.close('contour-image', qm.get_coordinates(),
              np.stack(np.meshgrid(xv, yv), -1), 1e-12, sig=sg)
    fig.canvas.draw()
    mon.close('contour-image', qm.get_clim(), (
        opt.get('vmin', z.min()), opt.get('vmax', z.max())), 1e-12, sig=sg)
    mon.ok('contour-image', qm.get_cmap().name ==
           ('YlOrRd' if cmap is None else cmap.name) and
           qm.get_alpha() == opt.get('alpha', 1.), sig=sg)
    v = opt.get('v', 5)
    if np.ndim(v):
        mon.close('contour-levels', cs.levels, v, 1e-12, sig=sg)
    else:
        # number of levels is chosen by matplotlib near the given number
        mon.ok('contour-levels', len(cs.levels) <= v + 3, sig=sg,
               levels=cs.levels, v=v)
        mon.ok('contour-levels', len(cs.levels) >= 1, sig=sg)
    labelled = opt.get('cfntsz', 10) not in (None, 0)
    if not labelled:
        # vertices of the lines are on the edges of grid cells
        for lev, p in zip(cs.levels, cs.get_paths()):
            if len(p.vertices):
                fx = findex(p.vertices[:, 0], xv)
                fy = findex(p.vertices[:, 1], yv)
                mon.close('contour-lines', bilin(z, fy, fx),
                          np.full(len(fx), lev), 0, 1e-8 * np.ptp(z),
                          sig=sg)
        nz = [bool(len(p.vertices)) for p in cs.get_paths()]
        mon.ok('contour-lines', nz == [bool(
            z.min() < l < z.max()) for l in cs.levels], sig=sg)
        mon.ok('contour-text', len(ax.texts) == 0, sig=sg,
               n=len(ax.texts))
    else:
        for t in ax.texts:
            if opt.get('cfmt'):
                mon.ok('contour-text', t.get_text() in
                       ['%.3f' % l for l in cs.levels], sig=sg,
                       text=t.get_text())
            mon.ok('contour-text', t.get_fontsize() == opt.get(
                'cfntsz', 10), sig=sg, size=t.get_fontsize())
    mon.ok('contour-lines', np.allclose(colors.to_rgba_array(
        cs.get_edgecolor())[:, :3], 0), sig='black')
    mon.ok('line-scale', ax.get_xscale() == ('log' if xlog else 'linear') and
           ax.get_yscale() == ('log' if ylog else 'linear'), sig=sg)
    chk_labels(mon, ax, kw, 'contour')
    if 'lfntsz' in opt:
        mon.ok('labels', ('xlbl' not in kw or
                          ax.xaxis.label.get_fontsize() == 14) and
               ('ylbl' not in kw or ax.yaxis.label.get_fontsize() == 14),
               sig='lfntsz')
    w = float(rng.random() * 100)
    for f, l in ((ax.fmt_xdata, xlog), (ax.fmt_ydata, ylog)):
        mon.ok('labels', f(w).strip() == ('%.2e' if l else '%.2f') % w,
               sig='fmt', got=f(w))
    cb = qm.colorbar
    mon.ok('contour-colorbar', cb is not None and cb.ax in fig.axes and
           cb.ax is not ax and cb.mappable is qm, sig=sg)
    chk()


# --------------------------------------------------------------------------
def image(rng):
    shp = tuple(int(i) for i in rng.integers(2, 10, 2))
    if rng.random() < .4:
        shp += (3,)
    dt = [np.float64, np.float32, np.uint8, np.uint16, np.int16, np.int32,
          np.float64, np.int16][rng.integers(8)]
    if np.dtype(dt).kind == 'f':
        img = rng.random(shp)
        if rng.random() < .5:
            img = 3 * img - 1
    else:
        ii = np.iinfo(dt)
        hi = min(255, ii.max) if len(shp) == 3 and dt not in (
            np.uint16, np.int16) else min(ii.max, 2 ** 20)
        lo = 0 if len(shp) == 3 and dt is not np.int16 else max(
            ii.min, -2 ** 20)
        if rng.random() < .5:
            lo, hi = max(lo, 0), min(hi, 255)
        img = rng.integers(lo, hi, shp, endpoint=True)
    if rng.random() < .1:
        img = np.full(shp, img.ravel()[0])
    return gen.layout(rng, img.astype(dt))


def shown_image(img, fltscl):
    """Documented pixel values of the displayed image"""
    d = img.astype(np.float64)
    mn, mx = d.min(), d.max()
    if img.dtype.kind == 'f':
        if fltscl:
            d = (d - mn) / (mx - mn) if mx > mn else d - mn
        if d.ndim > 2:
            d = np.clip(d, 0, 1)
    elif img.dtype == np.uint16:
        d = d / 65535.
    elif img.dtype == np.int16:
        d = (d - mn) / (mx - mn) if mx > mn else d - mn
    return d


def go_imview(mon, rng, shown):
    img = image(rng)
    place = Place(rng)
    kw = {}
    if rng.random() < .5:
        kw['title'] = 't%d' % rng.integers(100)
    opt = {}
    if rng.random() < .5:
        opt['fltscl'] = bool(rng.random() < .7)
    if rng.random() < .5:
        opt['copy'] = bool(rng.random() < .5)
    if rng.random() < .3:
        opt['intrp'] = ['bilinear', 'bicubic'][rng.integers(2)]
    if img.ndim == 2:
        if rng.random() < .6:
            opt['cbar'] = [True, None, False][rng.integers(3)]
        if rng.random() < .3:
            opt['norm'] = colors.Normalize(-.5, 2.)
        cmap = cmaps(rng)
        if cmap is not None:
            opt['cmap'] = cmap
    chk = hold(mon, [img], 'imview')
    orig = img.copy()
    n0 = len(place.fig.axes) + (place.mode == 'fig') \
        if place.fig is not None else 1
    fig, ax = plot.imview(img, **kw, **opt, **place.kw)
    place.check(mon, fig, ax, shown, 'imview')
    chk()
    sg = '%s,%d,%s' % (img.dtype, img.ndim, ','.join(sorted(opt)))
    if not mon.ok('image', len(ax.images) == 1, sig=sg):
        return
    im = ax.images[0]
    want = shown_image(orig, opt.get('fltscl', False))
    eps = 1e-5 if img.dtype in (np.float32, np.uint16, np.int16) else 1e-12
    got = np.ma.getdata(im.get_array())
    mon.ok('image', not np.any(np.ma.getmaskarray(im.get_array())), sig=sg)
    mon.close('image', got, want, eps, eps, sig=sg)
    if img.ndim == 2:
        if 'norm' in opt:
            mon.ok('image-range', im.norm is opt['norm'] and
                   (im.norm.vmin, im.norm.vmax) == (-.5, 2.), sig=sg)
        elif want.min() < want.max():    # not adjusted by colour bar
            mon.close('image-range', (im.norm.vmin, im.norm.vmax),
                      (want.min(), want.max()), eps, eps, sig=sg)
        mon.ok('image-look', im.get_cmap().name == opt.get(
            'cmap', cm.Greys_r).name, sig=sg, got=im.get_cmap().name)
    mon.ok('image-look', im.get_interpolation() ==
           opt.get('intrp', 'nearest'), sig=sg)
    mon.ok('image-look', all(t.get_text() == '' for t in
                             ax.get_xticklabels() + ax.get_yticklabels()),
           sig=sg)
    mon.ok('labels', ax.get_title() == kw.get('title', ''), sig='imview')
    nr, nc = img.shape[:2]
    # first row at the top, pixel centres at integers
    mon.ok('image-look', tuple(ax.get_xlim()) == (-.5, nc - .5) and
           tuple(ax.get_ylim()) == (nr - .5, -.5), sig=sg,
           lim=(ax.get_xlim(), ax.get_ylim()))
    # pixel values reported at the pointer are those of the original image
    cp = opt.get('copy', True)
    mod = cp and img.flags.writeable and rng.random() < .5
    if mod:
        img[...] = img[::-1, ::-1] if rng.random() < .5 else 0
    for _ in range(6):
        r, c = int(rng.integers(nr)), int(rng.integers(nc))
        px, py = c + .98 * (rng.random() - .5), r + .98 * (rng.random() - .5)
        txt = ax.format_coord(px, py)
        m = re.match(r'x=\s*(\S+), y=\s*(\S+), z=\(?([^)]*)\)?$', txt)
        if not mon.ok('pixel-text', m, sig=sg, txt=txt):
            continue
        vals = [float(v) for v in m.group(3).split(',')]
        mon.close('pixel-copy' if mod else 'pixel-text', vals,
                  np.atleast_1d(orig[r, c]).astype(float), 1e-6, .0051,
                  sig=sg, txt=txt, at=(r, c))
        mon.close('pixel-text', [float(m.group(1)), float(m.group(2))],
                  [px, py], 0, .0051, sig=sg)
    for px, py in ((-3., 0.), (0., -2.), (nc + .2, 0.), (0., nr + .2),
                   (nc - .4, 1.), (1., nr - .4)):
        mon.ok('pixel-outside', 'z=' not in ax.format_coord(px, py),
               sig='outside', at=(px, py), shape=(nr, nc),
               txt=ax.format_coord(px, py))
    cb = opt.get('cbar', False)
    na = len(fig.axes) - n0
    mon.ok('image-colorbar', na == int(cb is not False), sig=sg, axes=na,
           cbar=cb)
    mon.ok('image-colorbar', (im.colorbar is not None) == (cb is True),
           sig=sg, cbar=cb)
    if cb is True and im.colorbar is not None:
        mon.ok('image-colorbar', im.colorbar.orientation == (
            'vertical' if nr >= nc else 'horizontal'), sig='orient')
        mon.ok('image-colorbar', im.colorbar.mappable is im, sig='map')
    if rng.random() < .2:
        bad = rng.random((4, 5, [1, 2, 5][rng.integers(3)]))
        mon.raises('image-channels', ValueError, lambda: plot.imview(bad),
                   sig=bad.shape[2])
    if rng.random() < .3:
        fig.canvas.draw()


# --------------------------------------------------------------------------
def zlim(cur, ref, c, f):
    """Model of zoomed limits: scaled about c, then moved into, or limited
    to, the reference"""
    inv = ref[1] < ref[0]
    if inv:
        cur, ref = cur[::-1], ref[::-1]
    lo, hi = c - (c - cur[0]) * f, c + (cur[1] - c) * f
    if hi - lo >= ref[1] - ref[0]:
        lo, hi = ref
    else:
        s = max(0., ref[0] - lo) - max(0., hi - ref[1])
        lo, hi = lo + s, hi + s
    return (hi, lo) if inv else (lo, hi)


def scroll(ax, xd, yd, up):
    x, y = ax.transData.transform((xd, yd))
    ev = MouseEvent('scroll_event', ax.figure.canvas, x, y,
                    button='up' if up else 'down', step=1 if up else -1)
    ev._process()
    return ev


def go_zoom(mon, rng, shown):
    n = int(rng.integers(1, 4))
    fig, axs = plt.subplots(1, n, squeeze=False)
    axs = list(axs[0])
    scal = [2.] * n
    typ = []
    for i, ax in enumerate(axs):
        t = ['line', 'line', 'log', 'img', 'contour', 'direct'][
            rng.integers(6)]
        if t == 'img':
            plot.imview(rng.random((9, 7)), fig=fig, ax=ax)
        elif t == 'contour':
            plot.contour(rng.random((5, 6)), fig=fig, ax=ax)
        elif t == 'direct':
            scal[i] = float(rng.choice([1.25, 1.5, 3.]))
            ax.plot(rng.random(6))
        else:
            if rng.random() < .3:
                ax.invert_xaxis()
                t += '-x'
            if rng.random() < .3:
                ax.invert_yaxis()
                t += '-y'
            for _ in range(int(rng.integers(1, 4))):
                plot.plot(rng.random(8) + .1, x=np.arange(1, 9), fig=fig,
                          ax=ax, ptyp='loglog' if t[:3] == 'log' else 'plot')
        if t == 'direct':
            plot.attach_zoom(ax, scal[i])
        typ.append(t)
    fig.canvas.draw()
    ref = [(tuple(a.get_xlim()), tuple(a.get_ylim())) for a in axs]
    cur = list(ref)
    for step in range(int(rng.integers(5, 14))):
        i = int(rng.integers(n))
        ax = axs[i]
        u = rng.random(2) * .9 + .05
        (x0, x1), (y0, y1) = cur[i]
        if ax.get_xscale() == 'log':
            px, py = x0 * (x1 / x0) ** u[0], y0 * (y1 / y0) ** u[1]
        else:
            px, py = x0 + (x1 - x0) * u[0], y0 + (y1 - y0) * u[1]
        up = bool(rng.random() < .6)
        r = rng.random()
        if r < .1:                       # outside any axes
            MouseEvent('scroll_event', fig.canvas, 1, 1,
                       button='up', step=1)._process()
        else:
            ev = scroll(ax, px, py, up)
            if ev.xdata is None or ev.inaxes is not ax:
                raise RuntimeError('event position')
            f = 1 / scal[i] if up else scal[i]
            cur[i] = (zlim(cur[i][0], ref[i][0], ev.xdata, f),
                      zlim(cur[i][1], ref[i][1], ev.ydata, f))
        for j, a in enumerate(axs):
            for g, w, rf in zip((a.get_xlim(), a.get_ylim()), cur[j],
                                ref[j]):
                mon.close('zoom' if j == i and r >= .1 else 'zoom-elsewhere',
                          g, w, 0, 1e-9 * (abs(rf[1] - rf[0]) + max(
                              abs(rf[0]), abs(rf[1]))),
                          sig='%s/%d/%s' % (typ[j], n, up), typ=typ, up=up,
                          step=step, axes=j, event_axes=i)
        cur = [(tuple(a.get_xlim()), tuple(a.get_ylim())) for a in axs]


def key(fig, k):
    KeyEvent('key_press_event', fig.canvas, k, 5, 5)._process()


def some(rng, **kw):
    """Any plotting function"""
    w = rng.integers(4)
    z = rng.random((5, 6))
    return [plot.plot, plot.surf, plot.contour, plot.imview][w](z, **kw)


def go_keys(mon, rng, shown):
    figs = []
    sc = []
    for _ in range(int(rng.integers(1, 4))):
        fig, ax = some(rng)
        if rng.random() < .4 and ax.name != '3d':
            some(rng, fig=fig)           # draw again in the same figure
        figs.append(fig)
        sc.append(1.1)
    if rng.random() < .3:
        fig = plt.figure()
        fig.gca().plot([1, 2])
        sc.append(float(rng.choice([1.2, 1.5])))
        plot.attach_keypress(fig, sc[-1])
        figs.append(fig)
    size = [f.get_size_inches().copy() for f in figs]
    live = [True] * len(figs)
    for _ in range(int(rng.integers(3, 10))):
        i = int(rng.integers(len(figs)))
        k = ['e', 'c', 'x', 'e', 'c', 'E', 'q'][rng.integers(7)]
        if not live[i]:
            continue
        key(figs[i], k)
        if k == 'q':
            live[i] = False
        elif k in 'ec':
            size[i] = size[i] * (sc[i] if k == 'e' else 1 / sc[i])
        mon.ok('quit', [plt.fignum_exists(f.number) for f in figs] == live,
               sig='%s/%d' % (k, len(figs)), live=live)
        for f, s in zip(figs, size):
            mon.close('resize', f.get_size_inches(), s, 1e-9, sig=k)
    if rng.random() < .7 and any(live):
        i = live.index(True)
        plot.close(figs[i] if rng.random() < .5 else figs[i].number)
        live[i] = False
        mon.ok('close', [plt.fignum_exists(f.number) for f in figs] == live,
               sig='one')
    plot.close()
    mon.ok('close', plt.get_fignums() == [], sig='all')


def go_notebook(mon, rng, shown):
    names = ('plot', 'surf', 'contour', 'imview')
    keep = {k: getattr(plot, k) for k in names}
    inn, ini = util.in_notebook, util.in_ipython
    show = matplotlib.figure.Figure.show
    log = []

    class Shell:
        def run_line_magic(self, *a):
            log.append(a)
    had = hasattr(plot, 'get_ipython')
    old = getattr(plot, 'get_ipython', None)
    plot.get_ipython = lambda: Shell()
    try:
        nb, ip = bool(rng.integers(2)), bool(rng.integers(2))
        util.in_notebook = lambda: nb
        util.in_ipython = lambda: ip
        plot.set_ipython_plot_backend()
        plot.set_ipython_plot_backend('tk')
        mon.ok('magic', log == ([('matplotlib', 'qt'), ('matplotlib', 'tk')]
                                if ip else []), sig='ipython%s' % ip,
               log=log)
        del log[:]
        plot.set_notebook_plot_backend()
        plot.set_notebook_plot_backend('widget')
        mon.ok('magic', log == ([('matplotlib', 'inline'),
                                 ('matplotlib', 'widget')]
                                if nb else []), sig='notebook%s' % nb,
               log=log)
        del log[:]
        for _ in range(2):
            plot.config_notebook_plotting()
        mon.ok('magic', log == ([('matplotlib', 'inline')] if nb else []),
               sig='config%s' % nb, log=log)
        for k in names:
            f = getattr(plot, k)
            mon.ok('wrapped', (f is keep[k]) != nb, sig=k)
            for fig in (None, plt.figure()):
                got = []
                z = rng.random((4, 5))
                args = {'fig': fig, 'title': 'a'}
                if k in ('surf', 'contour'):
                    args['x'] = np.arange(5) + 1.
                rtn = f(z, **args)
                mon.ok('wrapped', (rtn is None) == nb, sig=k, rtn=rtn)
                cf = fig if fig is not None else plt.gcf()
                a = cf.axes[0]
                mon.ok('wrapped', a.get_title() == 'a' and
                       (len(a.lines) + len(a.images) +
                        len(a.collections)) > 0, sig=k)
                if nb:
                    mon.ok('wrapped', shown == [], sig=k + '/show')
                del shown[:]
    finally:
        for k in names:
            setattr(plot, k, keep[k])
        util.in_notebook, util.in_ipython = inn, ini
        matplotlib.figure.Figure.show = show
        if had:
            plot.get_ipython = old
        else:
            del plot.get_ipython
