"""Plots: commands.  Figures are observed through the artists on their axes."""
import os
os.environ.setdefault('MPLBACKEND', 'Agg')
import matplotlib
matplotlib.use('Agg')
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import LogNorm
from matplotlib.container import StemContainer
from matplotlib.image import AxesImage
from matplotlib.lines import Line2D
from core import dec, enc
from ops import op, Raw, VIEWS, LIGHTS
from doatools.plotting import plot_array, plot_coarray, plot_spectrum
from doatools.plotting.plot_spectrum import plot_spectrum_1d, plot_spectrum_2d


class Fig:
    def __init__(self, kinds):
        self.fig = plt.figure()
        self.axes = [self.fig.add_subplot(1, len(kinds), i + 1, projection='3d' if k == 3 else None) for i, k in enumerate(kinds)]


VIEWS['Fig'] = lambda x: {'t': 'fig', 'n': len(x.axes)}
LIGHTS['Fig'] = lambda x: 'fig'


@op
def mkfig(h, c): return Fig(c['dims'])


def F(x):
    return enc(np.asarray(np.ma.filled(x, np.nan), dtype=float))


def desc(x):
    """what an artist shows"""
    if isinstance(x, PathCollection):
        o = getattr(x, '_offsets3d', None)
        p = np.column_stack([np.asarray(np.ma.filled(v, np.nan), dtype=float) for v in o]) if o is not None else x.get_offsets()
        return {'k': 'points', 'label': str(x.get_label()), 'xy': F(p), 'n': int(len(p))}
    if isinstance(x, Line2D):
        return {'k': 'line', 'label': str(x.get_label()), 'xy': F(x.get_xydata()), 'drawn': x.get_linestyle() not in ('None', '', ' ')}
    if isinstance(x, StemContainer):
        s = x.stemlines
        segs = s.get_segments() if isinstance(s, LineCollection) else [ln.get_xydata() for ln in s]
        return {'k': 'stem', 'label': str(x.get_label()), 'xy': F(x.markerline.get_xydata()), 'segs': F(np.array(segs).reshape(-1, 4))}
    if isinstance(x, AxesImage):
        return {'k': 'image', 'data': F(x.get_array()), 'extent': F(np.array(x.get_extent())), 'origin': x.origin, 'log': isinstance(x.norm, LogNorm), 'cmap': x.get_cmap().name}
    return {'k': type(x).__name__}


def leaves(x):
    if isinstance(x, StemContainer):
        s = x.stemlines
        return [x.markerline, x.baseline] + ([s] if isinstance(s, LineCollection) else list(s))
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in leaves(y)]
    return [x]


def data_artists(ax):
    return list(ax.lines) + list(ax.collections) + list(ax.images) + list(ax.patches)


def state(ax):
    leg = ax.get_legend()
    return ([(id(x), repr(desc(x)), getattr(x, 'get_color', lambda: 0)() if isinstance(x, Line2D) else 0) for x in data_artists(ax)],
            ax.get_xlabel(), ax.get_ylabel(), ax.get_yscale(), ax.get_xscale(), ax.get_title(), None if leg is None else [t.get_text() for t in leg.get_texts()])


def record(h, c, call, array_plot):
    f = h[c['f']] if 'f' in c else None
    ax = f.axes[c['i']] if f else None
    before = [state(a) for a in f.axes] if f else []
    old = set(id(x) for x in data_artists(ax)) if f else set()
    figs = set(plt.get_fignums())
    shown = []
    show, plt.show = plt.show, lambda *a, **k: shown.append(1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            res = call(ax)
        except Exception:
            for n in set(plt.get_fignums()) - figs:
                plt.close(n)
            raise
        finally:
            plt.show = show
    rax, cont = (res, None) if array_plot else (res if isinstance(res, tuple) and len(res) == 2 else (None, None))
    new = set(plt.get_fignums()) - figs
    r = Raw(t='plot', newfigs=len(new), shown=len(shown))
    if f:
        r['ax'] = rax is ax
        after = [state(a) for a in f.axes]
        r['others'] = all(after[i] == before[i] for i in range(len(f.axes)) if i != c['i'])
        r['kept'] = all(x in after[c['i']][0] for x in before[c['i']][0])
        r['size'] = enc(None)
    else:
        r['ax'] = rax is not None and len(new) == 1 and rax.figure.number in new
        r['others'] = r['kept'] = True
        r['size'] = F(rax.figure.get_size_inches()) if r['ax'] else enc(None)
    if not r['ax']:
        rax = ax
    if rax is None:
        return r
    drawn = [x for x in data_artists(rax) if id(x) not in old]
    if array_plot:
        items = drawn
    else:
        items = cont
        if not isinstance(cont, list):
            items = []
        items = [x[0] if isinstance(x, list) and len(x) == 1 else x for x in items]
    mine = set(id(y) for x in items for y in leaves(x))
    r['extra'] = [type(x).__name__ for x in drawn if id(x) not in mine]
    r['absent'] = sum(1 for x in items for y in leaves(x) if not any(y is z for z in drawn))
    r['items'] = [desc(x) for x in items]
    leg = rax.get_legend()
    r['legend'] = [] if leg is None else [t.get_text() for t in leg.get_texts()]
    r['xlabel'], r['ylabel'] = rax.get_xlabel(), rax.get_ylabel()
    r['d3'] = rax.name == '3d'
    r['zlabel'] = rax.get_zlabel() if r['d3'] else ''
    r['ylog'] = rax.get_yscale() == 'log'
    r['ylow'] = enc(float(rax.get_ylim()[0]))
    r['yhigh'] = enc(float(rax.get_ylim()[1]))
    r['lims'] = F(np.array([rax.get_xlim(), rax.get_ylim()] + ([rax.get_zlim()] if r['d3'] else [])))
    for n in new:
        plt.close(n)
    return r


@op
def pltarr(h, c):
    k = {}
    if 'err' in c:
        k['show_location_errors'] = c['err']
    f = plot_coarray if c['co'] else plot_array
    return record(h, c, lambda ax: f(h[c['a']], ax, **k) if ax is not None else f(h[c['a']], **k), True)


@op
def pltsp(h, c):
    sp = [dec(x, h) for x in c['sp']]
    kind = c['form']
    if kind == 'single':
        sp = sp[0]
    elif kind == 'tuple':
        sp = tuple(sp)
    elif kind == 'dict':
        sp = dict(zip(c['labels'], sp))
    elif kind == 'other':
        sp = None
    k = {}
    for a, b in (('est', 'estimates'), ('truth', 'ground_truth')):
        if a in c:
            k[b] = h[c[a]]
    for a, b in (('log', 'use_log_scale'), ('discrete', 'discrete'), ('swap', 'swap_axes'), ('cmap', 'color_map')):
        if a in c:
            k[b] = c[a]
    if 'size' in c:
        k['figsize'] = tuple(c['size'])
    fn = plot_spectrum
    if c.get('direct'):
        low = plot_spectrum_1d if h[c['g']].ndim == 1 else plot_spectrum_2d
        fn = lambda sp, g, ax, **k: (ax, low(sp, g, ax, **k))
    return record(h, c, lambda ax: fn(sp, h[c['g']], **(dict(k, ax=ax) if ax is not None else k)), False)


@op
def pltclose(h, c):
    plt.close(h[c['f']].fig)
