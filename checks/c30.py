"""Plots show the data at its physical position: heights, extents, labels, colour range, cropping of the spectrum, 3d scene."""
import io
import math
import os
import sys
import types
from fractions import Fraction
from .common import H, flatten, small_bins, integers, wide
from .c29 import swap
NOTE = 'matplotlib, PIL output and pyvista are replaced by recorders that keep what they are given; heights, step sizes and scale arbitrary'


class Rec:
    """records every call; anything asked of it is another recorder"""

    def __init__(self, name='', log=None):
        self.__dict__.update(_name=name, _log=[] if log is None else log, _attr={})

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self._attr.setdefault(n, Rec(f'{self._name}.{n}' if self._name else n, self._log))

    def __setattr__(self, n, v):
        self._log.append((f'{self._name}.{n}='.lstrip('.'), (v,), {}))
        self._attr[n] = v

    def __call__(self, *a, **k):
        self._log.append((self._name, a, k))
        return Rec(self._name + '()', self._log)

    def __iter__(self):
        return iter([Rec(self._name + '[0]', self._log)])

    def __getitem__(self, i):
        return Rec(f'{self._name}[{i}]', self._log)

    def __float__(self):
        return 1.0


class Fig(Rec):
    def __init__(self, log):
        super().__init__('fig', log)

    def savefig(self, f, *a, **k):
        self._log.append(('savefig', (f,) + a, k))
        if hasattr(f, 'write'):
            f.write(png(20, 30))


class Ax(Rec):
    def __init__(self, log, fig=None, name='ax'):
        super().__init__(name, log)
        self.__dict__['figure'] = fig or Fig(log)
        self.figure.__dict__['colorbar'] = lambda *a, **k: log.append(('colorbar', a, k))

    def get_figure(self, *a, **k):
        return self.figure

    def imshow(self, *a, **k):
        self._log.append((f'{self._name}.imshow', a, k))
        return 'image'

    def twiny(self, *a, **k):
        return Ax(self._log, self.figure, 'ax2')

    def set(self, **k):
        for n, v in k.items():
            getattr(self, 'set_' + n)(*v) if isinstance(v, (tuple, list)) and n.endswith('lim') else getattr(self, 'set_' + n)(v)
        return []

    def get_subplotspec(self):
        return types.SimpleNamespace(get_geometry=lambda: (1, 1, 0, 0))


class Cmap:
    def __init__(self, name):
        self.name, self.bad, self.copies = name, None, 0

    def copy(self):
        c = Cmap(self.name)
        c.copies, c.bad = self.copies + 1, self.bad
        return c

    __copy__ = copy

    def set_bad(self, color=None, *a, **k):
        self.bad = color

    def with_extremes(self, *, bad=None, **k):
        c = self.copy()
        c.bad = bad
        return c


def png(w, h, box=None):
    from PIL import Image
    im = Image.new('RGB', (w, h), (255, 255, 255))
    if box:
        for x in range(box[0], box[2]):
            for y in range(box[1], box[3]):
                im.putpixel((x, y), (10, 20, 30))
    b = io.BytesIO()
    im.save(b, 'PNG')
    return b.getvalue()


def modules(env):
    env.pkg('surfalize.surface'), env.pkg('surfalize.profile'), env.pkg('surfalize.plotting')
    if env.symbolic:
        return list(env.L.modules.values())
    return [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'surfalize' and m is not None]


def replaced(env, owner, name, new):
    """replace owner.name and every reference to it held by the package"""
    real = getattr(owner, name)
    for m in modules(env):
        for n, v in list(vars(m).items()):
            if v is real:
                swap(env, m, n, new)
    swap(env, owner, name, new)


def stage(env):
    """recorders instead of matplotlib; returns the log"""
    import matplotlib
    import matplotlib.cm
    import matplotlib.colors
    import matplotlib.patches
    import matplotlib.pyplot as plt
    import mpl_toolkits.axes_grid1 as grid1
    log = Log()
    log.env = env

    def subplots(*a, **k):
        log.append(('subplots', a, k))
        ax = Ax(log)
        return ax.figure, ax
    fake = lambda n: (lambda *a, **k: (log.append((n, a, k)), Rec(n, log))[1])
    replaced(env, plt, 'subplots', subplots)
    replaced(env, plt, 'get_cmap', lambda name=None, *a: name if isinstance(name, Cmap) else Cmap(name))
    replaced(env, plt, 'show', fake('show'))
    replaced(env, plt, 'close', fake('close'))
    replaced(env, plt, 'colorbar', fake('plt.colorbar'))
    replaced(env, plt, 'plot', lambda *a, **k: (log.append(('plt.plot', a, k)), ['handle'])[1])
    for owner, n in ((plt, 'Polygon'), (plt, 'Rectangle'), (plt, 'Normalize')):
        replaced(env, owner, n, (lambda n: lambda *a, **k: (n, a, k))(n))
    for owner, n in ((matplotlib.patches, 'Polygon'), (matplotlib.patches, 'Rectangle'), (matplotlib.colors, 'Normalize')):
        replaced(env, owner, n, (lambda n: lambda *a, **k: (n, a, k))(n))
    sm = lambda *a, **k: (log.append(('ScalarMappable', a, k)), Rec('sm', log))[1]
    replaced(env, matplotlib.cm, 'ScalarMappable', sm)
    replaced(env, grid1, 'make_axes_locatable', lambda ax: types.SimpleNamespace(append_axes=lambda *a, **k: (log.append(('append_axes', a, k)), Rec('cax', log))[1]))
    return log


class Log(list):
    env = None


class Calls(list):
    def __getitem__(self, i):
        if isinstance(i, int) and not -len(self) <= i < len(self) and self.env is not None:
            self.env.concrete(f'{self.name} is called', False)
        return super().__getitem__(i)


def of(log, name):
    c = Calls((a, k) for n, a, k in log if n == name)
    c.name, c.env = name, getattr(log, 'env', None)
    return c


def axes(env, given, log):
    return {'ax': Ax(log)} if given else {}


def same(env, label, got, want):
    g, w = env.flat(got), want
    env.concrete(label + ': number of values', len(g) == len(w), f'{len(g)} of {len(w)}')
    for a, b in zip(g, w):
        if env.isnan(b):
            env.concrete(label + ': non-measured', bool(env.isnan(a)))
        else:
            env.eq(label, a, b)


def nums(env, label, got, want):
    got = env.flat(got) if hasattr(got, 'dtype') else list(got)
    env.concrete(label + ': count', len(got) == len(want), f'{len(got)} of {len(want)}')
    for a, b in zip(got, want):
        env.eq(label, env.num(a), b)


def label(env, log, axis, *parts):
    t = [a[0] for a, k in of(log, axis)]
    env.concrete(f'{axis} names quantity and unit', bool(t) and all(p in t[-1] for p in parts), str(t))


def topography(env, ny, nx, nan=(), given=False, show=False):
    log = stage(env)
    z = env.grid('h', ny, nx, nan=nan)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    kw = axes(env, given, log)
    lim = {} if show or not env.flag('limits') else dict(vmin=env.real('lo', -3, 0), vmax=env.real('hi', 1, 3))
    cbar = None if show else env.choice('colorbar', [None, True, False])
    save = not show and env.flag('save')
    args = dict(kw, cmap='viridis', maskcolor='red')
    if show:
        s.show(**args)
        env.concrete('shown', len(of(log, 'show')) == 1)
    else:
        fig, ax = s.plot_2d(**args, **lim, **({} if cbar is None else {'show_cbar': cbar}), **({'save_to': 'x.png'} if save else {}))
        if given:
            env.concrete('drawn on the given axes', ax is kw['ax'] and fig is ax.figure)
        sv = of(log, 'savefig')
        env.concrete('saved when asked for', len(sv) == save and (not save or str(sv[0][0][0]) == 'x.png'))
    env.concrete('no further figure', len(of(log, 'subplots')) == (0 if given else 1))
    im = of(log, 'ax.imshow')
    env.concrete('one image', len(im) == 1)
    a, k = im[0]
    same(env, 'image shows the heights', a[0], flatten(z))
    env.concrete('orientation of the image', k.get('origin', 'upper') == 'upper')
    nums(env, 'extent in micrometres', k['extent'], [0, s.width_um, 0, s.height_um])
    env.eq('width', s.width_um, sx * (nx - 1))
    env.eq('height', s.height_um, sy * (ny - 1))
    env.concrete('colour map', getattr(k.get('cmap'), 'name', None) == 'viridis' and k['cmap'].bad == 'red', str(k.get('cmap')))
    for n in ('vmin', 'vmax'):
        if lim:
            env.eq(f'{n} as given', env.num(k[n]), lim[n])
        else:
            env.concrete(f'{n} left to the data', k.get(n) is None)
    env.concrete('colour bar', len(of(log, 'colorbar')) == (cbar is not False))
    for a, k in of(log, 'colorbar'):
        env.concrete('colour bar of the image with unit', 'image' in a + tuple(k.values()) and 'z' in k['label'] and 'µm' in k['label'])
    label(env, log, 'ax.set_xlabel', 'x', 'µm')
    label(env, log, 'ax.set_ylabel', 'y', 'µm')
    lg = of(log, 'ax.legend')
    env.concrete('missing points explained', len(lg) == bool(nan))
    if nan:
        env.concrete('colour of the missing points', of(log, 'plt.plot')[-1][1].get('c', of(log, 'plt.plot')[-1][1].get('color')) == 'red')
    env.eqs('surface untouched', s.data, z)


def layers(env):
    log = stage(env)
    import numpy as np
    z = env.grid('h', 2, 3)
    s = env.surface(z, *env.steps())
    I = env.pkg('surfalize.image').Image
    s.image_layers = {'RGB': I(np.arange(18, dtype='uint8').reshape(2, 3, 3)), 'Grayscale': I(np.arange(6, dtype='uint8').reshape(2, 3)),
                      'Laser': I(np.arange(6, dtype='uint16').reshape(2, 3) * 13000), 'Intensity': I(np.arange(6).reshape(2, 3) / 4)}
    for i, (n, cm) in enumerate((('RGB', None), ('Grayscale', 'gray'), ('Laser', 'gray'), ('Intensity', 'gray'))):
        s.plot_2d(layer=n, ax=Ax(log))
        a, k = of(log, 'ax.imshow')[-1]
        env.concrete(f'{n}: image of the layer', np.array_equal(a[0], s.image_layers[n].data) and np.shape(a[0]) == s.image_layers[n].data.shape)
        env.concrete(f'{n}: colours', k.get('cmap') == cm or getattr(k.get('cmap'), 'name', '-') == cm, str(k.get('cmap')))
        nums(env, f'{n}: extent', k['extent'], [0, s.width_um, 0, s.height_um])
        env.concrete(f'{n}: no colour bar', not of(log, 'colorbar'))
    s.show(layer='Grayscale', ax=Ax(log))
    env.concrete('show layer', np.array_equal(of(log, 'ax.imshow')[-1][0][0], s.image_layers['Grayscale'].data) and len(of(log, 'show')) == 1)
    env.raises('unknown layer', lambda: s.plot_2d(layer='Color', ax=Ax(log)), ValueError)
    before = len(of(log, 'colorbar'))
    s.plot_2d(layer='Laser', show_cbar=True, vmin=3, vmax=70, ax=Ax(log), save_to='l.png')
    k = of(log, 'ax.imshow')[-1][1]
    env.concrete('colour range of a layer', (k.get('vmin'), k.get('vmax')) == (3, 70), str(k))
    env.concrete('colour bar of a layer on request', len(of(log, 'colorbar')) == before + 1)
    env.concrete('layer saved', [str(a[0]) for a, k in of(log, 'savefig')] == ['l.png'])
    # holes of the topography are no holes of the image
    t = env.surface([[z[0][0], env.nan(), z[0][2]], z[1]], s.step_x, s.step_y)
    t.image_layers = dict(s.image_layers)
    for n in t.image_layers:
        t.plot_2d(layer=n, ax=Ax(log))
        env.concrete(f'{n}: no missing points', not of(log, 'ax.legend'))
    t.plot_2d(ax=Ax(log))
    env.concrete('missing points explained', len(of(log, 'ax.legend')) == 1)
    before = len(of(log, 'colorbar'))
    s.plot_2d(ax=Ax(log))
    env.concrete('topography has a colour bar by default', len(of(log, 'colorbar')) == before + 1)
    same(env, 'topography by default', of(log, 'ax.imshow')[-1][0][0], flatten(z))


def profile(env, n, nan=(), given=False, show=False):
    log = stage(env)
    z = env.vec('z', n, nan=nan)
    st = env.pos('step')
    p = env.pkg('surfalize.profile').Profile(env.array(z), st)
    if show:
        p.show()
        env.concrete('shown', len(of(log, 'show')) == 1)
    else:
        kw = axes(env, given, log)
        fig, ax = p.plot_2d(**kw)
        env.concrete('drawn on the given axes', not given or ax is kw['ax'])
    lines = of(log, 'ax.plot')
    env.concrete('one line', len(lines) == 1)
    x, y = lines[0][0][:2]
    same(env, 'ordinates', y, z)
    nums(env, 'abscissae', x, [st * i for i in range(n)])
    lim = of(log, 'ax.set_xlim')
    if lim:
        nums(env, 'range', lim[-1][0], [0, st * (n - 1)])
    label(env, log, 'ax.set_xlabel', 'x', 'µm')
    label(env, log, 'ax.set_ylabel', 'z', 'µm')


def correlation(env, ny, nx, given=False):
    log = stage(env)
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    cbar = env.flag('colorbar')
    kw = axes(env, given, log)
    save = env.flag('save')
    fig, ax = s.plot_autocorrelation(cmap='magma', show_cbar=cbar, **kw, **({'save_to': 'a.png'} if save else {}))
    env.concrete('saved when asked for', [str(a[0]) for a, k in of(log, 'savefig')] == ['a.png'] * save)
    env.concrete('drawn on the given axes', not given or ax is kw['ax'])
    a, k = of(log, 'ax.imshow')[0]
    m = env.mean(flatten(z))
    c = [[v - m for v in r] for r in z]
    want = []
    for dy in range(-(ny - 1), ny):
        for dx in range(-(nx - 1), nx):
            pr = [c[i][j] * c[i + dy][j + dx] for i in range(ny) for j in range(nx) if 0 <= i + dy < ny and 0 <= j + dx < nx]
            want.append(env.mean(pr))
    same(env, 'image shows the autocorrelation function', a[0], want)
    nums(env, 'extent: lags', k['extent'], [-sx * (nx - 1), sx * (nx - 1), -sy * (ny - 1), sy * (ny - 1)])
    env.concrete('colours', k.get('cmap') == 'magma' or getattr(k.get('cmap'), 'name', '') == 'magma')
    env.concrete('colour bar', len(of(log, 'colorbar')) == cbar and all('µm²' in k['label'] for a, k in of(log, 'colorbar')))
    label(env, log, 'ax.set_xlabel', 'x', 'µm', 'lag')
    label(env, log, 'ax.set_ylabel', 'y', 'µm', 'lag')


def spectrum(env, z, hanning=False, subtract=True):
    ny, nx = len(z), len(z[0])
    m = env.mean(flatten(z)) if subtract else 0
    F = Fraction if env.symbolic else float
    wy = [F(0.5 - 0.5 * math.cos(2 * math.pi * i / (ny - 1))) if hanning else 1 for i in range(ny)]
    wx = [F(0.5 - 0.5 * math.cos(2 * math.pi * i / (nx - 1))) if hanning else 1 for i in range(nx)]
    d = [[(z[i][j] - m) * wy[i] * wx[j] for j in range(nx)] for i in range(ny)]
    out = {}
    for v in range(-(ny // 2), (ny + 1) // 2):
        for u in range(-(nx // 2), (nx + 1) // 2):
            re = env.sum(d[i][j] * F(math.cos(2 * math.pi * (u * j / nx + v * i / ny))) for i in range(ny) for j in range(nx))
            im = env.sum(d[i][j] * F(math.sin(2 * math.pi * (u * j / nx + v * i / ny))) for i in range(ny) for j in range(nx))
            out[v, u] = re * re + im * im
    return out


def fourier(env, ny, nx, cx=None, cy=None, hanning=False, subtract=True, log_=False, adjust=False, given=False, how='surface'):
    """cx, cy: highest frequency shown as a share of one frequency step"""
    log = stage(env)
    if env.symbolic:
        from symx import arr
        swap(env, arr, 'ROUNDED_DFT', [True])
    pat = [[(3 * i * i + 5 * j * j * j + i * j) % 11 - 4 for j in range(nx)] for i in range(ny)]
    a, c = env.pos('a', Fraction(1, 2), 4), env.real('c', -5, 5)
    z = [[a * v + c for v in r] for r in pat]
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    wx, wy = s.width_um, s.height_um
    num = (lambda x: x) if env.symbolic else float
    kw = axes(env, given, log)
    if cx is not None:
        kw['fxmax'] = num(cx / wx if env.symbolic else float(cx) / wx)
    if cy is not None:
        kw['fymax'] = num(cy / wy if env.symbolic else float(cy) / wy)
    kw.update(log=log_, hanning=hanning, subtract_mean=subtract, adjust_colormap=adjust, cmap='plasma')
    if how == 'surface':
        fig, ax = s.plot_fourier_transform(**kw, save_to='f.png')
        env.concrete('saved', [str(a[0]) for a, k in of(log, 'savefig')] == ['f.png'])
    else:
        fig, ax = s.get_fourier_transform().plot(**kw)
    env.concrete('drawn on the given axes', not given or ax is kw['ax'])
    im, k = of(log, 'ax.imshow')[0]
    rows = env.rows(im[0])
    if log_:
        more = stage(env)
        s.get_fourier_transform().plot(**dict(kw, log=False, ax=Ax(more)))
        lin = env.rows(of(more, 'ax.imshow')[0][0][0])
    lo_x, hi_x = (-(nx // 2), (nx - 1) // 2)
    lo_y, hi_y = (-(ny // 2), (ny - 1) // 2)
    if cx is not None:
        hi_x = min(round(cx), hi_x)
        lo_x = -hi_x
    if cy is not None:
        hi_y = min(round(cy), hi_y)
        lo_y = -hi_y
    env.concrete('displayed part', (len(rows), len(rows[0])) == (hi_y - lo_y + 1, hi_x - lo_x + 1), f'{len(rows)}x{len(rows[0])} instead of {hi_y - lo_y + 1}x{hi_x - lo_x + 1}')
    q = spectrum(env, z, hanning, subtract)
    F = Fraction if env.symbolic else float
    tol = F(1e-6)
    for i, v in enumerate(range(lo_y, hi_y + 1)):
        for j, u in enumerate(range(lo_x, hi_x + 1)):
            g, w = env.num(rows[i][j]), q[v, u]
            if log_:
                if env.symbolic:
                    import symx.core as core
                    y = core.log10_arg(g)
                    if y is None and g.is_const():
                        y = core.R.c(Fraction(10 ** float(g.cval())))
                    if y is None:
                        raise core.Unsupported('not a decadic logarithm')
                    env.check('logarithm of the amplitude', env.abs(y - env.num(lin[i][j])) <= Fraction(2, 10 ** 10))
                else:
                    env.check('logarithm of the amplitude', abs(g - math.log10(float(lin[i][j]) + 1e-10)) <= 1e-9)
            else:
                env.check('amplitude at its frequency', env.and_(g >= 0, g * g - w <= tol * a * a * 1000, g * g - w >= -tol * a * a * 1000))
    e = list(k['extent'])
    for got, want, w in zip(e, (lo_x, hi_x, hi_y, lo_y), (wx, wx, wy, wy)):
        d = env.num(got) * w - want
        env.check('axes give the frequencies', env.and_(d <= F(0.6), d >= -F(0.6)))
    env.check('direction of the axes', env.and_(env.num(e[0]) <= env.num(e[1]), env.num(e[3]) <= env.num(e[2])))
    if cx is not None:
        env.eq('cropped symmetrically in x', env.num(e[0]), -env.num(e[1]))
    if cy is not None:
        env.eq('cropped symmetrically in y', env.num(e[2]), -env.num(e[3]))
    if not adjust:
        env.concrete('colour range left to the data', k.get('vmin') is None and k.get('vmax') is None)
    else:
        fl = [env.num(v) for r in rows for v in r]
        env.eq('colours start at the mean', env.num(k['vmin']), env.mean(fl))
        if not log_:
            top = env.num(k['vmax']) / F(0.7) / a
            env.check('colours end at 0.7 of the maximum', env.and_(*[top >= v / a - F(1e-6) for v in fl], env.or_(*[top <= v / a + F(1e-6) for v in fl])))
    label(env, log, 'ax.set_xlabel', 'Frequency', 'µm', '-1')
    label(env, log, 'ax.set_ylabel', 'Frequency', 'µm', '-1')


def polar(env, given=False, step=None):
    log = stage(env)
    from .c08 import wave
    a, c = wide(env, 'a'), env.real('c', -5, 5)
    z = [[a * (3 * u + v) + c for u, v in zip(r, q)] for r, q in zip(wave(env, 6, 6, 1, 2), wave(env, 6, 6, 2, 0))]
    s = env.surface(z, *env.choice('steps', [(1, 1), (0.5, 2.0)]))
    args = {} if step is None else {'angle_step': step}
    s.plot_angular_power_spectrum(**axes(env, given, log), **args)
    angles, power = s.get_fourier_transform().angular_power_spectrum(**args)
    lines = [v for n in ('ax.plot', 'fig.add_subplot().plot') for v in of(log, n)]
    env.concrete('one line', len(lines) == 1)
    x, y = lines[0][0][:2]
    n = len(env.flat(angles))
    env.concrete('number of angles', n == 180 // (step or 1) and len(env.flat(x)) == n)
    for g, w in zip(env.flat(x), range(0, 180, step or 1)):
        env.close('angle in radian', env.num(g), (Fraction if env.symbolic else float)(math.radians(w)), 1e-9, 1)
    same(env, 'power', y, env.flat(power))
    env.concrete('direction', all(list(k.values()) + list(a) in ([1], [-1][:0] or [1]) for a, k in of(log, 'ax.set_theta_direction')))


def ratio_curve(env, x, y, order, a, c):
    F = Fraction if env.symbolic else float
    N, srt = len(order), sorted(order)
    env.concrete('curve from 0 to 100 %', len(x) == len(y) >= 2)
    for p, q in zip(x, y):
        t = Fraction(p.cval() if env.symbolic else p)
        r = (1 - t / 100) * (N - 1)
        i = min(max(int(r), 0), N - 2)
        env.close('material ratio curve', (env.num(q) - c) / a, F(srt[i] + (r - i) * (srt[i + 1] - srt[i])), 1e-6, 1)


def abbott(env, order, profile=False, given=False, nbars=3):
    """material ratio curve and histogram"""
    from .common import ordered
    small_bins(env, 11)
    log = stage(env)
    a, c = wide(env), env.real('c', -5, 5)
    z = [a * v + c for v in order]
    o = env.pkg('surfalize.profile').Profile(env.array(z), 1) if profile else env.surface([z[:len(z) // 2], z[len(z) // 2:]], 1, 1)
    how = env.choice('how', ['curve', 'object', 'study'])
    N, lo, hi = len(z), min(order), max(order)
    curve = o.get_abbott_firestone_curve()
    if how == 'study':
        fig, ax = (o.plot_functional_parameter_study(save_to='s.png') if not given else curve.visual_parameter_study(ax=Ax(log)))
    elif how == 'object':
        fig, ax = o.plot_abbott_curve(nbars=nbars, save_to='s.png')
    else:
        fig, ax = curve.plot(nbars=nbars, **axes(env, given, log))
    env.concrete('saved when asked for', len(of(log, 'savefig')) == (how == 'object' or how == 'study' and not given))
    if how == 'study':
        nums(env, 'ratio axis', of(log, 'ax.set_xlim')[-1][0], [0, 100])
        nums(env, 'height axis', of(log, 'ax.set_ylim')[-1][0], [a * lo + c, a * hi + c])
        mr1, mr2, pk, vk, k = curve.mr1(), curve.mr2(), curve.pk(), curve.vk(), curve.k()
        pkx, vkx = curve.pkx(), curve.vkx()
        up, dn = a * hi + c - pkx, a * lo + c + vkx
        lines = of(log, 'ax.plot')
        x, y = lines[0][0][:2]
        for p, q in zip(env.flat(x), env.flat(y)):
            env.eq('equivalence line', env.num(q), up - k * env.num(p) / 100, scale=10)
        near = lambda g, w: env.abs(env.num(g) - w) <= (0 if env.symbolic else 1e-6 * (1 + abs(w)))
        more = [(env.flat(p[0]) if hasattr(p[0], 'shape') else list(p[0]), env.flat(p[1]) if hasattr(p[1], 'shape') else list(p[1])) for p, _ in lines[1:]]
        curves = [l for l in more if len(l[0]) > 2]
        env.concrete('one curve', len(curves) == 1, str([len(l[0]) for l in more]))
        for xs, ys in curves:
            ratio_curve(env, xs, ys, order, a, c)
        upright = [l for l in more if len(l[0]) == 2]
        for what, m, w in (('mr1', mr1, up), ('mr2', mr2, dn)):
            env.check(f'{what} drawn', env.or_(*[env.and_(near(l[0][0], m), near(l[0][1], m), env.or_(near(l[1][0], w), near(l[1][1], w))) for l in upright]))
        tri = [p[0] for p, _ in of(log, 'ax.add_patch')]
        env.concrete('two triangles', len(tri) == 2 and all(t[0] == 'Polygon' for t in tri))
        for t, want in zip(tri, ([(0, up), (0, up + pk), (mr1, up)], [(100, dn), (100, dn - vk), (mr2, dn)])):
            for g, w in zip(t[1][0], want):
                env.eq('corner of a triangle: ratio', env.num(g[0]), w[0], scale=10)
                env.eq('corner of a triangle: height', env.num(g[1]), w[1], scale=10)
        hl = [env.num(p[0] if p else q['y']) for p, q in of(log, 'ax.axhline')]
        env.concrete('four levels', len(hl) == 4)
        for w in (dn, up, dn - vk, up + pk):
            env.check('level drawn', env.or_(*[env.abs(g - w) <= (0 if env.symbolic else 1e-6 * (1 + abs(w))) for g in hl]))
        label(env, log, 'ax.set_xlabel', 'ratio', '%')
        label(env, log, 'ax.set_ylabel', 'eight', 'µm')
        return
    bars = of(log, 'ax.barh')
    env.concrete('one histogram', len(bars) == 1)
    (pos, wid, *_), k = bars[0]
    pos, wid = env.flat(pos), env.flat(wid)
    env.concrete('number of bars', len(pos) == len(wid) == nbars)
    hgt = Fraction(hi - lo, nbars)
    cnt = [0] * nbars
    for v in order:
        cnt[min(int((v - lo) / hgt), nbars - 1)] += 1
    F = Fraction if env.symbolic else float
    for p, w in zip(pos, wid):
        opts = [env.and_(env.abs((env.num(p) - c) / a - F(lo + hgt * (2 * b + 1) / 2)) <= F(1e-6), env.abs(env.num(w) - F(Fraction(100 * cnt[b], N))) <= F(1e-6)) for b in range(nbars)]
        env.check('bar shows the share of its heights', env.or_(*opts))
    for b in range(nbars):
        env.check('every class has a bar', env.or_(*[env.abs((env.num(p) - c) / a - F(lo + hgt * (2 * b + 1) / 2)) <= F(1e-6) for p in pos]))
    env.eq('thickness of the bars', env.num(k['height']) / a, F(hgt))
    nums(env, 'height axis', of(log, 'ax.set_ylim')[-1][0], [a * lo + c, a * hi + c])
    nums(env, 'ratio axis', of(log, 'ax2.set_xlim')[-1][0], [0, 100])
    x, y = of(log, 'ax2.plot')[0][0][:2]
    x, y = env.flat(x), env.flat(y)
    ratio_curve(env, x, y, order, a, c)
    label(env, log, 'ax.set_xlabel', '%')
    label(env, log, 'ax.set_ylabel', 'z', 'µm')
    label(env, log, 'ax2.set_xlabel', 'atio', '%')


def textures(env, ny, nx, k, n):
    """drawing the profiles changes nothing"""
    from . import c26
    log = stage(env)
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    c26.lift(env, 0)
    m = math.lcm(ny, nx, 4)
    z = [[c + a * c26.pwave(env, m, k[0] * j * (m // nx) + k[1] * i * (m // ny), 1) for j in range(nx)] for i in range(ny)]
    sx = env.pos('sx', Fraction(1, 2), 2)
    s, t = env.surface(z, sx, sx), env.surface(z, sx, sx)
    which = env.choice('which', [[0], [1, 3], list(range(n))])
    d, e = s.depth(nprofiles=n, plot=which), t.depth(nprofiles=n)
    env.eq('depth', d[0], e[0])
    env.eq('deviation', d[1], e[1])
    env.concrete('one figure for each profile asked for', len(of(log, 'subplots')) == len(which))
    lines = [a for a, k in of(log, 'ax.plot')]
    rows = [list(r) for r in (z if not k[1] else zip(*z))]
    drawn = [[env.num(v) for v in env.flat(a[1])] for a in lines if len(a) > 1 and hasattr(a[1], 'shape') and len(env.flat(a[1])) == len(rows[0])]
    env.concrete('profile and fitted wave in each figure', len(drawn) == 2 * len(which), str(len(drawn)))
    step = (len(rows) - 1) // max(n - 1, 1)
    for i, w in enumerate(which):
        same(env, 'profile drawn', env.array(drawn[2 * i]), rows[w * step])
    boxes = [a[0] for a, k in of(log, 'ax.add_patch')]
    env.concrete('boxes are drawn', len(boxes) >= len(which))
    row = rows[0]
    for b in boxes:
        (x, y), w, h = b[1][:3]
        x, w = int(env.num(x)), int(env.num(w))
        env.concrete('box lies on the profile', 0 <= x and x + w <= len(row) - 1)
        part = row[x:min(x + w + 2, len(row))]
        env.eq('box starts at the lowest height', env.num(y), env.min(part))
        env.eq('box covers the heights', env.num(h), env.max(part) - env.min(part), scale=10)
    env.eqs('surface untouched', s.data, z)


def scene(env, ny, nx, lod=100, interactive=False, defaults=False):
    """3d rendering: points, colours, camera, size of the result"""
    log = stage(env)
    z = env.grid('h', ny, nx, lo=-40, hi=40)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    plotter = Rec('plotter', log)
    plotter.__dict__['screenshot'] = lambda f, *a, **k: f.write(png(100, 60, (20, 10, 81, 41)))
    plotter.__dict__['show'] = lambda *a, **k: log.append(('shown', a, k))
    point_data = {}

    class Grid:
        def __init__(self, x, y, zz):
            log.append(('grid', (x, y, zz), {}))
            self.point_data = point_data

        def __setitem__(self, k, v):
            point_data[k] = v
    pv = types.ModuleType('pyvista')
    pv.StructuredGrid = Grid
    pv.Plotter = lambda *a, **k: (log.append(('plotter', a, k)), plotter)[1]
    pv.Light = lambda *a, **k: (log.append(('light', a, k)), 'light')[1]
    old = sys.modules.get('pyvista')
    sys.modules['pyvista'] = pv
    env.cleanup.append(lambda: sys.modules.__setitem__('pyvista', old) if old is not None else sys.modules.pop('pyvista', None))
    va, ha, zoom = env.choice('vertical', [50, 20]), env.choice('horizontal', [0, 30]), env.choice('zoom', [1, 2])
    crop, bar = (True, True) if interactive else (env.flag('crop'), env.flag('bar'))
    kw = dict(vertical_angle=va, horizontal_angle=ha, zoom=zoom, cmap='jet', crop_white=crop, colorbar=bar, level_of_detail=lod, interactive=interactive, scale=3, cbar_pad=7)
    path = None
    if not interactive:
        path = env.path('t.png')
        kw['save_to'] = path
    lit = not defaults and env.flag('light')
    if lit:
        kw.update(light=0.7, light_position=(1, 2, 3), show_grid=False, perspective_projection=False)
    if interactive:
        kw['window_title'] = 'Title'
    if defaults:
        va, ha, zoom, crop, bar = 50, 0, 1, True, True
        kw = {'save_to': path}
    img = s.plot_3d(**kw)
    (x, y, zz), _ = of(log, 'grid')[0]
    if lod == 100:
        X, Y, Z = env.rows(x), env.rows(y), env.rows(zz)
        env.concrete('number of points', len(Z) == len(X) == len(Y) == ny and len(Z[0]) == nx)
        for i in range(ny):
            for j in range(nx):
                env.eq('point: x', env.num(X[i][j]), sx * j)
                env.eq('point: y', env.num(Y[i][j]), sy * (ny - 1 - i))
                env.eq('point: height', env.num(Z[i][j]), z[i][j])
        w, h, data = sx * (nx - 1), sy * (ny - 1), flatten(z)
    else:
        X, Y, Z = env.rows(x), env.rows(y), env.rows(zz)
        my, mx = len(Z), len(Z[0])
        f = Fraction(lod, 100)
        env.concrete('reduced number of points', abs(my - ny * f) <= 1 and abs(mx - nx * f) <= 1, f'{my}x{mx}')
        for got, n, m, st, what in ((env.num(X[0][mx - 1]) - env.num(X[0][0]), nx, mx, sx, 'x'), (env.num(Y[0][0]) - env.num(Y[my - 1][0]), ny, my, sy, 'y')):
            env.check(f'reduced plot keeps the size in {what} within a point', env.and_(got <= st * (n - 1) + st / f, got >= st * (n - 1) - st / f))
        for i, r in ((0, 0), (my - 1, ny - 1)):
            for j, q in ((0, 0), (mx - 1, nx - 1)):
                env.close('corner height', env.num(Z[i][j]), z[r][q], 1e-6, 50)
        w, h, data = env.num(X[0][mx - 1]), env.num(Y[0][0]), [env.num(v) for r in Z for v in r]
    if not env.concrete('points have a height to colour them by', 'height' in point_data):
        return
    col = env.flat(point_data['height'])
    Zf = [Z[i][j] for j in range(len(Z[0])) for i in range(len(Z))]
    env.concrete('number of colours', len(col) == len(Zf))
    for g, v in zip(col, Zf):
        env.eq('colour by the height of the point', env.num(g), env.num(v))
    pa = of(log, 'plotter')[0][1]
    env.concrete('window', bool(pa.get('off_screen')) == (not interactive))
    mesh = of(log, 'plotter.add_mesh')
    env.concrete('mesh coloured by height', len(mesh) == 1 and mesh[0][1].get('scalars') == 'height' and mesh[0][1].get('cmap') == 'jet')
    zs = of(log, 'plotter.set_scale')
    env.concrete('vertical scale', len(zs) == 1 and zs[0][1].get('zscale') == (1 if defaults else 3))
    (cam, target, up), = [a[0] for a, k in of(log, 'plotter.camera_position=')]
    F = Fraction if env.symbolic else float
    env.eq('looks at the centre: x', env.num(target[0]), w / 2)
    env.eq('looks at the centre: y', env.num(target[1]), h / 2)
    d = [env.num(p) - env.num(q) for p, q in zip(cam, target)]
    v, u = math.radians(va), math.radians(ha)
    dist = w * 2 / zoom
    for g, t in zip(d, (-math.sin(u) * math.cos(v), -math.cos(u) * math.cos(v), math.sin(v))):
        env.close('camera in the direction of the angles', g, dist * F(t), 1e-6, 100)
    env.concrete('projection', len(of(log, 'plotter.enable_parallel_projection')) == lit)
    lamp, added = of(log, 'light'), of(log, 'plotter.add_light')
    if env.concrete('one light', len(lamp) == 1 and [a for a, k in added] == [('light',)]):
        at = lamp[0][1].get('position')
        for g, w in zip(at, (1, 2, 3) if lit else cam):
            env.eq('light where asked, or at the camera', env.num(g), env.num(w))
        env.eq('intensity of the light', env.num(lamp[0][1].get('intensity')), env.num(Fraction(7 if lit else 3, 10)), tol=1e-9)
    gr = of(log, 'plotter.show_grid')
    env.concrete('grid as asked for', len(gr) == (not lit))
    for a, k in gr:
        env.concrete('axes of the grid', all(n in k.get(t, '') and 'µm' in k.get(t, '') for t, n in (('xtitle', 'X'), ('ytitle', 'Y'), ('ztitle', 'Z'))), str(k))
    env.concrete('upright', tuple(up) == (0, 0, 1))
    if interactive:
        env.concrete('shown in a window', len(of(log, 'shown')) == 1 and img is None)
        env.concrete('title of the window', [k.get('title') for a, k in of(log, 'shown')] == ['Title'])
        env.raises('no file from a window', lambda: s.plot_3d(interactive=True, save_to='q.png'), ValueError)
        return
    wid = 61 if crop else 100
    env.concrete('height of the picture', img.height == 60)
    env.concrete('margins removed', img.width == wid + (bar and 40 + (50 if defaults else 7)), f'{img.size}')
    env.concrete('picture shows the rendering', img.getpixel((0 if crop else 20, 10))[:3] == (10, 20, 30) and img.getpixel((60 if crop else 80, 40))[:3] == (10, 20, 30) and img.getpixel((0 if crop else 20, 9))[:3] == (255, 255, 255))
    from PIL import Image as PI
    if env.concrete('picture saved', os.path.exists(path)):
        env.concrete('saved picture', PI.open(path).size == img.size)
    if bar:
        norms = [k for a, k in of(log, 'ScalarMappable')]
        nk = norms[0]['norm']
        env.eq('colour bar starts at the lowest height', env.num(nk[2]['vmin']), env.min(data))
        env.eq('colour bar ends at the highest height', env.num(nk[2]['vmax']), env.max(data))
    env.eqs('surface untouched', s.data, z)


def pictures(env):
    """image layers: description, grayscale test, saved file"""
    import numpy as np
    Im = env.pkg('surfalize.image').Image
    from PIL import Image as PI
    v = env.int_('v', 0, 255)
    w = env.int_('w', 0, 255)
    px = [[v, v, v], [w, w, w]]
    arr = env.iarray([[0]])
    g = [v, 10, 20]
    eq = env.and_(*(x == y for x, y in zip([v, v], [10, 20]))) if False else None
    if env.symbolic:
        from symx.arr import SymArray
        from symx.core import R
        mk = lambda flat: SymArray.from_list([R.of(x) for x in flat], (1, 2, 3), np.dtype('int64'))
    else:
        mk = lambda flat: np.array(flat, dtype='uint8').reshape(1, 2, 3)
    env.check('equal channels are grayscale', env.truth(Im.is_grayscale(mk([v, v, v, w, w, w]))))
    r = env.truth(Im.is_grayscale(mk([v, v, v, 7, w, 7])))
    env.check('one deviating channel is a colour', env.iff(r, w == 7) if hasattr(env, 'iff') else r == env.truth(w == 7))
    r = env.truth(Im.is_grayscale(mk([v, v, w, 3, 3, 3])))
    env.check('last channel counts', r == env.truth(w == v))


def plain(env, rows):
    """plots with an argument left out show what its documented default shows"""
    small_bins(env, 11)
    if env.symbolic:
        from symx import arr
        swap(env, arr, 'ROUNDED_DFT', [True])
    a, c = env.pos('a', 2, 4), env.real('c', -5, 5)
    z = [[a * v + c for v in r] for r in rows]
    new = lambda: env.surface(z, 1, 1)
    prof = lambda: env.pkg('surfalize.profile').Profile(env.array(flatten(z)), 1)
    ft, abf = (lambda: new().get_fourier_transform()), (lambda: new().get_abbott_firestone_curve())
    four = dict(log=True, hanning=False, subtract_mean=True, cmap='inferno', adjust_colormap=True)
    cases = [('spectrum of the surface', lambda: new().plot_fourier_transform(subtract_mean=True), lambda: new().plot_fourier_transform(**four)),
             ('spectrum', lambda: ft().plot(subtract_mean=True), lambda: ft().plot(**four)),
             ('angular spectrum', lambda: ft().plot_angular_power_spectrum(), lambda: ft().plot_angular_power_spectrum(angle_step=1)),
             ('angular spectrum of the surface', lambda: new().plot_angular_power_spectrum(), lambda: new().plot_angular_power_spectrum(angle_step=1)),
             ('material ratio of the surface', lambda: new().plot_abbott_curve(), lambda: new().plot_abbott_curve(nbars=20)),
             ('material ratio of the profile', lambda: prof().plot_abbott_curve(), lambda: prof().plot_abbott_curve(nbars=20)),
             ('material ratio', lambda: abf().plot(), lambda: abf().plot(nbars=20)),
             ('topography', lambda: new().plot_2d(), lambda: new().plot_2d(cmap='jet', maskcolor='black', layer='Topography', show_cbar=True)),
             ('autocorrelation', lambda: new().plot_autocorrelation(), lambda: new().plot_autocorrelation(cmap='jet', show_cbar=True))]
    k = env.choice('plot', list(range(len(cases))))
    what, f, g = cases[k]
    drawn = []
    for h in (f, g):
        log = stage(env)
        h()
        drawn.append([(n, p, q) for n, p, q in log if n.split('.')[-1] in ('imshow', 'plot', 'barh', 'colorbar', 'savefig', 'set_bad', 'show')])
    x, y = drawn
    env.concrete(f'{what}: something drawn', len(x) > 0)
    if not env.concrete(f'{what}: same drawing calls', [n for n, *_ in x] == [n for n, *_ in y], f'{[n for n, *_ in x]} {[n for n, *_ in y]}'):
        return

    def values(v):
        if hasattr(v, 'dtype') and hasattr(v, 'shape'):
            return env.flat(v) if v.shape else [v]
        if isinstance(v, (list, tuple)):
            return [q for u in v for q in values(u)]
        return [v]
    for (n, p, q), (_, r, t) in zip(x, y):
        env.concrete(f'{what}: same settings', sorted(q) == sorted(t))
        for u, w in [*zip(p, r), *[(q[key], t[key]) for key in q if key in t]]:
            u, w = values(u), values(w)
            env.concrete(f'{what}: same amount', len(u) == len(w))
            for m, o in zip(u, w):
                if isinstance(o, (str, bool, type(None))):
                    env.concrete(f'{what}: same setting', m == o, f'{m} {o}')
                elif isinstance(o, Cmap):
                    env.concrete(f'{what}: same colours', (m.name, m.bad) == (o.name, o.bad), f'{m.name} {o.name}')
                elif isinstance(o, (Rec, Ax)):
                    env.concrete(f'{what}: same object', type(m) is type(o))
                else:
                    env.eq(what, env.num(m), env.num(o))


def harnesses(tier):
    hs = [H('surface', topography, ny=2, nx=3, time=40, bounds='2x3, any heights and steps'), H('surface given axes', topography, ny=3, nx=2, nan=((0, 1),), given=True, time=40, bounds='3x2, one missing point'),
          H('surface missing', topography, ny=2, nx=2, nan=((1, 0),), time=40, bounds='2x2, one missing point'), H('surface show', topography, ny=2, nx=3, show=True, time=30, bounds='2x3'),
          H('layers', layers, time=30, bounds='2x3 with two image layers'),
          H('profile', profile, n=4, time=30, bounds='4 points'), H('profile axes', profile, n=5, nan=(2,), given=True, time=30, bounds='5 points, one missing'), H('profile show', profile, n=3, show=True, time=30, bounds='3 points'),
          H('autocorrelation', correlation, ny=2, nx=3, time=40, bounds='2x3'), H('autocorrelation axes', correlation, ny=3, nx=2, given=True, time=40, bounds='3x2')]
    h = Fraction(1, 2)
    for k, (ny, nx, cx, cy, kw) in enumerate([(4, 6, None, None, {}), (6, 8, 2, None, {}), (5, 7, 2, 1, {}), (7, 5, None, 2, dict(given=True)), (5, 9, Fraction(13, 5), Fraction(7, 5), dict(how='curve')), (4, 5, Fraction(6, 5), None, dict(hanning=True)),
                                             (6, 4, 1, 1, dict(subtract=False)), (3, 5, 1, None, dict(log_=True)), (4, 4, None, 1, dict(adjust=True, log_=True)), (5, 5, 1, 2, dict(adjust=True)), (7, 9, 50, 50, {})]):
        hs.append(H(f'spectrum {k}', fourier, ny=ny, nx=nx, cx=cx, cy=cy, time=60, bounds=f'{ny}x{nx} pattern, any amplitude, offset and steps; shown up to {cx} / {cy} frequency steps', **kw))
    hs += [H('angular spectrum', polar, time=60, bounds='6x6, two waves'), H('angular spectrum axes', polar, given=True, step=5, time=60, bounds='6x6, two waves')]
    hs += [H('material ratio', abbott, order=(0, 3, 9, 1, 4, 12), time=60, bounds='2x3 pattern, any scale and offset', max_paths=600), H('material ratio axes', abbott, order=(5, 2, 0, 7, 1, 13, 6, 11), given=True, nbars=4, time=60, bounds='2x4 pattern', max_paths=600),
           H('material ratio profile', abbott, order=(0, 3, 9, 1, 4), profile=True, nbars=2, time=60, bounds='5 points', max_paths=600)]
    hs += [H('depth', textures, ny=24, nx=24, k=(3, 0), n=4, time=60, bounds='24x24 wave, any amplitude and offset'), H('depth rows', textures, ny=24, nx=24, k=(0, 3), n=5, time=60, bounds='24x24 wave')]
    hs += [H('scene', scene, ny=3, nx=4, time=60, bounds='3x4, any heights and steps', max_paths=100), H('scene reduced', scene, ny=8, nx=6, lod=50, time=60, bounds='8x6, half the points', max_paths=200), H('scene defaults', scene, ny=2, nx=3, defaults=True, time=60, bounds='2x3'), H('scene window', scene, ny=2, nx=3, interactive=True, time=60, bounds='2x3'),
           H('defaults', plain, rows=[[0, 3, 9, 1, 4, 12], [7, 2, 8, 5, 11, 6], [1, 10, 3, 14, 0, 9], [6, 2, 13, 4, 8, 5]], time=90, max_paths=200, bounds='4x6 pattern, any scale and offset'),
           H('pictures', pictures, time=30, bounds='two pixels, any values')]
    if tier == 'thorough':
        hs += [H(f'T spectrum {ny}x{nx}', fourier, ny=ny, nx=nx, cx=cx, cy=cy, time=400, bounds=f'{ny}x{nx} pattern') for ny, nx in ((8, 9), (11, 10), (12, 13)) for cx, cy in ((2, 3), (None, 1), (3, None))]
        hs += [H('T surface', topography, ny=6, nx=5, nan=((2, 3), (5, 0)), time=200, bounds='6x5'), H('T autocorrelation', correlation, ny=4, nx=5, time=300, bounds='4x5'), H('T scene', scene, ny=6, nx=7, time=300, max_paths=200, bounds='6x7'),
               H('T scene reduced', scene, ny=10, nx=13, lod=40, time=300, max_paths=300, bounds='10x13, 40 % of the points'), H('T profile', profile, n=20, nan=(3, 4), time=100, bounds='20 points')]
    return hs
