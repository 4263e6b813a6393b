"""Command line: options select operations, convert writes every file, report prints the parameters of the processed surface."""
import itertools
import pathlib
from fractions import Fraction
from .common import H, small_bins, flatten
NOTE = 'commands are invoked through click; plotting and the PDF library are replaced by recorders; option values are concrete, heights arbitrary'
IDX = [(0, 1), (1, 2), (0, 0), (1, 0), (0, 2), (1, 1)]


def runner(env, *args):
    from click.testing import CliRunner
    cli = env.pkg('surfalize.cli').cli
    r = CliRunner().invoke(cli, [str(a) for a in args], catch_exceptions=True)
    if r.exception is not None and not isinstance(r.exception, SystemExit) and env.symbolic and type(r.exception).__module__.startswith('symx'):
        raise r.exception
    return r


def swap(env, obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    env.cleanup.append(lambda: setattr(obj, name, old))


def folder(env):
    return pathlib.Path(env.path('x')).parent


def heights(env, kind):
    if kind == 'affine':
        a, c = env.real('a', Fraction(1, 2), 4), env.real('c', -50, 50)
        return [[c + a * v for v in r] for r in [[2, -5, 9, 40], [4, 6, 0, 1], [3, 8, 7, -2]]]
    if kind == 'cancelling':
        a = env.real('a', Fraction(1, 2), 4)
        return [[a * v for v in r] for r in [[0, 1, -1, 0], [2, 0, -2, 0], [0, 0, 1, -1]]]
    z = env.grid('z', 3, 4, lo=-100, hi=100)
    if kind == 'holes':
        z[0][1] = z[2][3] = env.nan()
    return z


OPTS = {
    'level': (['--level'], lambda s: s.level()), 'l': (['-l'], lambda s: s.level()),
    'center': (['--center'], lambda s: s.center()), 'c': (['-c'], lambda s: s.center()),
    'zero': (['--zero'], lambda s: s.zero()), 'z': (['-z'], lambda s: s.zero()),
    'fill': (['--fill-nonmeasured'], lambda s: s.fill_nonmeasured()), 'fn': (['-fn'], lambda s: s.fill_nonmeasured()),
    'highpass': (['--highpass', '2'], lambda s: s.filter('highpass', 2)), 'hp': (['-hp', '1.5'], lambda s: s.filter('highpass', 1.5)),
    'lowpass': (['--lowpass', '2'], lambda s: s.filter('lowpass', 2)), 'lp': (['-lp', '1.5'], lambda s: s.filter('lowpass', 1.5)),
    'bandpass': (['--bandpass', '1', '3'], lambda s: s.filter('bandpass', 1, 3)), 'bp': (['-bp', '2', '4'], lambda s: s.filter('bandpass', 2, 4)),
    'threshold': (['--threshold', '10', '20'], lambda s: s.threshold((10, 20)).fill_nonmeasured()), 't': (['-t', '5', '30'], lambda s: s.threshold((5, 30)).fill_nonmeasured()),
    'remove-outliers': (['--remove-outliers', '1'], lambda s: s.remove_outliers(1).fill_nonmeasured()), 'ro': (['-ro', '2'], lambda s: s.remove_outliers(2).fill_nonmeasured()),
    'ro 0': (['-ro', '0'], lambda s: s.remove_outliers(0).fill_nonmeasured()), 't 0': (['-t', '0', '0'], lambda s: s.threshold((0, 0)).fill_nonmeasured()),
}
# order in which the operations are applied, whatever the order of the options
RANK = ['fill', 'fn', 'level', 'l', 'center', 'c', 'zero', 'z', 'threshold', 't', 't 0', 'remove-outliers', 'ro', 'ro 0', 'highpass', 'hp', 'lowpass', 'lp', 'bandpass', 'bp']


def shown(env, path, args):
    """surface that `show` displays, or None"""
    import inspect
    got = []
    sig = inspect.signature(env.pkg('surfalize.plotting').plot_3d)

    def plot(*a, **k):
        b = sig.bind(*a, **k).arguments
        env.concrete('shown in a window of its own', bool(b.get('interactive')))
        env.concrete('the window names the file', pathlib.Path(path).name in str(b.get('window_title')), str(b.get('window_title')))
        got.append(b['surface'] if 'surface' in b else a[0])
    plot.__signature__ = sig
    swap(env, env.pkg('surfalize.plotting'), 'plot_3d', plot)
    r = runner(env, 'show', path, '--plot-3d', *args)
    return r, got


def show(env, names, kind, swap_order=False):
    S = env.pkg('surfalize').Surface
    if kind == 'affine':
        small_bins(env, 9)
    z = heights(env, kind)
    p = folder(env) / 'f.sflz'
    env.surface(z, 1, 2).save(p, dtype='<f8')
    args = [OPTS[n][0] for n in names]
    if swap_order:
        args = args[::-1]
    r, got = shown(env, p, flatten(args))
    if not env.concrete('a surface is shown', r.exit_code == 0 and len(got) == 1, f'{r.output} {r.exception!r}'):
        return
    s = S.load(p)
    for n in sorted(names, key=RANK.index):
        s = OPTS[n][1](s)
    env.eqs('heights', got[0].data, s.data)
    env.eq('step_x', got[0].step_x, s.step_x)
    env.eq('step_y', got[0].step_y, s.step_y)
    env.eqs('file is left alone', S.load(p).data, flatten(z))


def flat_plot(env, names, kind, interactive=True):
    """without --plot-3d the processed surface is shown as an image, if anything can be shown"""
    import matplotlib
    import matplotlib.pyplot as plt
    S = env.pkg('surfalize').Surface
    z = heights(env, kind)
    p = folder(env) / 'f.sflz'
    env.surface(z, 1, 2).save(p, dtype='<f8')
    drawn, spatial, titles = [], [], []
    swap(env, matplotlib, 'get_backend', lambda *a, **k: 'QtAgg' if interactive else 'agg')
    swap(env, plt, 'get_backend', lambda *a, **k: 'QtAgg' if interactive else 'agg')
    swap(env, env.pkg('surfalize.plotting'), 'plot_3d', lambda s, *a, **k: spatial.append(s))
    swap(env, S, 'plot_2d', lambda self, *a, **k: drawn.append(env.flat(self.data)))
    swap(env, plt, 'show', lambda *a, **k: drawn.append('shown'))
    swap(env, plt, 'gcf', lambda: Anything(titles))
    r = runner(env, 'show', p, *flatten(OPTS[n][0] for n in names))
    env.concrete('nothing is shown in space', r.exit_code == 0 and not spatial, f'{r.output} {r.exception!r}')
    if not interactive:
        env.concrete('nothing to show on', 'shown' not in drawn)
        env.concrete('the user is told', bool(r.output.strip()))
        return
    if env.concrete('plotted, then shown', len(drawn) == 2 and drawn[1] == 'shown', str(len(drawn))):
        s = S.load(p)
        for n in sorted(names, key=RANK.index):
            s = OPTS[n][1](s)
        env.eqs('heights', drawn[0], s.data)
    env.concrete('the window names the file', any('f.sflz' in t for t in titles), str(titles))


class Anything:
    """stands for a figure with its window"""

    def __init__(self, log):
        self._log = log

    def __getattr__(self, n):
        return Anything(self._log)

    def __call__(self, *a, **k):
        self._log.extend(str(x) for x in a)
        return self


def exclusive(env):
    p = folder(env) / 'f.sflz'
    env.surface(heights(env, 'free'), 1, 1).save(p, dtype='<f8')
    for a, b in list(itertools.combinations(['highpass', 'lowpass', 'bandpass'], 2)) + [('zero', 'center')]:
        r, got = shown(env, p, OPTS[a][0] + OPTS[b][0])
        env.concrete(f'{a} and {b} are refused', r.exit_code != 0 and not got, r.output)
    for a in ('highpass', 'lowpass', 'bandpass'):
        r, got = shown(env, p, OPTS[a][0] + ['-l', '-c'])
        env.concrete(f'{a} alone is accepted', r.exit_code == 0 and len(got) == 1, r.output)
    r, got = shown(env, p.with_name('none.sur'), [])
    env.concrete('missing file', r.exit_code != 0 and not got, r.output)


WRITE = ['.sur', '.sdf', '.al3d', '.sflz', '.tmd']


def same(env, label, a, b, dt=None):
    import math
    if not env.concrete(f'{label}: size', tuple(a.data.shape) == tuple(b.data.shape), f'{a.data.shape} {b.data.shape}'):
        return
    eps = Fraction(1, 10 ** 4)
    zs = env.flat(b.data)
    for x, y in zip(env.flat(a.data), zs):
        env.close(f'{label}: heights', x, y, eps, 400)
    env.close(f'{label}: step_x', a.step_x, b.step_x, eps, 10)
    env.close(f'{label}: step_y', a.step_y, b.step_y, eps, 10)


def convert(env, out, fmt=None, source='.sflz', compressed=False, exists=False):
    """a single file"""
    S = env.pkg('surfalize').Surface
    a = env.real('a', 1, 10)
    z = [[a * v for v in r] for r in [[2, -5, 9, 10], [4, 6, 0, 1], [3, 8, 7, -2]]]
    d = folder(env)
    src, dst = d / ('f' + source), d / out
    kw = {'dtype': '<f8'} if source == '.sflz' else {}
    env.surface(z, 1, 2).save(src, **kw)
    before = src.read_bytes()
    if exists:
        env.surface([[1, 2], [3, 5]], 1, 1).save(dst)
    args = ['convert', src, dst] + (['--format', fmt] if fmt else []) + (['--compressed'] if compressed else [])
    r = runner(env, *args)
    if not env.concrete('converted', r.exit_code == 0 and dst.is_file(), f'{r.output} {r.exception!r}'):
        return
    t = S.load(dst, format=fmt if not dst.suffix else None)
    same(env, 'converted surface', t, S.load(src))
    env.concrete('source is left alone', src.read_bytes() == before)
    env.concrete('nothing else is written', sorted(x.name for x in d.iterdir()) == sorted([src.name, dst.name]), str(list(d.iterdir())))
    if dst.suffix.lower() == '.sur':
        head = dst.read_bytes()[:12]
        env.concrete('compressed on request only', (head == b'DSCOMPRESSED') == compressed, str(head))


def directory(env, fmt, compressed=False):
    """every supported file of a directory"""
    S = env.pkg('surfalize').Surface
    k = env.concint('k', 1, 3)
    d = folder(env)
    src, dst = d / 'in', d / 'deep' / ('out' if k == 1 else 'out.v2' if k == 2 else 'out.plu')
    src.mkdir()
    for j, n in enumerate(('a.sflz', 'b.sur', 'c.x.sdf', 'D.SUR')):
        env.surface([[j + 1, 2 * k, 3], [0, 5, 4 * k]], j + 1, 1).save(src / n)
    (src / 'note.txt').write_text('x')
    (src / 'sub').mkdir()
    env.surface([[1, 2], [3, 5]], 1, 1).save(src / 'sub' / 'e.sur')
    r = runner(env, 'convert', src, dst, *(['--format', fmt] if fmt else []), *(['--compressed'] if compressed else []))
    fmt = fmt or '.sur'
    if not env.concrete('converted', r.exit_code == 0 and dst.is_dir(), f'{r.output} {r.exception!r}'):
        return
    env.concrete('one output per file', sorted(x.name for x in dst.iterdir()) == sorted(n + fmt for n in ('a', 'b', 'c.x', 'D')), str(sorted(dst.iterdir())))
    for n in ('a.sflz', 'b.sur', 'c.x.sdf', 'D.SUR'):
        o = dst / (n.rpartition('.')[0] + fmt)
        if o.exists():
            same(env, n, S.load(o), S.load(src / n))
            if fmt == '.sur':
                env.concrete('compressed on request only', (o.read_bytes()[:12] == b'DSCOMPRESSED') == compressed)
    env.concrete('inputs are left', sorted(x.name for x in src.iterdir()) == sorted(['a.sflz', 'b.sur', 'c.x.sdf', 'D.SUR', 'note.txt', 'sub']))


def layers(env):
    """image layers are kept unless skipped"""
    P = env.pkg('surfalize')
    d = folder(env)
    import numpy as np
    s = env.surface([[1, 2, 3], [4, 5, 7]], 1, 1)
    Image = env.pkg('surfalize.image').Image
    s.image_layers = {'Gray': Image(np.arange(6, dtype='uint8').reshape(2, 3))}
    s.save(d / 'f.sflz', dtype='<f8')
    for skip in (False, True):
        r = runner(env, 'convert', d / 'f.sflz', d / f'g{skip}.sflz', *(['--skip-image-layers'] if skip else []))
        if env.concrete('converted', r.exit_code == 0, f'{r.output} {r.exception!r}'):
            t = P.Surface.load(d / f'g{skip}.sflz', read_image_layers=True)
            env.concrete(f'layers with skip={skip}', list(t.image_layers) == ([] if skip else ['Gray']), str(list(t.image_layers)))


def refused(env):
    d = folder(env)
    k = env.concint('k', 1, 2)
    env.surface([[1, 2 * k, 3], [4, 5, 7]], 1, 1).save(d / 'f.sflz', dtype='<f8')
    old = env.surface([[1, 2], [3, 5]], 1, 1)
    old.save(d / 'old.sdf')
    keep = (d / 'old.sdf').read_bytes()
    for args in (['f.sflz', 'g.vk4'], ['f.sflz', 'g.txt'], ['f.sflz', 'g', '-f', '.abc']):
        r = runner(env, 'convert', d / args[0], d / args[1], *args[2:])
        env.concrete(f'{args}: nothing written', not (d / args[1]).exists(), r.output)
    r = runner(env, 'convert', d, d / 'out', '-f', '.vk4')
    env.concrete('directory: nothing written', not (d / 'out').exists() or not list((d / 'out').iterdir()), r.output)
    r = runner(env, 'convert', d / 'f.sflz', d / 'old.sdf', '--compressed')
    env.concrete('compressed sdf is refused', r.exit_code != 0 and (d / 'old.sdf').read_bytes() == keep, r.output)
    r = runner(env, 'convert', d / 'none.sur', d / 'x.sur')
    env.concrete('missing input', r.exit_code != 0 and not (d / 'x.sur').exists(), r.output)


class Rec:
    """records the text of a PDF"""
    made = []

    def __init__(self, *a, **k):
        self.rows, self.texts, self.images, self.out = [], [], [], None
        Rec.made.append(self)

    def __getattr__(self, n):
        return lambda *a, **k: None
    font_size = 4

    def text(self, x, y, t):
        self.texts.append(t)

    def image(self, name, *a, **k):
        self.images.append(name.read() if hasattr(name, 'read') else b'3d' if isinstance(name, Img) else b'2d')

    def table(self, *a, **k):
        pdf = self

        class T:
            def __enter__(self): return self
            def __exit__(self, *a): return False

            def row(self, *a, **k):
                r = []
                pdf.rows.append(r)

                class Row:
                    def cell(self, t='', *a, **k): r.append(t)
                return Row()
        return T()

    def output(self, p, *a):
        self.out = str(p)


class Img:
    def save(self, to, *a, **k):
        to.write(b'3d')


def number(env, t):
    v = float(t)
    if env.symbolic:
        from symx import sio
        return env.num(sio.table().t.get(v, v))
    return v


def report(env, names, kind, periodic=False, where='file', look=False):
    import fpdf
    import matplotlib.pyplot as plt
    S = env.pkg('surfalize').Surface
    swap(env, fpdf, 'FPDF', Rec)
    drawn = []
    swap(env, plt, 'savefig', lambda to, *a, **k: to.write(b'2d'))
    swap(env, S, 'plot_2d', lambda self, *a, **k: drawn.append(('2d', env.flat(self.data))))
    swap(env, S, 'plot_3d', lambda self, *a, **k: (drawn.append(('3d', env.flat(self.data))), Img())[1])
    opened = []
    swap(env, env.pkg('surfalize.cli').subprocess, 'run', lambda a, *b, **k: opened.append(str(a[-1])))
    Rec.made = []
    if periodic:
        from .c26 import lift, pwave
        a, c = env.real('a', 2, 4), env.real('c', -5, 5)
        lift(env)
        z = [[c + a * pwave(env, 24, 2 * j, 1) for j in range(24)]] * 32
        small_bins(env, 9)
        # (not the subject) homogeneity of 2d cells is expensive
        swap(env, S, 'homogeneity', lambda self, *a, **k: Fraction(7, 8) if env.symbolic else .875)
        swap(env, S, 'roughness_parameters', lambda self, *a, **k: {n: (k + 1) * 1.25 for k, n in enumerate(['Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk'])})
    else:
        z = heights(env, kind)
        small_bins(env, 9)
        orig = S.roughness_parameters
        only = ['Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk']
        # the other parameters are not part of the report
        swap(env, S, 'roughness_parameters', lambda self, parameters=None: orig(self, parameters or only))
    d = folder(env)
    p = d / 'f.sflz'
    env.surface(z, 1, 1).save(p, dtype='<f8')
    n = 1
    if where == 'directory':
        n = 2
        env.surface([[3 * v for v in r] for r in z], 1, 1).save(d / 'g.SFLZ', dtype='<f8')
        (d / 'n.txt').write_text('x')
    r = runner(env, 'report', p if where == 'file' else d, *flatten(OPTS[n][0] for n in names), *(['-pp'] if periodic else []), *(['--open-after'] if look else []))
    if not env.concrete('report is made', r.exit_code == 0 and len(Rec.made) == n, f'{r.output} {r.exception!r}'):
        return
    env.concrete('reports are opened on request', sorted(opened) == sorted(str(p.out) for p in Rec.made) if look else not opened, str(opened))
    for pdf in Rec.made:
        q = d / pathlib.Path(pdf.out).name.removesuffix('.pdf')
        env.concrete('name of the report', str(q) + '.pdf' == pdf.out and q.exists(), pdf.out)
        env.concrete('title names the file', any(q.name in t for t in pdf.texts), str(pdf.texts))
        s = S.load(q)
        for m in sorted(names, key=RANK.index):
            s = OPTS[m][1](s)
        env.concrete('a flat and a spatial picture', sorted(i == b'3d' for i in pdf.images) == [False, True] and all(pdf.images), str(pdf.images))
        for kind in ('2d', '3d'):
            env.concrete(f'{kind} plots', sum(k == kind for k, _ in drawn) == n, str(len(drawn)))
            if n == 1:
                for k, v in drawn:
                    env.eqs('plotted heights', v, s.data)
        rows = {r[0]: r[1:] for r in pdf.rows if len(r) == 3}
        if periodic:
            want = {'Period': s.period(), 'Depth': s.depth()[0], 'Aspect ratio': s.aspect_ratio(), 'Homogeneity': s.homogeneity()} | s.roughness_parameters()
            units = {'Period': 'µm', 'Depth': 'µm', 'Aspect ratio': '', 'Homogeneity': ''}
        else:
            want, units = {k: getattr(s, k)() for k in ('Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk')}, {}
        env.concrete('rows', set(rows) == set(want), f'{set(rows)} for {set(want)}')
        for k, v in want.items():
            if k in rows:
                env.close(f'value of {k}', number(env, rows[k][0]), v, Fraction(1, 1000), 1)
                env.concrete(f'unit of {k}', rows[k][1] == units.get(k, 'µm'), rows[k][1])


def harnesses(tier):
    hs = []
    for n in OPTS:
        kind = 'cancelling' if n == 'ro 0' else 'affine' if n in ('threshold', 't', 't 0', 'remove-outliers', 'ro') else 'holes' if n in ('fill', 'fn') else 'free'
        hs.append(H(f'show {n}', show, time=60, names=[n], kind=kind, bounds='3x4, any heights'))
    combos = [('level', 'center'), ('fill', 'level'), ('level', 'zero'), ('fill', 'level', 'zero', 'lowpass'), ('level', 'threshold'), ('threshold', 'remove-outliers'), ('center', 'threshold', 'highpass'), ('fill', 'center', 'bandpass'),
              ('zero', 'remove-outliers', 'lowpass'), ('center', 'threshold'), ('center', 'remove-outliers'), ('zero', 'threshold'), ('zero', 'remove-outliers'), ('level', 'remove-outliers'),
              ('level', 'highpass'), ('zero', 'lowpass'), ('level', 'center', 'threshold', 'remove-outliers', 'lowpass')]
    for c in combos:
        kind = 'affine' if {'threshold', 'remove-outliers'} & set(c) else 'holes' if 'fill' in c else 'free'
        for sw in (False, True):
            hs.append(H(f'show {"+".join(c)}{" swapped" if sw else ""}', show, time=90, names=c, kind=kind, swap_order=sw, bounds='3x4, any heights' if kind != 'affine' else '3x4, any scale and offset of a pattern'))
    hs.append(H('show nothing', show, time=30, names=[], kind='holes', bounds='3x4'))
    for c, kind in (((), 'holes'), (('level',), 'free'), (('fill', 'zero', 'lowpass'), 'holes')):
        hs.append(H(f'show flat {"+".join(c)}', flat_plot, time=60, names=list(c), kind=kind, bounds='3x4, any heights'))
    hs.append(H('show flat nowhere', flat_plot, time=30, names=[], kind='free', interactive=False, bounds='3x4'))
    hs.append(H('exclusive', exclusive, time=60, bounds='all pairs'))
    for f in WRITE:
        hs.append(H(f'convert to {f}', convert, time=60, out='g' + f, bounds='3x4, any scale'))
        hs.append(H(f'convert to existing {f}', convert, time=60, out='g' + f, exists=True, source='.sur', bounds='3x4, any scale'))
        hs.append(H(f'convert to {f.upper()}', convert, time=60, out='g' + f.upper(), bounds='3x4, any scale'))
        hs.append(H(f'convert format {f}', convert, time=60, out='g', fmt=f, bounds='3x4, any scale'))
        hs.append(H(f'convert directory {f}', directory, time=60, fmt=f, bounds='four files'))
    hs.append(H('convert compressed', convert, time=60, out='g.sur', compressed=True, bounds='3x4, any scale'))
    hs.append(H('convert existing compressed', convert, time=60, out='g.sur', compressed=True, exists=True, bounds='3x4, any scale'))
    hs.append(H('convert directory', directory, time=60, fmt=None, bounds='four files'))
    hs.append(H('convert directory compressed', directory, time=60, fmt='.sur', compressed=True, bounds='four files'))
    hs.append(H('convert layers', layers, time=60, bounds='one layer'))
    hs.append(H('convert refused', refused, time=60, bounds='one file'))
    hs.append(H('report', report, time=90, names=[], kind='affine', bounds='3x4, any scale and offset'))
    hs.append(H('report level', report, time=90, names=['level'], kind='affine', look=True, bounds='3x4, any scale and offset'))
    hs.append(H('report threshold zero', report, time=90, names=['threshold', 'zero'], kind='affine', bounds='3x4, any scale and offset'))
    hs.append(H('report directory', report, time=90, names=['center'], kind='affine', where='directory', bounds='two files'))
    hs.append(H('report periodic', report, time=90, names=[], kind='affine', periodic=True, bounds='32x24, any amplitude and offset'))
    return hs
