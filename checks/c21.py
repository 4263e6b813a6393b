"""Saving and loading reproduces the surface in every writable format."""
import io
from fractions import Fraction
from .common import H, flatten, topo
NOTE = 'numbers cross the file boundary as unique stand-ins (symx/sio.py); the declared precision of the format is modelled as a bounded rounding. Time stamps and compression libraries run natively'

E32 = Fraction(1, 10 ** 6)      # float32 storage
PAT = [[0, 3, 7], [10, 1, 4]]


def buffer_or_path(env, kind, suffix):
    if kind == 'buffer':
        return io.BytesIO()
    return env.path('f' + suffix)


def roundtrip(env, s, kind, suffix, load_format=True, **kw):
    S = env.pkg('surfalize').Surface
    before = [row[:] for row in env.rows(s.data)]
    t = buffer_or_path(env, kind, suffix)
    if kind == 'buffer':
        s.save(t, format=suffix, **kw)
        t = io.BytesIO(t.getvalue())
        r = S.load(t, format=suffix) if load_format else S.load(t)
    else:
        s.save(t, **kw)
        r = S.load(t)
    env.eqs('the saved surface is unchanged', s.data, flatten(before))
    return r


def same(env, r, z, steps, eps, zscale=None, seps=None, abs_eps=None):
    ny, nx = len(z), len(z[0])
    if not env.concrete('size', tuple(r.data.shape) == (ny, nx), f'{r.data.shape}'):
        return
    env.concrete('sizes', (r.size.x, r.size.y) == (nx, ny))
    for n, a, b in (('step_x', r.step_x, steps[0]), ('step_y', r.step_y, steps[1])):
        env.close(n, a, b, seps if seps is not None else eps, b)
    got = env.rows(r.data)
    n = ny * nx
    for i in range(ny):
        for j in range(nx):
            k = i * nx + j
            if n <= 3000 or k % 53 == 0 or min(k, n - k, k % 4096, -k % 4096) < 5:
                env.close(f'height {i},{j}', got[i][j], z[i][j], eps, zscale)


def usable(env, r):
    """the loaded heights can be edited and evaluated"""
    env.le('evaluates', r.Sz(), r.Sz())
    r[0, 0] = 5
    env.eq('editable', env.rows(r.data)[0][0], 5)


def data(env, mode, nan=()):
    """heights: arbitrary numbers or a pattern with an arbitrary scale and offset"""
    if mode == 'free':
        z = env.grid('z', 2, 3, nan=nan, lo=-10 ** 4, hi=10 ** 4)
        lo = hi = None
    else:
        f = env.real('fac', Fraction(1, 10 ** 4), 10 ** 3)
        o = env.real('off', -10 ** 3, 10 ** 3) if mode == 'offset' else 0
        z = [[env.nan() if (i, j) in nan else f * PAT[i][j] + o for j in range(3)] for i in range(2)]
    return z


def steps_(env):
    return env.real('sx', Fraction(1, 10 ** 3), 100), env.real('sy', Fraction(1, 10 ** 3), 100)


def simple(env, suffix, kind, mode, nan=(), eps=E32, seps=None, range_scale=False, edit=True, **kw):
    z = data(env, mode, nan)
    st = steps_(env)
    s = env.surface(z, *st)
    r = roundtrip(env, s, kind, suffix, **kw)
    zs = None
    if range_scale:
        m = [x for i, q in enumerate(z) for j, x in enumerate(q) if (i, j) not in nan]
        zs = env.max(m) - env.min(m) + env.max([env.abs(x) for x in m])
    same(env, r, z, st, eps, zs, seps)
    if edit:
        e = flatten(env.rows(r.data))
        if not nan:
            usable(env, r)


def shapes(env, suffix, ny, nx, eps=E32, range_scale=False, **kw):
    """orientation and order of the data points for other sizes"""
    f = env.real('fac', Fraction(1, 1000), 1000)
    k = [[(i * 5 + j * 3 + i * j) % 17 + (1 if i + j else 0) * 2 + min(i, 300) for j in range(nx)] for i in range(ny)]
    v = {x: f * x for r in k for x in r}
    z = [[v[x] for x in r] for r in k]
    st = steps_(env)
    r = roundtrip(env, env.surface(z, *st), 'buffer', suffix, **kw)
    same(env, r, z, st, eps, f * max(v) if range_scale else None)


def magnitude(env, suffix, power, eps=E32, **kw):
    """heights and step sizes of any order of magnitude"""
    f = env.real('fac', 1, 30) * Fraction(10) ** power
    z = [[f * (v - 3) for v in r] for r in PAT]
    st = env.real('sx', 1, 10) * Fraction(10) ** (power // 2), env.real('sy', 1, 10) * Fraction(10) ** (power // 3)
    r = roundtrip(env, env.surface(z, *st), 'buffer', suffix, **kw)
    same(env, r, z, st, eps, 10 * f)


def twice(env, suffix, eps, range_scale=False, **kw):
    """a loaded surface can be saved again; a second surface in the same process is not mixed up"""
    z = data(env, 'scale')
    st = steps_(env)
    r = roundtrip(env, env.surface(z, *st), 'buffer', suffix, **kw)
    r.center(inplace=True)
    q = roundtrip(env, r, 'buffer', suffix, **kw)
    m = env.mean(flatten(z))
    zs = env.max(flatten(z)) if range_scale else env.max(flatten(z))
    same(env, q, [[x - m for x in row] for row in z], st, eps * 4, zs)


def constant(env, suffix, eps=E32, nan=False, **kw):
    c = env.choice('sign', [-1, 0, 1]) * env.real('c', Fraction(1, 10 ** 6), 1000)
    z = [[c] * 3, [c, env.nan() if nan else c, c]]
    st = steps_(env)
    r = roundtrip(env, env.surface(z, *st), 'buffer', suffix, **kw)
    same(env, r, z, st, eps)


def layers(env, compression, names, read=True):
    """image layers in the native format"""
    import numpy as np
    S = env.pkg('surfalize').Surface
    z = data(env, 'scale')
    st = steps_(env)
    s = env.surface(z, *st)
    Image = env.pkg('surfalize.image').Image
    L = {}
    for k, n in enumerate(names):
        a = np.arange(6 * (1 if k % 2 == 0 else 3), dtype='uint8' if k < 2 else 'uint16').reshape((2, 3) if k % 2 == 0 else (2, 3, 3)) + k
        L[n] = a
        s.image_layers[n] = Image(a.copy())
    b = io.BytesIO()
    s.save(b, format='.sflz', compression=compression)
    r = S.load(io.BytesIO(b.getvalue()), format='.sflz', read_image_layers=read)
    same(env, r, z, st, E32, env.max(flatten(z)))
    env.concrete('names of the image layers', sorted(r.get_image_layer_names()) == (sorted(names) if read else []), str(r.get_image_layer_names()))
    if read:
        for n, a in L.items():
            g = r.image_layers[n].data
            env.concrete(f'image layer {n}', tuple(g.shape) == a.shape and g.dtype == a.dtype, f'{g.shape} {g.dtype}')
            env.eqs(f'image layer {n}', g, a.ravel().tolist())
    # without the layers, and without the metadata
    plain = io.BytesIO()
    env.surface(z, *st).save(plain, format='.sflz', compression=compression)
    for kw in (dict(save_image_layers=False), dict(save_image_layers=False, write_metadata=False)):
        b = io.BytesIO()
        s.save(b, format='.sflz', compression=compression, **kw)
        env.concrete('a file without layers is that of the surface alone', len(b.getvalue()) == len(plain.getvalue()), f'{len(b.getvalue())} {len(plain.getvalue())}')
        r = S.load(io.BytesIO(b.getvalue()), format='.sflz', read_image_layers=True)
        same(env, r, z, st, E32, env.max(flatten(z)))
        env.concrete('no layers unless asked for', r.get_image_layer_names() == [], str(r.get_image_layer_names()))
    env.concrete('layers of the surface itself', sorted(s.get_image_layer_names()) == sorted(names), str(s.get_image_layer_names()))


def offset_position(env, suffix, **kw):
    """writing to a buffer and reading it back without giving the format; the position of the buffer is left alone"""
    z = data(env, 'scale')
    st = steps_(env)
    s = env.surface(z, *st)
    S = env.pkg('surfalize').Surface
    b = io.BytesIO()
    s.save(b, format=suffix, **kw)
    raw = b.getvalue()
    c = io.BytesIO(raw)
    r1 = S.load(c, format=suffix)
    env.concrete('buffer position after loading', c.tell() == 0, str(c.tell()))
    r2 = S.load(c, format=suffix)
    env.eqs('loading the same buffer twice', r2.data, r1.data)
    env.concrete('buffer unchanged', c.getvalue() == raw)
    r3 = S.load(io.BytesIO(raw))
    env.eqs('found by its contents', r3.data, r1.data)
    env.eq('found by its contents: step_x', r3.step_x, r1.step_x)


FORMATS = [('.al3d', {}), ('.sdf', {}), ('.sdf', {'binary': False}), ('.sflz', {}), ('.sur', {}), ('.sur', {'compressed': True}), ('.tmd', {})]


def tag(sfx, kw):
    return sfx + ''.join(f' {k}={v}' for k, v in kw.items())


def harnesses(tier):
    hs = []
    T = tier == 'thorough'
    for sfx, kw in FORMATS:
        rs = sfx in ('.sflz', '.sur') or kw.get('binary') is False
        free = sfx in ('.al3d', '.tmd')
        n = tag(sfx, kw)
        for kind in ('buffer', 'path'):
            hs.append(H(f'{n} {kind}', simple, suffix=sfx, kind=kind, mode='scale', range_scale=rs, time=60, bounds='2x3 pattern times an arbitrary scale 1e-4..1e3, arbitrary steps', **kw))
        hs.append(H(f'{n} offset', simple, suffix=sfx, kind='buffer', mode='free' if free else 'offset', range_scale=rs, time=60, max_paths=600, bounds='2x3 arbitrary heights' if free else '2x3 pattern, arbitrary scale and offset', **kw))
        if sfx != '.sflz':
            hs.append(H(f'{n} missing', simple, suffix=sfx, kind='buffer', mode='scale', nan=((0, 1), (1, 2)), range_scale=rs, time=60, bounds='2x3, two points not measured', **kw))
        for power in (-15, -12, -7, 5):
            hs.append(H(f'{n} 1e{power}', magnitude, suffix=sfx, power=power, time=60, bounds='2x3 pattern, scale within a factor of 30', **kw))
        for ny, nx in ((1, 4), (4, 2), (5, 7), (2, 5), (1, 11), (3, 4), (3, 3), (2, 258), (260, 2)) + (((6, 2), (21, 1), (3, 10), (16, 2)) if T else ()):
            hs.append(H(f'{n} {ny}x{nx}', shapes, suffix=sfx, ny=ny, nx=nx, range_scale=rs, time=120, bounds=f'{ny}x{nx} pattern times an arbitrary scale', **kw))
        for ny, nx in ((1, 33000),) + (((9000, 2), (130, 140)) if T else ()):
            hs.append(H(f'huge {n} {ny}x{nx}', shapes, suffix=sfx, ny=ny, nx=nx, range_scale=rs, time=200, bounds=f'{ny}x{nx} pattern times an arbitrary scale', **kw))
        hs.append(H(f'{n} again', twice, suffix=sfx, eps=E32, range_scale=rs, time=60, bounds='2x3', **kw))
        hs.append(H(f'{n} buffer twice', offset_position, suffix=sfx, time=60, bounds='2x3', **kw))
        hs.append(H(f'{n} constant', constant, suffix=sfx, time=60, bounds='2x3 all equal', **kw))
        hs.append(H(f'{n} constant missing', constant, suffix=sfx, nan=True, time=60, bounds='2x3 all equal, one point not measured', **kw))
    for d in ('<u2', '<i4', '<i2', '<f8', '<f4', '>f8', '<u4'):
        eps = Fraction(1, 30000) if d[2] == '2' else E32
        hs.append(H(f'.sflz dtype={d}', simple, suffix='.sflz', kind='buffer', mode='scale', range_scale=True, time=60, eps=eps, seps=E32, bounds='2x3', dtype=d))
        hs.append(H(f'.sflz missing dtype={d}', simple, suffix='.sflz', kind='buffer', mode='scale', nan=((0, 1), (1, 2)), range_scale=True, time=60, eps=eps, seps=E32, bounds='2x3', dtype=d))
    for c in ('none', 'zlib', 'lzma'):
        hs.append(H(f'.sflz compression={c}', simple, suffix='.sflz', kind='buffer', mode='offset', range_scale=True, time=60, bounds='2x3', compression=c))
        hs.append(H(f'.sflz layers {c}', layers, compression=c, names=('Gray', 'RGB', 'Höhe', 'x'), time=60, bounds='2x3, four image layers'))
    hs.append(H('.sflz layers unread', layers, compression='zlib', names=('Gray', 'RGB'), read=False, time=60, bounds='2x3'))
    hs.append(H('.sur comment', simple, suffix='.sur', kind='buffer', mode='scale', range_scale=True, time=60, bounds='2x3', comment='Test µ 1'))
    hs.append(H('.sur compressed comment', simple, suffix='.sur', kind='buffer', mode='scale', range_scale=True, time=60, bounds='2x3', comment='Test µ 1', compressed=True))
    hs.append(H('.tmd comment', simple, suffix='.tmd', kind='buffer', mode='scale', time=60, bounds='2x3', comment='abc'))
    return hs
