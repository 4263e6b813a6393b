"""Cropping, zooming and slicing select the requested region, in physical units and pixels."""
from fractions import Fraction
from .common import H, flatten, bulk
NOTE = 'pixel offsets within the grid are solver variables; grid sizes fixed'
HALF = Fraction(45, 100)


def block(env, label, got, z, i0, i1, j0, j1, sx, sy):
    rows = env.rows(got.data)
    env.concrete(f'{label}: number of rows', len(rows) == i1 - i0 + 1, f'{len(rows)} != {i1 - i0 + 1}')
    env.concrete(f'{label}: number of columns', len(rows[0]) == j1 - j0 + 1, f'{len(rows[0])} != {j1 - j0 + 1}')
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            env.eq(f'{label}: selected heights', v, z[i0 + i][j0 + j])
    geometry(env, label, got, sx, sy)


def geometry(env, label, s, sx, sy):
    ny, nx = len(env.rows(s.data)), len(env.rows(s.data)[0])
    env.eq(f'{label}: step x', s.step_x, sx)
    env.eq(f'{label}: step y', s.step_y, sy)
    env.eq(f'{label}: width', s.width_um, sx * (nx - 1))
    env.eq(f'{label}: height', s.height_um, sy * (ny - 1))
    env.concrete(f'{label}: size', (int(s.size.y), int(s.size.x)) == (ny, nx))


def finish(env, label, s, r, z, inplace):
    if inplace:
        env.concrete(f'{label}: inplace', r is s)
    else:
        env.concrete(f'{label}: new object', r is not s)
        env.eqs(f'{label}: original untouched', s.data, z)
        n = len(env.rows(r.data)), len(env.rows(r.data)[0])
        r[0, 0] = 77
        r[n[0] - 1, n[1] - 1] = 78
        env.eqs(f'{label}: editing the result leaves the original alone', s.data, z)


def crop_units(env, ny, nx, inplace=False, jitter=True):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    a, b = env.choice('x', [(a, b) for a in range(nx) for b in range(a + 1, nx)])
    c, d = env.choice('y', [(a, b) for a in range(ny) for b in range(a + 1, ny)])
    e = [env.real(f'e{k}', -HALF, HALF) if jitter else 0 for k in range(4)]
    r = s.crop(((a + e[0]) * sx, (b + e[1]) * sx, (c + e[2]) * sy, (d + e[3]) * sy), inplace=inplace)
    # y runs upwards, the last row is y = 0
    block(env, 'crop', r, z, ny - 1 - d, ny - 1 - c, a, b, sx, sy)
    finish(env, 'crop', s, r, z, inplace)


def crop_px(env, ny, nx, inplace=False):
    z = env.grid('h', ny, nx, nan=[(0, 0)])
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    a, b = env.choice('x', [(a, b) for a in range(nx) for b in range(a, nx)])
    c, d = env.choice('y', [(a, b) for a in range(ny) for b in range(a, ny)])
    r = s.crop((a, b, c, d), in_units=False, inplace=inplace)
    block(env, 'crop', r, z, c, d, a, b, sx, sy)
    finish(env, 'crop', s, r, z, inplace)


def crop_outside(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    m = Fraction(55, 100)
    side = env.choice('side', [(0, -1), (1, 1), (2, -1), (3, 1), (0, 1), (2, 1)])
    n = nx if side[0] < 2 else ny
    box = [env.real('x0', 0, HALF), env.real('x1', nx - 1 - HALF, nx - 1), env.real('y0', 0, HALF), env.real('y1', ny - 1 - HALF, ny - 1)]
    out = env.real('out', m, 3)
    box[side[0]] = 0 - out if side[1] < 0 else n - 1 + out
    if side in ((0, 1), (2, 1)):
        box[side[0] + 1] = box[side[0]] + 1
    x0, x1, y0, y1 = box
    env.raises('a box that reaches outside of the surface is refused', lambda: s.crop((x0 * sx, x1 * sx, y0 * sy, y1 * sy)), ValueError)
    env.eqs('original untouched', s.data, z)
    env.raises('also inplace', lambda: s.crop((x0 * sx, x1 * sx, y0 * sy, y1 * sy), inplace=True), ValueError)
    env.eqs('original untouched', s.data, z)
    geometry(env, 'refused crop', s, sx, sy)


def crop_reversed(env, ny, nx):
    """a box whose right edge lies left of its left edge (or top below bottom) selects nothing"""
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    along = env.choice('along', ['x', 'y'])
    n = nx if along == 'x' else ny
    u, v = env.real('u', 0, n - 1), env.real('v', 0, n - 1)
    env.assume(u >= v + 1 + Fraction(5, 100))
    x0, x1, y0, y1 = (u, v, 0, 1) if along == 'x' else (0, 1, u, v)
    box = (x0 * sx, x1 * sx, y0 * sy, y1 * sy)
    env.raises('a reversed box is refused', lambda: s.crop(box), ValueError)
    env.raises('a reversed box is refused inplace', lambda: s.crop(box, inplace=True), ValueError)
    px = env.choice('px', [(2, 1, 0, 1), (1, 2, 1, 0), (2, 0, 2, 0)])
    env.raises('a reversed pixel box is refused', lambda: s.crop(px, in_units=False), ValueError)
    env.eqs('original untouched', s.data, z)
    geometry(env, 'refused crop', s, sx, sy)


def crop_outside_px(env, ny, nx):
    z = env.grid('h', ny, nx)
    s = env.surface(z, *env.steps())
    box = env.choice('box', [(-1, 1, 0, 1), (0, nx, 0, 1), (0, 1, -1, 1), (0, 1, 0, ny), (nx - 1, nx + 3, 0, ny - 1), (0, nx - 1, ny - 1, ny + 1)])
    env.raises('a pixel box that reaches outside of the surface is refused', lambda: s.crop(box, in_units=False), ValueError)


def zoom(env, ny, nx, f, inplace=False):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    if f is None:
        f = env.real('factor', 1, 3)
    r = s.zoom(f, inplace=inplace)
    rows = env.rows(r.data)
    my, mx = len(rows), len(rows[0])
    env.concrete('zoom: size', 1 <= my <= ny and 1 <= mx <= nx, f'{my} {mx}')
    env.check('zoom: rows', env.abs(my - ny / f) <= Fraction(1001, 1000), f'{my}')
    env.check('zoom: columns', env.abs(mx - nx / f) <= Fraction(1001, 1000), f'{mx}')
    # the block is centered within one pixel: find it from the values of a concrete-position grid
    cand = [(i, j) for i in range(ny - my + 1) for j in range(nx - mx + 1) if abs(2 * i - (ny - my)) <= 2 and abs(2 * j - (nx - mx)) <= 2]
    env.check('zoom: the result is a centered block of the surface', env.or_(*[env.and_(*[rows[p][q] == z[i + p][j + q] for p in range(my) for q in range(mx)]) for i, j in cand]))
    geometry(env, 'zoom', r, sx, sy)
    finish(env, 'zoom', s, r, z, inplace)


def zoom_out(env, n):
    """there is no block that is larger than the surface"""
    z = env.grid('h', n, n + 1)
    s = env.surface(z, *env.steps())
    p = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step'))
    f = env.real('factor', Fraction(-2), Fraction(99, 100))
    env.raises('a factor below one is refused', lambda: s.zoom(f), Exception)
    env.raises('a factor below one is refused for profiles', lambda: p.zoom(f, inplace=True), Exception)
    env.eqs('surface untouched', s.data, z)
    env.eqs('profile untouched', p.data, z[0])


def slicing(env, ny, nx):
    z = env.grid('h', ny, nx, nan=[(1, 1)])
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    S = slice
    k = env.choice('item', list(range(9)))
    item = [S(1, 3), (S(None), S(1, None)), (S(None, None, 2), S(None)), (S(None), S(None, None, 2)), (S(None, None, 2), S(None, None, 3)), S(None, None, 2), (S(1, None), S(None, -1)),
            (S(None, None, -1), S(None)), (S(None), S(None, None, -2))][k]
    r = s[item]
    iy, ix = item if isinstance(item, tuple) else (item, S(None))
    rr, cc = range(ny)[iy], range(nx)[ix]
    rows = env.rows(r.data)
    env.concrete('slice: shape', (len(rows), len(rows[0])) == (len(rr), len(cc)))
    for p, i in enumerate(rr):
        for q, j in enumerate(cc):
            env.eq('slice: heights', rows[p][q], z[i][j])
    geometry(env, 'slice', r, sx * abs(ix.step or 1), sy * abs(iy.step or 1))
    finish(env, 'slice', s, r, z, False)


def setitem(env, ny, nx):
    """editing single points or regions changes exactly those"""
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    v = env.real('v', -9, 9)
    i, j = env.choice('at', [(i, j) for i in range(ny) for j in range(nx)])
    s[i, j] = v
    env.eqs('point edit', s.data, [[v if (p, q) == (i, j) else z[p][q] for q in range(nx)] for p in range(ny)])
    s[:, j] = 1
    env.eqs('column edit', s.data, [[1 if q == j else z[p][q] for q in range(nx)] for p in range(ny)])
    geometry(env, 'edit', s, sx, sy)


def profile_crop(env, n, inplace=False, units=True):
    z = env.vec('z', n)
    st = env.pos('step')
    P = env.pkg('surfalize.profile').Profile
    p = P(env.array(z), st)
    a, b = env.choice('x', [(a, b) for a in range(n) for b in range(a + 1, n)])
    if units:
        e = [env.real(f'e{k}', -HALF, HALF) for k in range(2)]
        r = p.crop(((a + e[0]) * st, (b + e[1]) * st), inplace=inplace)
    else:
        r = p.crop((a, b), in_units=False, inplace=inplace)
    env.eqs('crop: selected heights', r.data, z[a:b + 1])
    env.eq('crop: step', r.step, st)
    env.eq('crop: length', r.length_um, st * (b - a))
    env.concrete('crop: object', (r is p) == inplace)
    if not inplace:
        env.eqs('original untouched', p.data, z)
        r[0] = 5
        env.eqs('editing the result leaves the original alone', p.data, z)
        env.eq('original length', p.length_um, st * (n - 1))


def profile_outside(env, n):
    z = env.vec('z', n)
    st = env.pos('step')
    p = env.pkg('surfalize.profile').Profile(env.array(z), st)
    x0, x1 = env.real('x0', -3, n + 2), env.real('x1', -3, n + 2)
    m = Fraction(55, 100)
    env.assume(env.or_(x0 <= -m, x1 >= n - 1 + m, x0 >= x1 + 1 + m))
    env.raises('an interval outside of the profile is refused', lambda: p.crop((x0 * st, x1 * st)), ValueError)
    env.eqs('original untouched', p.data, z)


def profile_zoom(env, n, f, inplace=False):
    z = env.vec('z', n)
    st = env.pos('step')
    p = env.pkg('surfalize.profile').Profile(env.array(z), st)
    r = p.zoom(f, inplace=inplace)
    v = env.flat(r.data)
    m = len(v)
    env.concrete('zoom: points', abs(m - n / f) <= 1.001 and 1 <= m <= n, f'{m}')
    cand = [i for i in range(n - m + 1) if abs(2 * i - (n - m)) <= 2]
    env.check('zoom: the result is a centered block', env.or_(*[env.and_(*[v[q] == z[i + q] for q in range(m)]) for i in cand]))
    env.eq('zoom: step', r.step, st)
    env.eq('zoom: length', r.length_um, st * (m - 1))
    env.concrete('zoom: object', (r is p) == inplace)
    if not inplace:
        r[0] = 5
        env.eqs('original untouched', p.data, z)


def harnesses(tier):
    hs = [H('crop units', crop_units, ny=3, nx=4, time=90, max_paths=2000, bounds='3x4, every box, corners anywhere within 0.45 pixels of a data point'),
          H('crop units inplace', crop_units, ny=3, nx=3, inplace=True, time=60, max_paths=2000, bounds='3x3'),
          H('crop pixels', crop_px, ny=4, nx=3, time=60, bounds='4x3, every box'), H('crop pixels inplace', crop_px, ny=3, nx=3, inplace=True, time=60, bounds='3x3'),
          H('crop outside', crop_outside, ny=3, nx=4, time=90, max_paths=4000, bounds='3x4, boxes reaching 0.55 to 3 pixels outside on one side or lying outside completely'), H('crop reversed', crop_reversed, ny=3, nx=3, time=90, max_paths=2000, bounds='3x3, every reversed box'), H('crop outside pixels', crop_outside_px, ny=3, nx=4, time=30, bounds='3x4, six boxes'),
          H('slice', slicing, ny=4, nx=5, time=60, bounds='4x5, nine slicings'), H('setitem', setitem, ny=2, nx=3, time=30, bounds='2x3'),
          H('profile crop', profile_crop, n=5, time=60, bounds='5 points, every interval'), H('profile crop inplace', profile_crop, n=4, inplace=True, time=60, bounds='4 points'),
          H('profile crop index', profile_crop, n=4, units=False, time=60, bounds='4 points'), H('profile outside', profile_outside, n=4, time=60, max_paths=2000, bounds='4 points'),
          H('profile zoom', profile_zoom, n=9, f=3, time=30, bounds='9 points'), H('profile zoom 2', profile_zoom, n=8, f=2, inplace=True, time=30, bounds='8 points'), H('profile zoom 3', profile_zoom, n=7, f=1.5, time=30, bounds='7 points')]
    hs += [H(f'zoom {f} {ny}x{nx}{" inplace" if ip else ""}', zoom, ny=ny, nx=nx, f=f, inplace=ip, time=30, bounds=f'{ny}x{nx}, factor {f}')
           for ny, nx, f, ip in ((4, 6, 2, False), (5, 7, 2, False), (6, 4, 1.5, False), (7, 5, 3, True), (5, 5, 1.25, True), (4, 5, 1, False))]
    hs += [H('zoom by any factor', zoom, ny=4, nx=5, f=None, time=90, max_paths=1000, bounds='4x5, any factor from 1 to 3'), H('zoom out', zoom_out, n=4, time=60, bounds='4x5, any factor below 0.99')]
    hs += [H(f'large zoom {f} {ny}x{nx}', bulk(zoom), ny=ny, nx=nx, f=f, inplace=ip, time=90, bounds=f'{ny}x{nx} pattern, factor {f}')
           for ny, nx, f, ip in ((20, 31, 2, False), (270, 4, 1.5, True), (5, 300, 3, False), (40, 33, 1.1, False), (115, 110, 2, True))]
    hs += [H('large slice', bulk(slicing), ny=21, nx=30, time=60, bounds='21x30 pattern, nine slicings'), H('large slice wide', bulk(slicing), ny=4, nx=270, time=60, bounds='4x270 pattern, nine slicings'),
           H('huge slice', bulk(slicing), ny=110, nx=115, time=120, bounds='110x115 pattern, nine slicings'), H('huge profile zoom', bulk(profile_zoom), n=12000, f=2, time=60, bounds='12000 points'),
           H('large profile zoom', bulk(profile_zoom), n=290, f=3, time=30, bounds='290 points')]
    if tier == 'thorough':
        hs += [H('T crop units', crop_units, ny=5, nx=5, time=900, max_paths=9000, bounds='5x5'), H('T crop outside', crop_outside, ny=5, nx=6, time=600, max_paths=9000, bounds='5x6')]
        hs += [H(f'T zoom {n} {f}', zoom, ny=n, nx=n + 2, f=f, time=60, bounds=f'{n}x{n + 2}, factor {f}') for n in range(3, 12) for f in (1.1, 1.5, 2, 2.5, 3)]
    return hs
