"""Rotation: quarter turns exactly, other angles on tilted planes; alignment turns the texture along the axis."""
from fractions import Fraction
import math
from .common import H, integers, bulk
NOTE = 'rotation maps of the stated sizes and angles; heights arbitrary (quarter turns) or any tilted plane / wave amplitude and offset'


def quarter(env, ny, nx, k, square=True, inplace=False):
    z = env.grid('h', ny, nx, lo=-50, hi=50)
    sx, sy = env.steps()
    if square:
        sy = sx
    s = env.surface(z, sx, sy)
    r = s.rotate(90 * k, inplace=inplace)
    env.concrete('object', (r is s) == inplace)
    q = [list(x) for x in z]
    for _ in range(k % 4):
        q = [list(c) for c in list(zip(*q))[::-1]]
    if not inplace:
        env.eqs('original untouched', s.data, z)
    rows = env.rows(r.data)
    my, mx = len(rows), len(rows[0])
    Y, X = len(q), len(q[0])
    # largest centred box of the original aspect ratio
    f = 1 if k % 2 == 0 else min(Fraction(Y, ny), Fraction(X, nx))
    ey, ex = math.floor(ny * f), math.floor(nx * f)
    env.concrete('size', ey - 2 <= my <= ey + 1 and ex - 2 <= mx <= ex + 1 and my <= Y and mx <= X, f'{my}x{mx} of {ey}x{ex}')
    t = Fraction(1, 10 ** 6) if env.symbolic else 1e-6
    alt = []
    for oy in range(Y - my + 1):
        for ox in range(X - mx + 1):
            if abs(2 * oy - (Y - my)) <= 2 and abs(2 * ox - (X - mx)) <= 2:
                alt.append(env.and_(*[env.and_(rows[i][j] - q[oy + i][ox + j] <= t, rows[i][j] - q[oy + i][ox + j] >= -t) for i in range(my) for j in range(mx)]))
    env.check('heights are the turned ones', env.or_(*alt))
    wx, wy = (sx, sy) if k % 2 == 0 else (sy, sx)
    env.close('step x', r.step_x, wx, Fraction(1, 10 ** 6), wx)
    env.close('step y', r.step_y, wy, Fraction(1, 10 ** 6), wy)
    env.concrete('missing points', not env.truth(r.has_missing_points))


def plane(env, ny, nx, angle, tol=Fraction(30, 100), inner=Fraction(8, 100)):
    """a tilted plane stays a plane; its gradient turns counterclockwise by the angle; nothing from outside leaks in"""
    a, b, c = env.real('a', -2, 2), env.real('b', -2, 2), env.real('c', -5, 5)
    env.assume(env.or_(a >= 1, a <= -1, b >= 1, b <= -1))
    sx = env.pos('sx')
    # y runs upwards, so it falls with the row
    z = [[c + a * (j - (nx - 1) / Fraction(2)) - b * (i - (ny - 1) / Fraction(2)) for j in range(nx)] for i in range(ny)]
    if not env.symbolic:
        z = [[float(v) for v in r] for r in z]
    s = env.surface(z, sx, sx)
    r = s.rotate(angle)
    env.close('step x', r.step_x, sx, Fraction(1, 200), sx)
    env.close('step y', r.step_y, sx, Fraction(1, 200), sx)
    co, si = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    F = Fraction if env.symbolic else float
    ga, gb = a * F(co) - b * F(si), a * F(si) + b * F(co)
    rows = env.rows(r.data)
    my, mx = len(rows), len(rows[0])
    # size of the largest centred box with the aspect ratio of the surface inside the turned surface
    ac, as_ = abs(co), abs(si)
    f = min(nx / (nx * ac + ny * as_), ny / (nx * as_ + ny * ac))
    env.concrete('size', f * ny - 3.5 <= my <= f * ny + 1 and f * nx - 3.5 <= mx <= f * nx + 1, f'{my}x{mx} of {f * ny:.1f}x{f * nx:.1f}')
    env.concrete('aspect ratio', abs(my * nx - mx * ny) <= 1.5 * max(nx, ny), f'{my}x{mx}')
    for i in range(my):
        for j in range(mx):
            e = rows[i][j] - (c + ga * (j - F(mx - 1) / 2) - gb * (i - F(my - 1) / 2))
            # the box is centred to within one point
            lim = env.abs(ga) * F(Fraction(3, 4)) + env.abs(gb) * F(Fraction(3, 4)) + (env.abs(a) + env.abs(b)) * F(tol)
            env.check('height of the turned plane', env.and_(e <= lim, e >= -lim))
            for u, v, g in ((i, j + 1, ga), (i + 1, j, -gb)):
                if u < my and v < mx:
                    d = rows[u][v] - rows[i][j] - g
                    lim = (env.abs(a) + env.abs(b)) * F(inner if 1 <= i and 1 <= j and u < my - 1 and v < mx - 1 else tol)
                    env.check('gradient of the turned plane', env.and_(d <= lim, d >= -lim))


def flat(env, ny, nx, angle):
    """every point of the result lies on the surface: a level surface stays level"""
    c, sx = env.real('c', 1, 5), env.pos('sx')
    s = env.surface([[c] * nx for _ in range(ny)], sx, sx)
    for v in env.flat(s.rotate(angle).data):
        env.check('level surface stays level', env.and_(v - c <= c / 1000, v - c >= -c / 1000))


def sized(env, ny, nx, sx, sy, angle, known=False):
    """points keep their physical distance also when the pixels are not square"""
    a, b = env.real('a', -2, 2), env.real('b', -2, 2)
    env.assume(env.or_(a >= 1, a <= -1, b >= 1, b <= -1))
    F = Fraction if env.symbolic else float
    sx, sy = F(Fraction(sx)), F(Fraction(sy))
    z = [[a * sx * j - b * sy * i for j in range(nx)] for i in range(ny)]
    r = env.surface(z, sx, sy).rotate(angle)
    co, si = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    ga, gb = a * F(co) - b * F(si), a * F(si) + b * F(co)
    rows = env.rows(r.data)
    i, j = len(rows) // 2, len(rows[0]) // 2
    lim = (env.abs(a) + env.abs(b)) * F(Fraction(1, 10)) * max(sx, sy)
    d1, d2 = rows[i][j + 1] - rows[i][j] - ga * r.step_x, rows[i + 1][j] - rows[i][j] + gb * r.step_y
    env.check('slope in physical units', env.and_(d1 <= lim, d1 >= -lim, d2 <= lim, d2 >= -lim))


def spacing(env, ny, nx, angle):
    """neighbours on the turned surface lie as far apart as the points of the surface they were taken from"""
    z = env.grid('h', ny, nx, lo=-50, hi=50)
    sx, sy = env.choice('pixels', [(1, 2), (2, 1), (0.5, 4), (3.0, 0.75)])
    s = env.surface(z, sx, sy)
    co, si = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    for r in (s.rotate(angle), env.surface(z, sx, sy).rotate(angle, inplace=True)):
        env.close('step x', r.step_x, math.hypot(sx * co, sy * si), Fraction(1, 10 ** 6), 4)
        env.close('step y', r.step_y, math.hypot(sx * si, sy * co), Fraction(1, 10 ** 6), 4)


def inverse(env, ny, nx, angle):
    """turning by an angle and a full turn more is the same; negative angles turn clockwise"""
    z = env.grid('h', ny, nx, lo=-50, hi=50)
    sx = env.pos('sx')
    s = env.surface(z, sx, sx)
    p, m = s.rotate(angle), env.surface([r[::-1] for r in z], sx, sx).rotate(-angle)
    x, y = env.rows(p.data), env.rows(m.data)
    my, mx = len(x), len(x[0])
    env.concrete('size of the mirrored surface', (len(y), len(y[0])) == (my, mx), f'{len(y)}x{len(y[0])} {my}x{mx}')
    t = Fraction(1, 10 ** 6) if env.symbolic else 1e-6
    # the margin is one point at one side only, so the mirrored boxes may differ by one column
    alt = []
    for o in (-1, 0, 1):
        cs = []
        for i in range(my):
            for j in range(mx):
                if 0 <= j + o < mx:
                    d = x[i][j + o] - y[i][mx - 1 - j]
                    cs.append(env.and_(d <= t, d >= -t))
        alt.append(env.and_(*cs))
    env.check('mirrored surface turns the other way', env.or_(*alt))


def align(env, ny, nx, k, axis, method='fft'):
    """after alignment the heights do not change along the axis"""
    from .c08 import wave
    a, c, sx = env.real('a', 2, 4), env.real('c', -5, 5), env.pos('sx')
    s = env.surface([[c + a * v for v in r] for r in wave(env, ny, nx, *k)], sx, sx)
    o = s.orientation(method=method)
    env.observe('orientation', env.num(o))
    al = s.align(axis=axis, method=method)
    rows = env.rows(al.data)
    my, mx = len(rows), len(rows[0])
    env.concrete('points left', my >= 4 and mx >= 4, f'{my}x{mx}')
    lim = a * (Fraction(12, 100) if env.symbolic else .12)
    for i in range(1, my - 2):
        for j in range(1, mx - 2):
            d = (rows[i + 1][j] - rows[i][j]) if axis == 'y' else (rows[i][j + 1] - rows[i][j])
            env.check(f'texture runs along {axis}', env.and_(d <= lim, d >= -lim))
    q = s.rotate(-(o if axis == 'y' else o + 90))
    env.eqs('alignment is a rotation by the orientation', al.data, q.data, scale=10)
    env.eq('step', al.step_x, q.step_x)
    t = env.surface(env.rows(s.data), sx, sx)
    env.concrete('inplace returns the object', t.align(axis=axis, method=method, inplace=True) is t)
    env.eqs('inplace', t.data, al.data, scale=10)
    env.raises('unknown axis', lambda: s.align(axis='z', method=method), ValueError)
    env.raises('unknown method', lambda: s.align(axis='y', method='foo'), ValueError)
    env.eqs('original untouched', s.data, [[c + a * v for v in r] for r in wave(env, ny, nx, *k)], scale=10)


def plain(env, ny, nx, k):
    """alignment without arguments: along y, refined orientation"""
    from .c08 import wave
    from .c26 import lift
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    lift(env, 0)
    rows = [[c + a * v for v in r] for r in wave(env, ny, nx, *k)]
    new = lambda: env.surface(rows, 1, 1)
    got = new().align()
    env.eqs('default axis and method', got.data, new().align(axis='y', method='fft_refined').data, scale=10)
    env.eqs('default method', new().align('x').data, new().align('x', 'fft_refined').data, scale=10)
    env.eqs('rotation by the refined orientation', got.data, new().rotate(-new().orientation()).data, scale=10)
    env.eqs('original untouched by default', new().data, rows, scale=10)


def missing(env, ny, nx):
    z = env.grid('h', ny, nx)
    i, j = env.concint('i', 0, ny - 1), env.concint('j', 0, nx - 1)
    z[i][j] = env.nan()
    s = env.surface(z, 1, 1)
    env.raises('rotation of non-measured points', lambda: s.rotate(90), ValueError)
    env.raises('inplace rotation of non-measured points', lambda: s.rotate(30, inplace=True), ValueError)
    env.raises('alignment of non-measured points', lambda: s.align(method='fft'), ValueError)
    env.eqs('original untouched', s.data, z)


def harnesses(tier):
    hs = []
    for ny, nx in ((4, 4), (5, 5), (4, 6), (6, 4)):
        for k in (0, 1, 2, 3, 4, -1):
            if ny != nx and k in (4, -1):
                continue
            hs.append(H(f'quarter {k} {ny}x{nx}', quarter, time=40, ny=ny, nx=nx, k=k, square=(k % 2 == 1 and ny != nx), inplace=k in (2, -1), bounds=f'{ny}x{nx}, arbitrary heights and steps'))
    for ang in (10, 30, -30, 45, 60, 120, -75, 200, 5.5):
        for ny, nx in ((12, 12), (10, 14)):
            if ny != nx and ang in (45, 200, 5.5):
                continue
            hs.append(H(f'plane {ang} {ny}x{nx}', plane, time=60, ny=ny, nx=nx, angle=ang, bounds=f'{ny}x{nx}, every plane with slopes up to 2 per pixel'))
        for ny, nx in ((12, 12), (9, 15), (15, 9), (11, 12)):
            hs.append(H(f'flat {ang} {ny}x{nx}', flat, time=40, ny=ny, nx=nx, angle=ang, bounds=f'{ny}x{nx}, every height'))
    for ang in (20, 45, 100):
        hs.append(H(f'mirror {ang}', inverse, time=40, ny=7, nx=7, angle=ang, bounds='7x7, arbitrary heights'))
    for k in ((2, 1), (2, -1), (1, 2), (1, -2), (2, 0), (0, 2), (2, 2)):
        for axis in 'yx':
            hs.append(H(f'align {k} {axis}', align, time=60, ny=24, nx=24, k=k, axis=axis, bounds='24x24, any amplitude and offset'))
    for k in ((2, 1), (2, -1)):
        hs.append(H(f'align plain {k}', plain, time=90, ny=12, nx=24, k=k, bounds='12x24, any amplitude and offset'))
    for ang in (0, 10, 30, 45, 60, 90, 135, 180, 250, -30, -90):
        hs.append(H(f'spacing {ang}', spacing, time=40, ny=6, nx=8, angle=ang, bounds='6x8, any heights, four pixel shapes'))
    hs.append(H('unequal steps', sized, time=40, ny=12, nx=12, sx='1/2', sy='1', angle=30, bounds='12x12, every plane'))
    hs.append(H('missing points', missing, time=40, ny=3, nx=3, bounds='3x3'))
    hs.append(H('integer heights', integers, time=60, ny=5, nx=5, steps=(0.5, 0.5), tol=Fraction(1, 10 ** 6), ops=[('quarter', lambda s: s.rotate(90)), ('half', lambda s: s.rotate(180, inplace=True)), ('small angle', lambda s: s.rotate(20))], bounds='5x5, any integers from -40 to 90'))
    for ny, nx in ((30, 20), (23, 23), (4, 260)):
        for k in ((0, 1, 2, 3) if ny < 100 and nx < 100 else (2,)):
            hs.append(H(f'large quarter {k} {ny}x{nx}', bulk(quarter), time=90, ny=ny, nx=nx, k=k, square=(k % 2 == 1 and ny != nx), inplace=k in (2, -1), bounds=f'{ny}x{nx} pattern, any scale, offset and steps'))
    if tier == 'thorough':
        for ang in range(-175, 181, 15):
            hs.append(H(f'T plane {ang}', plane, time=200, ny=16, nx=13, angle=ang, bounds='16x13'))
            hs.append(H(f'T flat {ang}', flat, time=200, ny=17, nx=20, angle=ang, bounds='17x20'))
    return hs
