"""Profiles cut out of a surface: position, averaging, end points, lateral scale."""
import math
from fractions import Fraction
from .common import H, flatten, bulk
NOTE = 'positions anywhere within 0.45 pixels of a data point are solver variables; odd numbers of averaged profiles'
E45 = Fraction(45, 100)
TOL = Fraction(1, 10**6)


def straight(env, ny, nx, kind, avgs=(1, 3), astep=None, at=None):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    n, st, step, other, m = (ny, sy, sx, sx * (nx - 1), nx) if kind == 'horizontal' else (nx, sx, sy, sy * (ny - 1), ny)
    k = env.choice('at', at or list(range(n)))
    e = env.real('e', 0 if k == 0 else -E45, 0 if k == n - 1 else E45)
    avg = env.choice('average', list(avgs))
    d = 1
    kw = {}
    if astep:
        d = env.choice('spacing', astep)
        f = env.real('f', -E45, E45)
        kw = dict(average_step=(d + f) * st)
    if avg > 1 or astep:
        kw['average'] = avg
    p = getattr(s, f'get_{kind}_profile')((k + e) * st, **kw)
    if avg == 1 and not astep:
        q = getattr(s, f'get_{kind}_profile')((k + e) * st, average=1)
        env.eqs('one line by default', q.data, env.flat(p.data))
    rows = [k + q * d for q in range(-(avg // 2), avg // 2 + 1)]
    rows = [r for r in rows if 0 <= r < n]
    line = (lambda r, j: z[r][j]) if kind == 'horizontal' else (lambda r, j: z[j][r])
    v = env.flat(p.data)
    env.concrete('number of points', len(v) == m)
    for j in range(m):
        env.eq('average of the lines around the closest data point', v[j] * len(rows), env.sum(line(r, j) for r in rows))
    env.eq('step', p.step, step)
    env.eq('length', p.length_um, other)
    env.eqs('surface untouched', s.data, z)


def no_alias(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    for p in (s.get_horizontal_profile(0), s.get_vertical_profile(0), s.get_horizontal_profile(0, average=3)):
        ok, _ = env.attempt(lambda: p.__setitem__(0, 55))
        env.concrete('profiles can be edited', ok)
    env.eqs('editing a profile leaves the surface alone', s.data, z)


def outside(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    o = env.real('out', Fraction(1, 100), 4)
    env.raises('below', lambda: s.get_horizontal_profile(0 - o * sy), ValueError)
    env.raises('above', lambda: s.get_horizontal_profile((ny - 1 + o) * sy), ValueError)
    env.raises('left', lambda: s.get_vertical_profile(0 - o * sx), ValueError)
    env.raises('right', lambda: s.get_vertical_profile((nx - 1 + o) * sx), ValueError)


def oblique(env, ny, nx, ends, cubic=True):
    """start and end points, lateral scale; every point for horizontal, vertical and diagonal lines"""
    z = env.grid('h', ny, nx, lo=-8, hi=8)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    (x0, y0), (x1, y1) = env.choice('ends', ends)
    e = [env.real(f'e{q}', -E45, E45) for q in range(4)]
    p = s.get_oblique_profile((x0 + e[0]) * sx, (y0 + e[1]) * sy, (x1 + e[2]) * sx, (y1 + e[3]) * sy)
    v = env.flat(p.data)
    dx, dy = x1 - x0, y1 - y0

    def at(label, val, i, j):
        env.check(label, env.and_(val - z[i][j] <= TOL, val - z[i][j] >= -TOL))
    at('starts at the start point', v[0], y0, x0)
    at('ends at the end point', v[-1], y1, x1)
    n = max(abs(dx), abs(dy))
    if dx == 0 or dy == 0:
        env.concrete('one point per pixel', len(v) == n + 1)
        for q in range(n + 1):
            at('points on the line', v[q], y0 + q * dy // n, x0 + q * dx // n)
    env.concrete('as many points as the line has pixels', abs(len(v) - 1 - math.hypot(dx, dy)) <= 1)
    l2 = dx * dx * sx * sx + dy * dy * sy * sy
    env.eq('length is the distance of the end points', p.length_um * p.length_um, l2)
    env.check('length is positive', p.length_um > 0)
    env.eq('length is the step times the number of intervals', p.step * (len(v) - 1), p.length_um)
    env.eqs('surface untouched', s.data, z)


def oblique_reverse(env, ny, nx, a, b):
    z = env.grid('h', ny, nx, lo=-8, hi=8)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    p = s.get_oblique_profile(a[0] * sx, a[1] * sy, b[0] * sx, b[1] * sy)
    q = s.get_oblique_profile(b[0] * sx, b[1] * sy, a[0] * sx, a[1] * sy)
    u, v = env.flat(p.data), env.flat(q.data)
    env.concrete('same number of points', len(u) == len(v))
    for x, y in zip(u, v[::-1]):
        env.check('the reversed profile has the same heights', env.and_(x - y <= TOL, x - y >= -TOL))
    env.eq('same length', p.length_um * p.length_um, q.length_um * q.length_um)


def oblique_bad(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    o = env.real('out', Fraction(55, 100), 3)
    w, h = (nx - 1) * sx, (ny - 1) * sy
    for i, a in enumerate([(0 - o * sx, 0, w, h), (w + o * sx, 0, 0, h), (0, 0 - o * sy, w, h), (0, h + o * sy, w, 0), (0, 0, w + o * sx, h), (0, 0, w, h + o * sy), (w, h, 0 - o * sx, 0), (w, h, 0, 0 - o * sy)]):
        env.raises(f'end point outside {i}', lambda: s.get_oblique_profile(*a), ValueError)
    env.raises('no extent', lambda: s.get_oblique_profile(sx, sy, sx, sy), ValueError)


def harnesses(tier):
    hs = [H('horizontal', straight, ny=4, nx=3, kind='horizontal', time=60, bounds='4x3, average 1 and 3'), H('vertical', straight, ny=3, nx=4, kind='vertical', time=60, bounds='3x4, average 1 and 3'),
          H('horizontal spaced', straight, ny=6, nx=2, kind='horizontal', avgs=(3, 5), astep=[1, 2], time=60, bounds='6x2, average 3 and 5, spacing 1 and 2'),
          H('vertical spaced', straight, ny=2, nx=6, kind='vertical', avgs=(3, 5), astep=[1, 2], time=60, bounds='2x6'),
          H('independent', no_alias, ny=3, nx=3, time=30, bounds='3x3'), H('outside', outside, ny=3, nx=4, time=30, bounds='3x4'),
          H('oblique straight', oblique, ny=4, nx=5, ends=[((0, 0), (4, 0)), ((4, 2), (0, 2)), ((1, 0), (1, 3)), ((3, 3), (3, 1)), ((1, 3), (4, 3)), ((4, 3), (4, 0))], time=90, max_paths=500, bounds='4x5, horizontal and vertical lines'),
          H('oblique diagonal', oblique, ny=4, nx=5, ends=[((0, 0), (3, 3)), ((4, 0), (1, 3)), ((3, 3), (1, 0)), ((0, 3), (4, 1)), ((2, 1), (4, 2)), ((4, 0), (0, 3))], time=90, max_paths=500, bounds='4x5, six slanted lines'),
          H('oblique reverse', oblique_reverse, ny=4, nx=5, a=(0, 1), b=(4, 3), time=60, bounds='4x5'), H('oblique reverse 2', oblique_reverse, ny=4, nx=4, a=(3, 0), b=(1, 3), time=60, bounds='4x4'),
          H('oblique outside', oblique_bad, ny=3, nx=4, time=60, bounds='3x4')]
    hs += [H('large horizontal', bulk(straight), ny=40, nx=30, kind='horizontal', avgs=(1, 5, 21), at=[0, 3, 20, 38, 39], time=90, max_paths=300, bounds='40x30 pattern'), H('large vertical', bulk(straight), ny=20, nx=45, kind='vertical', avgs=(1, 7, 11), astep=[1, 3], at=[0, 9, 22, 44], time=90, max_paths=300, bounds='20x45 pattern'),
           H('large vertical wide', bulk(straight), ny=3, nx=300, kind='vertical', at=[0, 127, 128, 255, 256, 299], time=90, max_paths=300, bounds='3x300 pattern'), H('large horizontal long', bulk(straight), ny=300, nx=3, kind='horizontal', at=[0, 127, 128, 255, 257, 299], time=90, max_paths=300, bounds='300x3 pattern'),
           H('huge horizontal', bulk(straight), ny=110, nx=115, kind='horizontal', avgs=(1, 5), at=[0, 70, 109], time=150, max_paths=300, bounds='110x115 pattern'), H('huge vertical', bulk(straight), ny=110, nx=115, kind='vertical', avgs=(1, 5), at=[0, 80, 114], time=150, max_paths=300, bounds='110x115 pattern'),
           H('large horizontal row', bulk(straight), ny=3, nx=280, kind='horizontal', at=[0, 1, 2], time=90, max_paths=300, bounds='3x280 pattern'),
           H('large oblique', bulk(oblique), ny=24, nx=30, ends=[((0, 0), (29, 23)), ((29, 11), (0, 11)), ((5, 23), (5, 0)), ((3, 20), (27, 2)), ((14, 1), (15, 22))], time=120, max_paths=300, bounds='24x30 pattern, five lines')]
    if tier == 'thorough':
        pts = [(x, y) for x in range(5) for y in range(4)]
        for k in range(0, 20, 2):
            hs.append(H(f'T oblique {k}', oblique, ny=4, nx=5, ends=[(pts[k], q) for q in pts if q != pts[k]], time=600, max_paths=4000, bounds='4x5, all end points'))
        hs += [H('T horizontal', straight, ny=8, nx=3, kind='horizontal', avgs=(1, 3, 5, 7), astep=[1, 2, 3], time=300, max_paths=3000, bounds='8x3'),
               H('T vertical', straight, ny=3, nx=8, kind='vertical', avgs=(1, 3, 5, 7), astep=[1, 2, 3], time=300, max_paths=3000, bounds='3x8')]
    return hs
