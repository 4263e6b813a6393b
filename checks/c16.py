"""Filling of non-measured points: measured points are kept, every hole gets the value of a closest measured point."""
from .common import H, flatten
NOTE = 'interpolation as contract: nearest takes one of the closest data points, linear and cubic pass through the data'


def build(env, ny, nx, profile, flags):
    if profile:
        v = env.vec('z', nx)
        z = [[v[j] if not f else env.nan() for j, f in enumerate(flags[0])]]
        st = env.pos('step')
        return v, z, env.pkg('surfalize.profile').Profile(env.array(z[0]), st)
    v = env.grid('h', ny, nx)
    z = [[env.nan() if f else x for x, f in zip(p, q)] for p, q in zip(v, flags)]
    return v, z, env.surface(z, *env.steps())


def patterns(env, ny, nx):
    """which points are missing: all patterns with at least one measured point"""
    return [[bool(env.flag(f'm{i}_{j}')) for j in range(nx)] for i in range(ny)]


def nearest(env, ny, nx, flags=None, profile=False, inplace=False, **kw):
    if flags is None:
        flags = patterns(env, ny, nx)
    if all(flatten(flags)):
        return env.concrete('nothing measured', True)
    v, z, s = build(env, ny, nx, profile, flags)
    before = flatten(z)
    r = s.fill_nonmeasured(inplace=inplace, **kw)
    env.concrete('object', (r is s) == inplace)
    out = [env.flat(r.data)] if profile else env.rows(r.data)
    env.concrete('no missing points left', not env.truth(r.has_missing_points))
    meas = [(i, j) for i in range(ny) for j in range(nx) if not flags[i][j]]
    for i in range(ny):
        for j in range(nx):
            if not flags[i][j]:
                env.eq('measured points are kept', out[i][j], z[i][j])
            else:
                d = [(a - i) ** 2 + (b - j) ** 2 for a, b in meas]
                near = [z[a][b] for (a, b), q in zip(meas, d) if q == min(d)]
                if env.symbolic:
                    env.check('a hole takes the height of a closest measured point', env.or_(*[out[i][j] == x for x in near]))
                else:
                    env.check('a hole takes the height of a closest measured point', min(abs(out[i][j] - x) for x in near) < 1e-9)
    if not inplace:
        for x, y in zip(env.flat(s.data), before):
            env.eq('original untouched', x, y)
        if profile:
            r[0] = 99
        else:
            r[0, 0] = 99
        for x, y in zip(env.flat(s.data), before):
            env.eq('result is independent', x, y)
    if profile:
        env.eq('step', r.step, s.step)
        env.eq('length', r.length_um, r.step * (nx - 1))
    else:
        env.eq('step x', r.step_x, s.step_x)
        env.eq('step y', r.step_y, s.step_y)
        env.eq('width', r.width_um, r.step_x * (nx - 1))
        env.eq('height', r.height_um, r.step_y * (ny - 1))


def methods(env, ny, nx, flags, method, profile=False):
    v, z, s = build(env, ny, nx, profile, flags)
    r = s.fill_nonmeasured(method=method)
    out = [env.flat(r.data)] if profile else env.rows(r.data)
    for i in range(ny):
        for j in range(nx):
            if not flags[i][j]:
                d = out[i][j] - z[i][j]
                env.check('measured points are kept', env.and_(d <= 1e-6, d >= -1e-6) if env.symbolic else abs(d) < 1e-6)
    env.concrete('new object', r is not s)


def affine(env, ny, nx, flags, profile=False, method='linear', inplace=False):
    """linear interpolation continues an inclined plane inside the hull of the measured points, whatever is missing; outside it is left"""
    a, b, c = env.real('a', -5, 5), env.real('b', -5, 5), env.real('c', -50, 50)
    v = [[a * j + b * i + c for j in range(nx)] for i in range(ny)]
    z = [[env.nan() if f else x for x, f in zip(p, q)] for p, q in zip(v, flags)]
    s = env.pkg('surfalize.profile').Profile(env.array(z[0]), 1) if profile else env.surface(z, *env.steps())
    r = s.fill_nonmeasured(method=method, inplace=inplace)
    out = [env.flat(r.data)] if profile else env.rows(r.data)
    meas = [(i, j) for i in range(ny) for j in range(nx) if not flags[i][j]]
    for i in range(ny):
        for j in range(nx):
            if inside(meas, (i, j), profile):
                env.eq('height on the plane', out[i][j], v[i][j], tol=1e-9)
            else:
                env.concrete('nothing beyond the measured points', bool(env.isnan(out[i][j])))


def inside(pts, p, profile):
    if profile:
        return min(j for _, j in pts) <= p[1] <= max(j for _, j in pts)
    import itertools
    side = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for a, b, c in itertools.combinations(pts, 3):
        if side(a, b, c):
            k = [side(a, b, p), side(b, c, p), side(c, a, p)]
            if min(k) >= 0 or max(k) <= 0:
                return True
    return False


def F(*rows):
    return [[c == '.' for c in r] for r in rows]


def harnesses(tier):
    hs = [H('any pattern 2x2', nearest, ny=2, nx=2, time=60, bounds='2x2, every pattern'), H('any pattern 2x2 inplace', nearest, ny=2, nx=2, inplace=True, time=60, bounds='2x2, every pattern'),
          H('any pattern 2x3', nearest, ny=2, nx=3, time=60, bounds='2x3, every pattern'),
          H('profile any pattern', nearest, ny=1, nx=5, profile=True, time=60, bounds='5 points, every pattern'), H('profile any pattern inplace', nearest, ny=1, nx=4, profile=True, inplace=True, time=60, bounds='4 points, every pattern'),
          H('holes', nearest, ny=4, nx=5, flags=F('xx..x', 'x.x..', '...xx', 'xx.x.'), time=60, bounds='4x5'), H('border', nearest, ny=5, nx=3, flags=F('...', '.x.', 'xx.', '..x', '...'), inplace=True, time=60, bounds='5x3'),
          H('wide', nearest, ny=2, nx=7, flags=F('x.....x', '..x....'), time=60, bounds='2x7'),
          H('linear', methods, ny=3, nx=4, flags=F('x.xx', 'xx.x', 'xxxx'), method='linear', time=60, bounds='3x4'), H('cubic', methods, ny=3, nx=4, flags=F('xx.x', 'x.xx', 'xxxx'), method='cubic', time=60, bounds='3x4'),
          H('plane few missing', affine, ny=3, nx=4, flags=F('x.xx', 'xx.x', 'xx.x'), time=30, bounds='3x4, any plane'),
          H('plane most missing', affine, ny=3, nx=5, flags=F('x...x', '.....', 'x...x'), time=30, bounds='3x5, any plane'),
          H('plane corner missing', affine, ny=4, nx=4, flags=F('..xx', '.x..', 'x..x', '.x..'), time=30, inplace=True, bounds='4x4, any plane'),
          H('plane profile', affine, ny=1, nx=7, flags=F('.x..x.x'), profile=True, time=30, bounds='7 points, any line'),
          H('plane profile most missing', affine, ny=1, nx=8, flags=F('x......x'), profile=True, inplace=True, time=30, bounds='8 points, any line'),
          H('profile linear', methods, ny=1, nx=5, flags=F('x.x.x'), method='linear', profile=True, time=30, bounds='5 points')]
    holes = lambda ny, nx, pts: [[(i, j) in pts for j in range(nx)] for i in range(ny)]
    hs += [H('huge', nearest, ny=110, nx=115, flags=holes(110, 115, {(0, 3), (1, 100), (90, 71), (91, 71)}), time=200, bounds='110x115'), H('long rows', nearest, ny=2, nx=290, flags=holes(2, 290, {(0, 3), (1, 270), (0, 271), (1, 289)}), time=120, bounds='2x290'),
           H('long columns', nearest, ny=300, nx=2, flags=holes(300, 2, {(0, 0), (270, 1), (259, 0), (299, 1)}), inplace=True, time=120, bounds='300x2'),
           H('long profile', nearest, ny=1, nx=300, flags=holes(1, 300, {(0, 0), (0, 130), (0, 270)}), profile=True, time=120, bounds='300 points')]
    if tier == 'thorough':
        hs += [H('T any pattern 3x3', nearest, ny=3, nx=3, time=900, max_paths=3000, bounds='3x3, every pattern'), H('T profile 8', nearest, ny=1, nx=8, profile=True, time=600, max_paths=2000, bounds='8 points')]
    return hs
