"""Hybrid areal parameters: triangulated surface area, projected area, Sdr, Sdq."""
from fractions import Fraction
from .common import H, flatten, wide, big, BIG
NOTE = 'real arithmetic; the per-cell triangulation is only bounded between the possible corner triangles (known finding KF-3)'


def cell_tri(env, z, i, j, ci, cj, sx, sy):
    """squared doubled area of the corner triangle of cell (i,j) at corner (ci,cj)"""
    c = z[i + ci][j + cj]
    dx = z[i + ci][j + 1 - cj] - c
    dy = z[i + 1 - ci][j + cj] - c
    return (sy * dx) * (sy * dx) + (sx * dy) * (sx * dy) + (sx * sy) * (sx * sy)


def plane(env, ny, nx, swap=False):
    a, b, c = env.real('a'), env.real('b'), env.real('c')
    sx, sy = env.steps(swap)
    z = [[c + a * sx * j + b * sy * i for j in range(nx)] for i in range(ny)]
    s = env.surface(z, sx, sy)
    n = (ny - 1) * (nx - 1)
    env.eq('area of a plane', s.surface_area(), n * sx * sy * env.sqrt(1 + a * a + b * b))
    q = s.Sdq()
    env.eq('Sdq of a plane', q * q * (nx * ny), a * a * (ny * (nx - 1)) + b * b * (nx * (ny - 1)))


def flat(env, ny, nx):
    c = env.real('c')
    sx, sy = env.steps()
    s = env.surface([[c] * nx for _ in range(ny)], sx, sy)
    env.eq('area of a flat surface', s.surface_area(), (ny - 1) * (nx - 1) * sx * sy)
    env.eq('Sdq of a flat surface', s.Sdq(), 0)


def flat_sdr(env, ny, nx):
    c = env.real('c')
    sx, sy = env.steps()
    s = env.surface([[c] * nx for _ in range(ny)], sx, sy)
    ok = (ny - 1) * (nx - 1) * sx * sy
    dev = (ny - 2) * (nx - 2) * sx * sy
    p = s.projected_area()
    d1, d2 = p - ok, p - dev
    t = 0 if env.symbolic else 1e-9
    env.check('projected area is the covered area, or deviates exactly as recorded in KF-2', env.or_(env.abs(d1) <= t, env.abs(d2) <= t))
    env.eq('Sdr consistent with surface_area and projected_area', s.Sdr(), (s.surface_area() / p - 1) * 100)
    env.eq('Sdr of a flat surface is 0', s.Sdr(), 0)


def cell(env, swap=False):
    """one 2x2 cell: area between the smallest and the largest corner triangle (doubled), never below the projection"""
    z = env.grid('h', 2, 2)
    sx, sy = env.steps(swap)
    a = env.surface(z, sx, sy).surface_area()
    tri = [cell_tri(env, z, 0, 0, ci, cj, sx, sy) for ci in (0, 1) for cj in (0, 1)]
    env.le('cell area >= projected cell', sx * sy, a)
    env.le('cell area <= largest corner triangle doubled', a * a, env.max(tri))
    env.le('cell area >= smallest corner triangle doubled', env.min(tri), a * a)


def cell_exact(env):
    z = env.grid('h', 2, 2)
    sx, sy = env.steps()
    a = env.surface(z, sx, sy).surface_area()
    r = [env.sqrt(cell_tri(env, z, 0, 0, ci, cj, sx, sy)) / 2 for ci, cj in ((0, 0), (1, 1), (0, 1), (1, 0))]
    t = 0 if env.symbolic else 1e-9
    env.check('area is that of two triangles spanning the quad', env.or_(env.abs(a - r[0] - r[1]) <= t, env.abs(a - r[2] - r[3]) <= t))


def additive(env, ny, nx):
    """area of a grid is the sum of the areas of its cells"""
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    tot = env.surface(z, sx, sy).surface_area()
    parts = []
    for i in range(ny - 1):
        for j in range(nx - 1):
            parts.append(env.surface([r[j:j + 2] for r in z[i:i + 2]], sx, sy).surface_area())
    env.eq('area adds up over the cells', tot, env.sum(parts))


def deep(env, depth):
    """fine relief on levels far apart: the area is that of the cells"""
    r = env.real('r', Fraction(1, 2), 2)
    k = [[3, 1, 4, 1], [5, 9, 2, 6], [5, 3, 5, 8], [9, 7, 9, 3]]
    z = [[(depth if i > 1 else 0) + r * v for v in q] for i, q in enumerate(k)]
    sx, sy = env.steps()
    tot = env.surface(z, sx, sy).surface_area()
    low = env.surface(z[:2], sx, sy).surface_area()
    high = env.surface(z[2:], sx, sy).surface_area()
    same = env.surface([[v - depth for v in q] for q in z[2:]], sx, sy).surface_area()
    env.eq('area of a level does not depend on its height', high, same, tol=1e-7)
    cliff = env.surface(z[1:3], sx, sy).surface_area()
    env.eq('area adds up over the levels', tot, low + cliff + high, tol=1e-9)
    env.eq('Sdq', env.surface(z[2:], sx, sy).Sdq(), env.surface([[v - depth for v in q] for q in z[2:]], sx, sy).Sdq(), tol=1e-7)


def sdr(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    p = s.projected_area()
    env.eq('Sdr = (area/projected - 1)*100', s.Sdr() * p, (s.surface_area() - p) * 100)
    n = ny * nx
    dx = [(z[i][j + 1] - z[i][j]) for i in range(ny) for j in range(nx - 1)]
    dy = [(z[i + 1][j] - z[i][j]) for i in range(ny - 1) for j in range(nx)]
    q = s.Sdq()
    env.eq('Sdq', q * q * n * sx * sx * sy * sy, env.sum(d * d for d in dx) * sy * sy + env.sum(d * d for d in dy) * sx * sx)
    env.nonneg('Sdq >= 0', q)
    k = env.real('off')
    s2 = env.surface([[v + k for v in r] for r in z], sx, sy)
    env.eq('area independent of height offset', s2.surface_area(), s.surface_area())
    env.eq('Sdq independent of height offset', s2.Sdq(), q)
    s3 = env.surface([[-v for v in r] for r in z], sx, sy)
    env.eq('area of the negative', s3.surface_area(), s.surface_area())
    zt = [[z[i][j] for i in range(ny)] for j in range(nx)]
    s4 = env.surface(zt, sy, sx)
    env.eq('area of the transposed surface', s4.surface_area(), s.surface_area())
    env.eq('Sdq of the transposed surface', s4.Sdq(), q)


PAT = [[0, 3, -1, 2], [5, -4, 1, 1], [2, 0, -2, 7]]


def sdq_scale(env, trans, pat=PAT):
    """gradients over decades of height scale and any aspect of the pixels"""
    pat = [list(c) for c in zip(*pat)] if trans else pat
    ny, nx = len(pat), len(pat[0])
    a, c = wide(env), env.real('c', -5, 5)
    sx, sy = env.real('sx', Fraction(1, 50), 50), env.real('sy', Fraction(1, 50), 50)
    s = env.surface([[a * (v + c) for v in r] for r in pat], sx, sy)
    X = sum((pat[i][j + 1] - pat[i][j]) ** 2 for i in range(ny) for j in range(nx - 1))
    Y = sum((pat[i + 1][j] - pat[i][j]) ** 2 for i in range(ny - 1) for j in range(nx))
    q = s.Sdq() / a
    env.eq('Sdq', q * q * sx * sx * sy * sy * (nx * ny) / (X * sy * sy + Y * sx * sx), 1)


def area_scale(env, ny=3, nx=4):
    """the area is homogeneous: steps and heights over decades"""
    a = wide(env)
    p, q, r = env.real('p', -3, 3), env.real('q', -3, 3), env.real('r', Fraction(1, 4), 4)
    s = env.surface([[a * (p * j + q * r * i + 1) for j in range(nx)] for i in range(ny)], a, a * r)
    env.eq('area', s.surface_area() / a / a, (nx - 1) * (ny - 1) * r * env.sqrt(1 + p * p + q * q))
    env.eq('Sdq', s.Sdq() ** 2 * (nx * ny), (nx - 1) * ny * p * p + (ny - 1) * nx * q * q)


def harnesses(tier):
    hs = [H('plane 2x3', plane, ny=2, nx=3, time=30, bounds='2x3 arbitrary plane'), H('plane 4x3', plane, ny=4, nx=3, swap=True, time=30, bounds='4x3 arbitrary plane'),
          H('plane 3x5', plane, ny=3, nx=5, time=30, bounds='3x5 arbitrary plane'),
          H('flat 3x4', flat, ny=3, nx=4, bounds='3x4 flat'), H('flat sdr', flat_sdr, ny=4, nx=3, bounds='4x3 flat'),
          H('cell', cell, time=30, bounds='one 2x2 cell'), H('cell swapped steps', cell, time=30, bounds='one 2x2 cell', swap=True),
          H('cell triangulation', cell_exact, time=30, bounds='one 2x2 cell'),
          H('additive 3x3', additive, ny=3, nx=3, time=30, bounds='3x3 arbitrary'), H('additive 2x4', additive, ny=2, nx=4, time=30, bounds='2x4 arbitrary'),
          H('sdr 3x4', sdr, ny=3, nx=4, time=30, bounds='3x4 arbitrary'), H('sdr 4x3', sdr, ny=4, nx=3, time=30, bounds='4x3 arbitrary')]
    hs += [H(f'sdq scale {t}', sdq_scale, trans=t, time=30, bounds='3x4 fixed pattern, height scale 1e-6..1e4, steps 1/50..50') for t in (False, True)]
    hs.append(H('area scale', area_scale, time=30, bounds='3x4 planes, heights and steps 1e-6..1e4'))
    hs += [H(f'large slopes {a}x{b}', sdq_scale, trans=False, pat=big(a, b), time=200, bounds=f'{a}x{b} fixed pattern, height scale 1e-6..1e4, steps 1/50..50') for a, b in BIG + ([(330, 310)] if tier == 'thorough' else [])]
    hs += [H(f'large area {a}x{b}', area_scale, ny=a, nx=b, time=200, bounds=f'{a}x{b} planes') for a, b in BIG + ([(330, 310)] if tier == 'thorough' else [])]
    for d in (2000, 90000):
        hs.append(H(f'levels {d} apart', deep, time=60, depth=d, bounds=f'4x4, any relief between 0.5 and 18, two levels {d} apart'))
    if tier == 'thorough':
        hs += [H('additive T 4x5', additive, ny=4, nx=5, time=120, bounds='4x5'), H('sdr T 5x6', sdr, ny=5, nx=6, time=200, bounds='5x6'), H('plane T 6x7', plane, ny=6, nx=7, time=200, bounds='6x7')]
    return hs
