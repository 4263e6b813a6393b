"""Comparison, hashing and arithmetic of surfaces."""
from fractions import Fraction
from .common import H, flatten, bulk
NOTE = 'real arithmetic; comparison tolerance between 1e-12 and 1e-8 left open'


def arith(env, ny, nx, nan=False):
    z, y = env.grid('h', ny, nx, nan=[(0, 1)] if nan else None), env.grid('g', ny, nx, nan=[(1, 0)] if nan else None, lo=Fraction(1, 4), hi=8)
    sx, sy = env.steps()
    a, b = env.surface(z, sx, sy), env.surface(y, sx, sy)
    ops = {'+': (lambda p, q: p + q), '-': (lambda p, q: p - q), '*': (lambda p, q: p * q), '/': (lambda p, q: p / q)}
    for k, f in ops.items():
        r = f(a, b)
        for v, p, q in zip(env.flat(r.data), flatten(z), flatten(y)):
            if env.isnan(p) or env.isnan(q):
                env.concrete(f'{k}: non-measured in either operand', bool(env.isnan(v)))
            else:
                env.eq(f'surface {k} surface', v, f(p, q))
        dims(env, k, r, sx, sy, ny, nx)
        env.concrete('new object', r is not a and r is not b)
        r[0, 0] = 7
    x = env.real('x', -8, 8)
    for c in (3, -2, 0.5, 2.25, 0, 1, x):
        c2 = Fraction(c) if env.symbolic and c is not x else c
        tests = [('+', a + c, lambda p: p + c2), ('r+', c + a, lambda p: p + c2), ('-', a - c, lambda p: p - c2), ('r-', c - a, lambda p: c2 - p), ('*', a * c, lambda p: p * c2), ('r*', c * a, lambda p: p * c2)]
        if c is not x and c != 0:
            tests.append(('/', a / c, lambda p: p / c2))
        for k, r, f in tests:
            for v, p in zip(env.flat(r.data), flatten(z)):
                if env.isnan(p):
                    env.concrete(f'{k} number: non-measured points', bool(env.isnan(v)))
                else:
                    env.eq(f'surface {k} number', v, f(p))
            dims(env, f'{k} number', r, sx, sy, ny, nx)
            r[0, 0] = 7
    same(env, a, z)
    same(env, b, y)


def same(env, s, z):
    for v, p in zip(env.flat(s.data), flatten(z)):
        env.eq('operands untouched', v, p)


def dims(env, k, r, sx, sy, ny, nx):
    env.eq(f'{k}: step x', r.step_x, sx)
    env.eq(f'{k}: step y', r.step_y, sy)
    env.eq(f'{k}: width', r.width_um, sx * (nx - 1))
    env.eq(f'{k}: height', r.height_um, sy * (ny - 1))


def mismatch(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    a = env.surface(z, sx, sy)
    d = env.real('d', Fraction(1, 100), 1)
    others = [env.surface(z, sx + d, sy), env.surface(z, sx, sy + d), env.surface([r[:-1] for r in z], sx, sy), env.surface(z[:-1], sx, sy),
              env.surface(z[:1], sx, sy), env.surface([r[:1] for r in z], sx, sy), env.surface([z[0][:1]], sx, sy)]
    for i, b in enumerate(others):
        for k, f in (('+', lambda p, q: p + q), ('-', lambda p, q: p - q), ('*', lambda p, q: p * q), ('/', lambda p, q: p / q)):
            env.raises(f'{k} refuses different dimensions {i}', lambda: f(a, b), ValueError)
            env.raises(f'{k} refuses different dimensions {i} reversed', lambda: f(b, a), ValueError)
        env.concrete('different dimensions are not equal', not env.truth(a == b) and not env.truth(b == a))
        env.concrete('unequal operator', env.truth(a != b))
    for bad in ('x', None, [1, 2]):
        ok, e = env.attempt(lambda: a + bad)
        env.concrete('adding something else fails', not ok)
    for bad in ('x', None, 3, 1.5, [1]):
        env.concrete('a surface is not equal to something else', not env.truth(a == bad))
    row, col = env.surface(z[:1], sx, sy), env.surface([r[:1] for r in z], sx, sy)
    for k, f in (('+', lambda p, q: p + q), ('-', lambda p, q: p - q), ('*', lambda p, q: p * q), ('/', lambda p, q: p / q)):
        env.raises(f'{k} refuses a row and a column', lambda: f(row, col), ValueError)
        env.raises(f'{k} refuses a column and a row', lambda: f(col, row), ValueError)
    env.concrete('a row is not equal to a column', not env.truth(row == col))
    same(env, a, z)


def equality(env, ny, nx):
    """equal exactly if the same points are measured and the heights agree within the tolerance"""
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    y = [[v for v in r] for r in z]
    d = env.real('d', -8, 8)
    i, j = env.choice('at', [(i, j) for i in range(ny) for j in range(nx)])
    y[i][j] = y[i][j] + d
    a, b = env.surface(z, sx, sy), env.surface(y, sx, sy)
    if env.truth(env.abs(d) <= (Fraction(1, 10**12) if env.symbolic else 1e-12)):
        env.concrete('equal', env.truth(a == b) and env.truth(b == a) and not env.truth(a != b))
        env.concrete('equal surfaces have equal hashes', hash_eq(env, a, b))
    else:
        env.assume(env.abs(d) >= (Fraction(1, 10**8) if env.symbolic else 1e-8))
        env.concrete('one different height', not env.truth(a == b) and not env.truth(b == a) and env.truth(a != b))
    env.concrete('equal to itself', env.truth(a == a))
    env.concrete('equal to a copy', env.truth(a == env.surface(z, sx, sy)))
    env.concrete('copy has the same hash', hash_eq(env, a, env.surface(z, sx, sy)))


def hash_eq(env, a, b):
    return hash(a) == hash(b)


def equality_nan(env, ny, nx):
    """the pattern of non-measured points counts"""
    z = env.grid('h', ny, nx)
    sx, sy = 0.5, 0.25
    pa = [[bool(env.flag(f'a{i}{j}')) for j in range(nx)] for i in range(ny)]
    k = env.choice('flip', [None] + [(i, j) for i in range(ny) for j in range(nx)])
    za = [[env.nan() if f else v for v, f in zip(r, q)] for r, q in zip(z, pa)]
    zb = [[env.nan() if f != ((i, j) == k) else z[i][j] for j, f in enumerate(q)] for i, q in enumerate(pa)]
    a, b = env.surface(za, sx, sy), env.surface(zb, sx, sy)
    env.concrete('equal if and only if the same points are measured', env.truth(a == b) == (k is None))
    if k is None:
        env.concrete('hash', hash_eq(env, a, b))
    env.concrete('reflexive', env.truth(a == a))


def hashing(env, ny, nx):
    """hashes work as dictionary keys: stable under requests, equal for equal objects"""
    p = env.real('p', -3, 3)
    e = env.real('e', Fraction(-1, 10**12), Fraction(1, 10**12))
    z = [[p + 3 * i - j for j in range(nx)] for i in range(ny)]
    a, b = env.surface(z, 0.5, 0.25), env.surface([[v + e for v in r] for r in z], 0.5, 0.25)
    h = hash(a)
    a.Sq()
    env.concrete('stable', hash(a) == h)
    env.concrete('same value', env.truth(a == b))
    env.concrete('equal surfaces have equal hashes', hash(a) == hash(b))


def harnesses(tier):
    hs = [H('arithmetic', arith, ny=2, nx=2, time=60, bounds='2x2, four scalars'), H('arithmetic nan', arith, ny=2, nx=2, nan=True, time=60, bounds='2x2, one hole each'), H('mismatch', mismatch, ny=3, nx=3, time=60, bounds='3x3'),
          H('equality', equality, ny=2, nx=3, time=60, max_paths=400, bounds='2x3, one height changed by any amount'), H('equality nan', equality_nan, ny=2, nx=2, time=60, max_paths=400, bounds='2x2, all patterns'), H('hash', hashing, ny=2, nx=3, time=30, bounds='2x3')]
    hs += [H('large arithmetic', bulk(arith), ny=17, nx=20, nan=True, time=60, bounds='17x20 pattern, any scale and offset'), H('huge arithmetic', bulk(arith), ny=110, nx=115, nan=True, time=200, bounds='110x115 pattern, any scale and offset'), H('huge mismatch', bulk(mismatch), ny=110, nx=115, time=100, bounds='110x115 pattern'), H('large mismatch', bulk(mismatch), ny=18, nx=20, time=60, bounds='18x20 pattern')]
    if tier == 'thorough':
        hs += [H('T arithmetic', arith, ny=4, nx=5, nan=True, time=300, bounds='4x5'), H('T equality', equality, ny=5, nx=6, time=600, max_paths=2000, bounds='5x6'), H('T equality nan', equality_nan, ny=2, nx=4, time=900, max_paths=4000, bounds='2x4')]
    return hs
