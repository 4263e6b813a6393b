"""Step height, levelling on the upper level and cavity volume of two-level surfaces."""
from fractions import Fraction
from .common import H, flatten, small_otsu, defaults
NOTE = 'two-level topographies: fixed level pattern, arbitrary level heights, bounded roughness on some points'

P = {'cav': ['UUUU', 'ULLU', 'UULU'], 'slot': ['ULU', 'ULU', 'ULU', 'ULU'], 'most': ['LLLU', 'ULLL', 'LLLL']}


def build(env, pat, rough, spread, rel=True, nonneg=False):
    """rough: {(i,j)} points with roughness up to spread*(step height) around their level"""
    U = env.real('u', -3, 3)
    d = env.real('d', Fraction(1, 1000), 1000)
    L = U - d
    z, noise = [], {}
    for i, r in enumerate(P[pat]):
        row = []
        for j, c in enumerate(r):
            v = U if c == 'U' else L
            if (i, j) in rough:
                e = env.real(f'e{i}_{j}', -spread, spread)
                noise[i, j] = e
                v = v + e * d
            row.append(v)
        z.append(row)
    return z, U, L, d


def med(env, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(i, 0, -1):
            if env.truth(xs[j] < xs[j - 1]):
                xs[j], xs[j - 1] = xs[j - 1], xs[j]
            else:
                break
    h = len(xs) // 2
    return xs[h] if len(xs) % 2 else (xs[h - 1] + xs[h]) / 2


def step(env, pat, rough=(), spread=Fraction(1, 200), thr=Fraction(1, 2)):
    z, U, L, d = build(env, pat, set(rough), spread)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    up = [z[i][j] for i, r in enumerate(P[pat]) for j, c in enumerate(r) if c == 'U']
    lo = [z[i][j] for i, r in enumerate(P[pat]) for j, c in enumerate(r) if c == 'L']
    mu, ml = med(env, up), med(env, lo)
    env.eq('step height is the distance of the levels', s.stepheight(), mu - ml)
    env.eq('cavity volume', s.cavity_volume() if thr == Fraction(1, 2) else s.cavity_volume(threshold=float(thr)), env.sum(mu - v for v in lo) * sx * sy)
    env.eqs('surface untouched', s.data, z)


def volume_threshold(env, pat, thr=None, span=(Fraction(1, 10), Fraction(9, 10))):
    small_otsu(env, 16)
    """three depths: only points deeper than the threshold share of the step height count"""
    U, d, q = env.real('u', -3, 3), env.real('d', 1, 4), env.real('q', *span)
    if thr is None:
        thr = env.real('t', Fraction(1, 20), Fraction(19, 20))
    env.assume(env.abs(q - thr) >= Fraction(1, 50))
    z = [[U if c == 'U' else U - d for c in r] for r in P[pat]]
    k = next((i, j) for i, r in enumerate(P[pat]) for j, c in enumerate(r) if c == 'U')
    z[k[0]][k[1]] = U - q * d
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    up = 0
    n = sum(r.count('L') for r in P[pat])
    h = s.stepheight()
    env.eq('step height', h, d)
    v = n * d
    if env.truth(q > thr):
        v = v + q * d
    env.eq('cavity volume above the threshold depth', s.cavity_volume(threshold=thr), v * sx * sy)


def level(env, pat, inplace=False, tilt=None):
    small_otsu(env, 8)
    """levelling uses the upper level only and moves neither the mean nor the step height"""
    U, d = env.real('u', -3, 3), env.real('d', 2, 4)
    if tilt:
        a, b = ((d * x if env.symbolic else d * float(x)) for x in tilt)
    else:
        a, b = env.real('a', Fraction(-1, 50), Fraction(1, 50)), env.real('b', Fraction(-1, 50), Fraction(1, 50))
    z = [[(U if c == 'U' else U - d) + a * j + b * i for j, c in enumerate(r)] for i, r in enumerate(P[pat])]
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    r = s.stepheight_level(inplace=inplace)
    ny, nx = len(z), len(z[0])
    off = a * Fraction(nx - 1, 2) + b * Fraction(ny - 1, 2) if env.symbolic else a * (nx - 1) / 2 + b * (ny - 1) / 2
    for i, row in enumerate(env.rows(r.data)):
        for j, v in enumerate(row):
            env.eq('levelled to the upper plane', v, (U if P[pat][i][j] == 'U' else U - d) + off)
    env.eq('step height of the levelled surface', r.stepheight(), d)
    env.eq('step x of the levelled surface', r.step_x, sx)
    env.eq('step y of the levelled surface', r.step_y, sy)
    if inplace:
        env.concrete('inplace', r is s)
    else:
        env.concrete('new object', r is not s)
        env.eqs('original untouched', s.data, z)
        r2 = s.stepheight_level()
        env.concrete('each call returns its own object', r2 is not r)
        # asked for before and after levelling, and of a surface built from the levelled heights
        s.stepheight(), s.cavity_volume()
        r3 = s.stepheight_level()
        f = env.surface(env.rows(r3.data), sx, sy)
        env.eq('step height of the heights after levelling', r3.stepheight(), f.stepheight())
        env.eq('cavity volume of the heights after levelling', r3.cavity_volume(), f.cavity_volume())
        env.eq('mean of the heights after levelling', r3.data.mean(), f.data.mean())
        env.eq('Sq of the heights after levelling', r3.Sq(), f.Sq())


def otsu(env, n1, n2, nbins):
    """the threshold separates two groups with a gap"""
    ot = env.pkg('surfalize.mathutils').otsu_threshold
    a = env.real('a', -3, 3)
    lo = [a] + [a + env.real(f'l{k}', 0, Fraction(1, 2)) for k in range(n1 - 1)]
    hi = [a + 4] + [a + 4 - env.real(f'h{k}', 0, Fraction(1, 2)) for k in range(n2 - 1)]
    order = [lo[0]] + hi + lo[1:]
    t = ot(env.array(order), nbins=nbins)
    for v in lo:
        env.le('lower group is not above the threshold', v, t)
    for v in hi:
        env.check('upper group is above the threshold', v > t)
    t2 = ot(env.array(order[:2] + [env.nan()] + order[2:]), nbins=nbins)
    env.eq('non-measured values are ignored', t2, t)


def harnesses(tier):
    hs = [H('step cav', step, pat='cav', time=60, bounds='3x4, exact levels'), H('step slot', step, pat='slot', time=60, bounds='4x3, exact levels'), H('step most', step, pat='most', time=60, bounds='3x4, exact levels'),
          H('step rough lower', step, pat='cav', rough=((1, 1), (2, 2)), time=90, max_paths=2000, bounds='3x4, two rough points within 0.5 % of the step height'),
          H('step rough upper', step, pat='slot', rough=((0, 0), (3, 2)), time=90, max_paths=2000, bounds='4x3, two rough points'),
          H('step rough both', step, pat='most', rough=((0, 0), (1, 0)), time=90, max_paths=2000, bounds='3x4, one rough point per level'),
          H('volume threshold', volume_threshold, pat='cav', thr=Fraction(3, 4), time=60, bounds='one intermediate depth'),
          H('volume threshold 2', volume_threshold, pat='slot', thr=Fraction(1, 2), time=60, bounds='one intermediate depth'),
          H('volume threshold zero', volume_threshold, pat='slot', thr=Fraction(0), time=60, bounds='one intermediate depth'),
          H('volume threshold small', volume_threshold, pat='cav', thr=Fraction(3, 64), span=(Fraction(1, 100), Fraction(9, 100)), time=60, bounds='one shallow depth, threshold 3/64'),
          H('volume threshold large', volume_threshold, pat='slot', thr=Fraction(61, 64), span=(Fraction(91, 100), Fraction(99, 100)), time=60, bounds='one deep point, threshold 61/64'),
          H('volume threshold any', volume_threshold, pat='cav', time=60, bounds='one intermediate depth, threshold 0.05..0.95'),
          H('level cav', level, pat='cav', time=90, bounds='3x4 tilted by up to 2 % per pixel', max_paths=2000), H('level slot', level, pat='slot', inplace=True, time=90, bounds='4x3 tilted', max_paths=2000),
          H('otsu 2 2', otsu, n1=2, n2=2, nbins=16, time=60, bounds='two groups of two values, 16 bins'), H('otsu 3 2', otsu, n1=3, n2=2, nbins=8, time=60, bounds='3+2 values, 8 bins')]
    rows = [[80, 81, 79, 80, 80], [80, 2, 25, 1, 80], [81, 0, 45, 42, 79], [80, 80, 55, 80, 80]]
    hs.append(H('defaults', defaults, rows=rows, steps=(2, 3), time=60, bounds='4x5 pattern, any scale and offset', cases=[('default threshold', lambda s: s.cavity_volume(), lambda s: s.cavity_volume(0.5)), ('not in place by default', lambda s: [s.stepheight_level(), s][1], lambda s: s)]))
    P['many'] = [''.join('L' if 3 < i < 12 and (i * 3 + j * 5) % 7 < 3 or j == 2 else 'U' for j in range(17)) for i in range(15)]
    P['long'] = [''.join('L' if (j // 40 + i) % 2 else 'U' for j in range(280)) for i in range(3)]
    P['tall'] = [('LLU' if i % 50 < 23 else 'UUU') for i in range(300)]
    P['huge'] = [''.join('L' if 30 < i < 92 and (i * 3 + j * 5) % 7 < 3 or j == 2 else 'U' for j in range(115)) for i in range(110)]
    hs += [H(f'large step {p}', step, pat=p, time=200, bounds=f'{len(P[p])}x{len(P[p][0])}, exact levels') for p in ('many', 'long', 'tall', 'huge')]
    hs += [H('large volume threshold', volume_threshold, pat='many', thr=Fraction(3, 4), time=90, bounds='15x17'), H('large level', level, pat='many', tilt=(Fraction(1, 100), Fraction(-1, 80)), time=120, max_paths=2000, bounds='15x17, one tilt in units of the step height')]
    if tier == 'thorough':
        hs += [H('T otsu 3 3', otsu, n1=3, n2=3, nbins=24, time=600, max_paths=8000, bounds='3+3 values, 24 bins'),
               H('T step rough', step, pat='cav', rough=((1, 1), (2, 2), (0, 0)), spread=Fraction(1, 100), time=900, max_paths=8000, bounds='3x4, three rough points within 1 %')]
    return hs
