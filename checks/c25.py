"""Homogeneity: one minus the Gini coefficient of the cell parameters, averaged over the parameters."""
from fractions import Fraction
from .common import H, flatten, fine_rounding, wide
NOTE = 'up to four cells of up to 4x4 points; heights arbitrary for the parameters that are linear in them, families of patterns for the others; rounding of the cell parameters to 8 decimals neglected'


def gini(env, vals):
    """1 - Gini of the Lorenz curve through the sorted values"""
    n = len(vals)
    v = [env.num(x) for x in vals]
    # sum of the sorted values weighted by rank == half the sum of absolute differences, no sorting needed
    d = env.sum((v[j] - v[i]) if env.truth(v[i] <= v[j]) else (v[i] - v[j]) for i in range(n) for j in range(i + 1, n))
    return 1 - d / (n * env.sum(v))


def cells(env, z, ly, lx):
    ny, nx = len(z), len(z[0])
    return [[r[j * lx:(j + 1) * lx] for r in z[i * ly:(i + 1) * ly]] for i in range(ny // ly) for j in range(nx // lx)]


PAR = {
    'Sz': lambda env, c: env.max(flatten(c)) - env.min(flatten(c)),
    'Sp': lambda env, c: env.max(flatten(c)) - env.mean(flatten(c)),
    'Sv': lambda env, c: env.mean(flatten(c)) - env.min(flatten(c)),
    'Sa': lambda env, c: env.mean([env.abs(x - env.mean(flatten(c))) for x in flatten(c)]),
}


def near(env, label, got, want, t=Fraction(1, 10000)):
    F = Fraction if env.symbolic else float
    env.check(label, env.and_(got - want <= F(t), got - want >= -F(t)))


def linear(env, ny, nx, ly, lx, pars):
    """any heights; the parameters are recomputed for every cell from its heights"""
    fine_rounding(env, 8)
    z = [list(r) for r in env.grid('h', ny, nx, lo=-10, hi=10)]
    oracle = []
    F = (lambda x: x) if env.symbolic else float
    cs = cells(env, z, ly, lx)
    for k, c in enumerate(cs):
        v = flatten(c)
        if len(v) == 2:
            env.assume(env.max(v) - env.min(v) >= 1)
        else:
            # the highest and lowest point, and for Sa the points above the mean, have fixed places in the cell
            n = len(v)
            hi, lo = v[(k + 1) % n], v[(k + 3) % n]
            env.assume(env.and_(hi - lo >= 1, *[env.and_(x <= hi, x >= lo) for x in v]))
            m = env.sum(v) / n
            if 'Sa' in pars:
                env.assume(env.and_(*[(x >= m) if x is hi or x is v[(k + 2) % n] else (x <= m) for x in v]))
                oracle.append({'Sa': 2 * (hi - m + v[(k + 2) % n] - m) / n})
            else:
                oracle.append({'Sz': hi - lo, 'Sp': hi - m, 'Sv': m - lo})
    # step sizes are such that a square cell of the given period has ly x lx points
    per = F(Fraction(12))
    sx, sy = F(Fraction(12, lx)), F(Fraction(12, ly))
    s = env.surface(z, sx, sy)
    got = s.homogeneity(parameters=pars, period=per)
    want = env.mean([gini(env, [o[p] for o in oracle] if oracle else [PAR[p](env, c) for c in cs]) for p in pars])
    near(env, 'homogeneity is the mean of 1 - Gini', got, want)
    if not oracle:
        env.check('between 0 and 1', env.and_(got <= Fraction(10001, 10000), got >= 0) if env.symbolic else 0 <= got <= 1)
    env.eqs('original untouched', s.data, z)


def tile(env, ty, tx, pars=None):
    """a periodic surface whose cells are all alike is perfectly homogeneous"""
    fine_rounding(env, 8)
    a = env.pos('a', Fraction(1, 2), 3)
    c = env.real('c', -5, 5)
    pat = [[0, 3, 1], [2, -4, 5], [1, 0, -2]]
    z = [[c + a * pat[i % 3][j % 3] for j in range(3 * tx)] for i in range(3 * ty)]
    s = env.surface(z, 1, 1)
    args = {} if pars is None else dict(parameters=pars)
    near(env, 'identical cells are homogeneous', s.homogeneity(period=3, **args), 1, Fraction(1, 5000))


def scaled(env, pars):
    """neither the amplitude nor an offset matters"""
    fine_rounding(env, 8)
    a, c = wide(env, 'a'), env.real('c', -5, 5)
    pat = [[0, 3, 1, 2], [2, -4, 5, 0], [1, 0, -2, 3], [0, 1, 3, 9]]
    z = [[a * v + c for v in r] for r in pat]
    h1, h2 = env.surface(z, 1, 1).homogeneity(parameters=pars, period=2), env.surface(pat, 1, 1).homogeneity(parameters=pars, period=2)
    near(env, 'independent of amplitude and offset', h1, h2)
    # the cells of the turned and mirrored surface are the same ones
    near(env, 'independent of the arrangement of the cells', env.surface([r[::-1] for r in z][::-1], 1, 1).homogeneity(parameters=pars, period=2), h1)


def weights(env, pars):
    """cells with different amplitudes: the Gini coefficient of the amplitudes"""
    fine_rounding(env, 8)
    w = [env.real(f'w{i}', 1, 10) for i in range(4)]
    pat = [[0, 3], [2, -1]]
    z = [[w[2 * (i // 2) + j // 2] * pat[i % 2][j % 2] for j in range(4)] for i in range(4)]
    s = env.surface(z, 1, 1)
    near(env, '1 - Gini of the amplitudes', s.homogeneity(parameters=pars, period=2), gini(env, w))


def default_period(env):
    """without a period the cells have the side length of the period found in the spectrum"""
    fine_rounding(env, 8)
    from .c08 import wave
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    z = [[c + a * v * (1 + (i // 4) + 2 * (j // 4)) for j, v in enumerate(r)] for i, r in enumerate(wave(env, 8, 8, 2, 0))]
    s = env.surface(z, 1, 1)
    p = s.period()
    near(env, 'period from the spectrum', s.homogeneity(parameters=('Sz',)), env.surface(z, 1, 1).homogeneity(parameters=('Sz',), period=p))
    env.raises('parameters that may be negative', lambda: s.homogeneity(parameters=('Sa', 'Ssk')), ValueError)


def refused(env):
    z = env.grid('h', 4, 4)
    s = env.surface(z, 1, 1)
    for n in ('Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period'):
        env.raises(f'{n} not allowed', lambda: s.homogeneity(parameters=(n,), period=2), ValueError)
        env.raises(f'{n} among others not allowed', lambda: s.homogeneity(parameters=('Sa', n), period=2), ValueError)
    i, j = env.concint('i', 0, 3), env.concint('j', 0, 3)
    z[i][j] = env.nan()
    small = env.surface(env.grid('g', 3, 6), 1, 1)
    k = env.choice('cell', [4, 6, 7, 20])
    env.raises('no complete cell', lambda: small.homogeneity(parameters=('Sa',), period=k), ValueError)
    env.raises('non-measured points', lambda: env.surface(z, 1, 1).homogeneity(parameters=('Sa',), period=2), ValueError)


def harnesses(tier):
    hs = []
    for ny, nx, ly, lx, pars in ((2, 4, 2, 2, ('Sz',)), (4, 2, 2, 2, ('Sz',)), (3, 5, 2, 2, ('Sz',)), (5, 3, 2, 2, ('Sz',)), (2, 4, 2, 2, ('Sp',)), (2, 4, 2, 2, ('Sv',)), (2, 4, 1, 2, ('Sz',)), (2, 4, 2, 2, ('Sa',))):
        hs.append(H(f'linear {pars} {ny}x{nx} {ly}x{lx}', linear, time=120, ny=ny, nx=nx, ly=ly, lx=lx, pars=pars, bounds=f'{ny}x{nx} in cells of {ly}x{lx}, any heights'))
    for ty, tx in ((1, 2), (2, 2), (3, 1)):
        hs.append(H(f'tiles {ty}x{tx}', tile, time=60, ty=ty, tx=tx, bounds='3x3 cells, any amplitude and offset'))
    hs.append(H('tiles Sz Sq', tile, time=60, ty=2, tx=2, pars=('Sz', 'Sq'), bounds='3x3 cells'))
    for p in (('Sa',), ('Sq',), ('Sku',), ('Sa', 'Sku', 'Sz'), ('Sv', 'Sp')):
        hs.append(H(f'scaled {p}', scaled, time=60, pars=p, bounds='four cells of 2x2'))
    for p in (('Sa',), ('Sq',), ('Sz',), ('Sa', 'Sz')):
        hs.append(H(f'weights {p}', weights, time=120, pars=p, bounds='four cells of 2x2, any amplitudes'))
    hs.append(H('period', default_period, time=90, bounds='8x8'))
    hs.append(H('refused', refused, time=40, bounds='4x4'))
    if tier == 'thorough':
        for ny, nx, ly, lx, pars in ((4, 4, 2, 2, ('Sz',)), (2, 6, 2, 2, ('Sz',)), (3, 6, 3, 3, ('Sz',)), (4, 4, 2, 2, ('Sv',))):
            hs.append(H(f'T linear {pars} {ny}x{nx} {ly}x{lx}', linear, time=1200, max_paths=20000, ny=ny, nx=nx, ly=ly, lx=lx, pars=pars, bounds=f'{ny}x{nx}'))
    return hs
