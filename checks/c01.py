"""Areal height parameters equal their ISO 25178-2 definitions for every height map within the bound."""
import statistics
from fractions import Fraction
from .common import H, height_defs, flatten, wide, big, spikes, BIG
NOTE = 'heights are arbitrary reals; float rounding is outside the claim'

PARAMS = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku']


def defs(env, ny, nx, how='method'):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    flat = flatten(z)
    d = height_defs(env, flat)
    env.assume(d['q2'] > 0)
    s = env.surface(z, sx, sy)
    if how == 'method':
        got = {p: getattr(s, p)() for p in PARAMS}
    elif how == 'dict':
        got = s.roughness_parameters(PARAMS)
        env.concrete('roughness_parameters returns exactly the requested names', list(got) == PARAMS)
    else:
        got = dict(s.height_parameters())
    for k, p in zip('aqpvz', PARAMS):
        env.eq(p, got[p], d[k])
    env.eq('Ssk', got['Ssk'] * d['q'] * d['q2'], d['m3'])
    env.eq('Sku', got['Sku'] * d['q2'] * d['q2'], d['m4'])
    env.le('Sa <= Sq', got['Sa'] * got['Sa'], got['Sq'] * got['Sq']) if ny * nx <= 4 else None
    env.eq('Sz = Sp + Sv', got['Sz'], got['Sp'] + got['Sv'])


def stats(env, ny, nx, nan):
    """min/max/mean/median/std ignore non-measured points"""
    z = env.grid('h', ny, nx, nan=nan)
    s = env.surface(z, *env.steps())
    v = [z[i][j] for i in range(ny) for j in range(nx) if (i, j) not in nan]
    m = env.mean(v)
    env.eq('min', s.min(), env.min(v))
    env.eq('max', s.max(), env.max(v))
    env.eq('mean', s.mean(), m)
    env.eq('std', s.std(), env.sqrt(env.mean([(x - m) * (x - m) for x in v])))
    med = s.median()
    # a median has at least half of the values on either side (and is the midpoint for even counts)
    n = len(v)
    lo = env.sum(env.ite(x <= med, 1, 0) for x in v)
    hi = env.sum(env.ite(x >= med, 1, 0) for x in v)
    env.le('median: half below', n, 2 * lo)
    env.le('median: half above', n, 2 * hi)
    if n == 2:
        env.eq('median of two', med, (v[0] + v[1]) / 2)


def constant(env, ny, nx):
    c = env.real('c')
    s = env.surface([[c] * nx for _ in range(ny)], *env.steps())
    for p in PARAMS[:5]:
        env.eq(p + ' of a constant surface', getattr(s, p)(), 0)


PAT = [[0, 3, -1, 2], [5, -4, 1, 1], [2, 0, -2, 7]]


def scaling(env, sign, pat=PAT):
    """heights over ten decades: the definitions are homogeneous"""
    a, c = wide(env), env.real('c', -5, 5)
    flat = flatten(pat)
    m = Fraction(sum(flat), len(flat))
    d = [sign * (v - m) for v in flat]
    N = len(d)
    q2 = sum(x * x for x in d) / N
    k = (lambda f: f) if env.symbolic else float
    s = env.surface([[a * (sign * v + c) for v in r] for r in pat], *env.steps())
    g = s.height_parameters()
    env.eq('Sa / scale', g['Sa'] / a, k(sum(abs(x) for x in d) / N))
    env.eq('Sq^2 / scale^2', g['Sq'] / a * (g['Sq'] / a), k(q2))
    env.eq('Sp / scale', g['Sp'] / a, k(max(d)))
    env.eq('Sv / scale', g['Sv'] / a, k(-min(d)))
    env.eq('Sz / scale', g['Sz'] / a, k(max(d) - min(d)))
    env.eq('Ssk independent of the scale', g['Ssk'] * g['Ssk'], k((sum(x ** 3 for x in d) / N) ** 2 / q2 ** 3))
    env.check('Ssk sign', g['Ssk'] > 0 if sum(x ** 3 for x in d) > 0 else g['Ssk'] < 0)
    env.eq('Sku independent of the scale', g['Sku'], k(sum(x ** 4 for x in d) / N / q2 ** 2))


def scaling_stats(env, sign, pat, hole, med=True):
    """statistics over the measured points of many"""
    a, c = wide(env), env.real('c', -5, 5)
    nx = len(pat[0])
    gone = lambda i: hole and i % hole == 0
    v = [sign * x for i, x in enumerate(flatten(pat)) if not gone(i)]
    m = Fraction(sum(v), len(v))
    k = (lambda f: f) if env.symbolic else float
    s = env.surface([[env.nan() if gone(i * nx + j) else a * (sign * x + c) for j, x in enumerate(r)] for i, r in enumerate(pat)], *env.steps())
    std = s.std() / a
    env.eq('std^2 / scale^2', std * std, k(sum((x - m) ** 2 for x in v) / len(v)))
    env.eq('mean / scale', (s.mean() - a * c) / a, k(m))
    env.eq('min / scale', (s.min() - a * c) / a, k(Fraction(min(v))))
    env.eq('max / scale', (s.max() - a * c) / a, k(Fraction(max(v))))
    if med:
        env.eq('median / scale', (s.median() - a * c) / a, k(Fraction(statistics.median(v))))


def harnesses(tier):
    hs = [H(f'defs {how} {a}x{b}', defs, bounds=f'{a}x{b} heights arbitrary reals, steps in [1/8,8], non-constant', ny=a, nx=b, how=how, time=t)
          for how, a, b, t in [('method', 2, 3, 30), ('dict', 3, 2, 30), ('raw', 1, 4, 30), ('method', 2, 2, 30), ('method', 4, 2, 40)]]
    hs += [H(f'statistics {a}x{b} nan{k}', stats, bounds=f'{a}x{b}, fixed non-measured pattern', ny=a, nx=b, nan=nan, time=30)
           for k, (a, b, nan) in enumerate([(2, 2, ()), (2, 3, ((0, 1), (1, 2))), (1, 3, ((0, 1),)), (3, 2, ((0, 0), (2, 1), (1, 1)))])]
    hs.append(H('constant', constant, bounds='3x4 constant surface', ny=3, nx=4))
    hs += [H(f'scaling {k}', scaling, sign=k, time=30, bounds='3x4 fixed pattern, height scale 1e-6..1e4, any offset') for k in (1, -1)]
    hs += [H(f'large {a}x{b}', scaling, sign=1, pat=big(a, b), time=200, bounds=f'{a}x{b} fixed pattern, height scale 1e-6..1e4, any offset') for a, b in BIG + [(330, 310)] + ([(1010, 1000)] if tier == 'thorough' else [])]
    hs += [H(f'spikes {a}x{b}', scaling, sign=k, pat=spikes(a, b, n), time=100, bounds=f'{a}x{b} flat with few peaks and pits, any height scale and offset') for a, b, n, k in [(331, 331, 997, 1), (40, 41, 131, -1), (6, 7, 23, 1)]]
    hs += [H(f'large statistics {a}x{b} {hole}', scaling_stats, sign=g, pat=big(a, b), hole=hole, med=a * b < 3000, time=90, bounds=f'{a}x{b} fixed pattern, every {hole}th point missing, any scale and offset') for a, b, hole, g in [(36, 30, 7, 1), (36, 30, 0, -1), (330, 310, 0, 1), (150, 220, 11, -1), (2, 520, 3, 1)]]
    if tier == 'thorough':
        hs += [H(f'defs T {a}x{b}', defs, bounds=f'{a}x{b}', ny=a, nx=b, time=200, query_s=30) for a, b in [(3, 3), (5, 2), (3, 4), (4, 4)]]
        hs += [H('statistics T 2x4', stats, bounds='2x4', ny=2, nx=4, nan=((0, 1),), time=300, max_paths=10000)]
    return hs
