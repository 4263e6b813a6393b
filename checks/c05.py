"""Functional parameters: equivalence line, Sk, Smr1/2, Spk/Svk, Spkx/Svkx, Sak1/2 (and profile variants)."""
from fractions import Fraction
from .common import H, ordered, small_bins, Curve, topo, par, wide, bell
NOTE = 'areas are claimed up to the two curve classes at the intersection height, as documented in the code'


def line(env, cv):
    """equivalence line of ISO 25178-2 B.1 (forks on the position of the central region)"""
    best, start = None, 0
    for k in range(cv.n):
        if cv.mr[k] > 60:
            break
        s = (cv.at(cv.mr[k] + 40) - cv.h[k]) / 40
        if best is None:
            best = s
            continue
        env.assume(env.abs(s - best) >= (Fraction(1, 10 ** 4) if env.symbolic else 1e-6))      # secants of equal gradient are decided by rounding
        if env.truth(s > best):
            best, start = s, k
    idx = [k for k in range(cv.n) if cv.mr[start] <= cv.mr[k] <= cv.mr[start] + 40]
    n = len(idx)
    mx = sum(cv.mr[k] for k in idx) / n
    sxx = sum((cv.mr[k] - mx) ** 2 for k in idx)
    my = env.mean([cv.h[k] for k in idx])
    slope = env.sum(cv.h[k] * cv.c((cv.mr[k] - mx) / sxx) for k in idx)
    return slope, my - slope * cv.c(mx)


def functional(env, order, nbins, kind, ny=None):
    small_bins(env, nbins)
    z, b = ordered(env, order)
    t = topo(env, z, kind, ny)
    cv = Curve(env, b, nbins)
    slope, icpt = line(env, cv)
    P = lambda n: par(t, n)()
    up, low = icpt, icpt + 100 * slope
    env.eq('core height', P('k'), -100 * slope)
    env.nonneg('core height >= 0', P('k'))
    env.eq('peak height above the core', P('pkx'), b[-1] - up)
    env.eq('pit depth below the core', P('vkx'), low - b[0])
    env.eq('pkx + k + vkx = total height', P('pkx') + P('k') + P('vkx'), b[-1] - b[0])
    m1, m2 = P('mr1'), P('mr2')
    env.eq('mr1 is the ratio at the upper end of the line', m1, par(t, 'mr')(up), tol=1e-4)
    env.eq('mr2 is the ratio at the lower end of the line', m2, par(t, 'mr')(low), tol=1e-4)
    env.eq('mrk1', P('mrk1'), m1)
    env.eq('mrk2', P('mrk2'), m2)
    env.nonneg('mr1 >= 0', m1)
    if nbins < 9:
        env.le('mr1 <= mr2', m1, m2)
    env.le('mr2 <= 100', m2, 100)


def areas(env, order, nbins, kind, ny=None):
    small_bins(env, nbins)
    z, b = ordered(env, order)
    t = topo(env, z, kind, ny)
    cv = Curve(env, b, nbins)
    slope, icpt = line(env, cv)
    P = lambda n: par(t, n)()
    up, low = icpt, icpt + 100 * slope
    m1, m2 = P('mr1'), P('mr2')
    pk, vk, a1, a2 = P('pk'), P('vk'), P('ak1'), P('ak2')
    env.check('reduced peak height is a number', env.not_(env.isnan(pk)))
    env.check('reduced dale height is a number', env.not_(env.isnan(vk)))
    env.eq('hill area of the triangle', 2 * a1, pk * m1)
    env.eq('dale area of the triangle', 2 * a2, vk * (100 - m2))
    env.nonneg('pk >= 0', pk)
    env.nonneg('vk >= 0', vk)
    # exact area between the curve and the limits of the core, in height x ratio
    zero = 0 if env.symbolic else 0.0
    hill, dale = zero, zero
    w = cv.c(Fraction(100, nbins - 1))
    step = zero
    for k in range(nbins - 1):
        h0, h1 = cv.h[k], cv.h[k + 1]
        step = env.max([step, h0 - h1])
        if env.truth(h1 >= up):
            hill = hill + w * ((h0 + h1) / 2 - up)
        elif env.truth(h0 > up):
            hill = hill + w * (h0 - up) * (h0 - up) / (h0 - h1) / 2
        if env.truth(h0 <= low):
            dale = dale + w * (low - (h0 + h1) / 2)
        elif env.truth(h1 < low):
            dale = dale + w * (low - h1) * (low - h1) / (h0 - h1) / 2
    env.le('hill area at most the area above the core', 2 * a1 / 2, hill, tol=1e-5)
    env.le('hill area at least the area above the core less two classes', hill - 2 * step * (m1 + 2 * w), a1, tol=1e-5)
    env.le('dale area at most the area below the core plus two classes', a2, dale + 2 * step * (100 - m2 + 2 * w), tol=1e-5)
    env.le('dale area at least the area below the core less two classes', dale - 2 * step * (100 - m2 + 2 * w), a2, tol=1e-5)


def plateaus(env, pat, nbins, kind):
    """few different heights, many points of each"""
    small_bins(env, nbins)
    lev = [env.real('c', -5, 5)]
    for k in range(max(pat)):
        lev.append(lev[-1] + env.real(f'd{k}', Fraction(1, 100), 10))
    t = topo(env, [lev[v] for v in pat], kind)
    P = lambda n: par(t, n)()
    for n in ('k', 'pk', 'vk', 'ak1', 'ak2', 'mr1'):
        v = P(n)
        env.check(f'{n} is a number', env.not_(env.isnan(v)))
        env.check(f'{n} >= 0', v >= (0 if env.symbolic else -1e-9))
    env.check('mr2 <= 100', env.and_(env.not_(env.isnan(P('mr2'))), P('mr2') <= 100))
    env.eq('pkx + k + vkx = total height', P('pkx') + P('k') + P('vkx'), lev[-1] - lev[0])
    up = lev[-1] - P('pkx')
    low = lev[0] + P('vkx')
    e = Fraction(1, 10 ** 6) if env.symbolic else 1e-6
    # a line that leaves the curve has nothing protruding on that side
    env.check('nothing protrudes above a core that reaches the top', env.or_(up < lev[-1] + e, P('pk') <= e))
    env.check('nothing protrudes below a core that reaches the bottom', env.or_(low > lev[0] - e, P('vk') <= e))


def numbers(h, nbins=10000):
    """the parameters of fixed heights, from the standard"""
    import numpy as np
    v = np.array([float(x) for x in h])
    mr = np.linspace(0, 100, nbins)
    c = np.interp(100 - mr, np.linspace(0, 100, len(v)), np.sort(v))
    at = lambda m: np.interp(m, mr, c)
    st = mr[mr <= 60]
    k = int(np.argmax(at(st + 40) - at(st)))
    reg = (mr >= mr[k]) & (mr <= mr[k] + 40)
    slope, up = np.polyfit(mr[reg], c[reg], 1)
    low = up + 100 * slope
    share = lambda q: 100 * (1 - np.interp(q, np.sort(v), np.linspace(0, 1, len(v))))
    m1, m2 = share(up), share(low)
    x = np.linspace(0, 100, 400001)
    y = at(x)
    area = lambda f: float(np.sum((f[1:] + f[:-1]) / 2) * (x[1] - x[0]))
    return dict(k=up - low, mr1=m1, mr2=m2, pkx=v.max() - up, vkx=low - v.min(), ak1=area(np.maximum(y - up, 0)), ak2=area(np.maximum(low - y, 0)), up=up)


def resolved(env, n, kind, skew, sign=1):
    """many points and the number of classes the library uses by default"""
    pat = [sign * v for v in bell(n, skew)]
    want = numbers(pat)
    a, c = wide(env), env.real('c', -5, 5)
    f = (lambda v: Fraction(v)) if env.symbolic else float
    t = topo(env, [a * (f(v) + c) for v in pat], kind)
    P = lambda x: par(t, x)()
    rng = float(max(pat) - min(pat))
    for x in ('k', 'pkx', 'vkx'):
        env.close(x, P(x) / a, f(want[x]), 2e-3, rng)
    for x in ('mr1', 'mr2'):
        env.close(x, P(x), f(want[x]), 2e-3, 100)
    env.close('mrk1', P('mrk1'), P('mr1'), 1e-9, 100)
    env.close('mrk2', P('mrk2'), P('mr2'), 1e-9, 100)
    env.close('hill area', P('ak1') / a, f(want['ak1']), 2e-2, want['ak1'] + rng / 10)
    env.close('dale area', P('ak2') / a, f(want['ak2']), 2e-2, want['ak2'] + rng / 10)
    for x, y, m in (('pk', 'ak1', want['mr1']), ('vk', 'ak2', 100 - want['mr2'])):
        env.close(x, P(x) / a * f(m), f(2 * want[y]), 2e-2, 2 * want[y] + rng / 5)


def harnesses(tier):
    o6, o6b, o8 = (3, 0, 5, 1, 4, 2), (1, 5, 2, 0, 3, 4), (4, 2, 0, 6, 1, 3, 5, 7)
    hs = []
    for k, (o, nb, kind) in enumerate([(o6, 6, 'surface'), (o6b, 6, 'profile'), (o8, 9, 'surface'), (o6, 8, 'profile')]):
        hs.append(H(f'functional {k}', functional, time=150, order=o, nbins=nb, kind=kind, query_s=15, max_paths=600, bounds=f'{len(o)} distinct heights, {nb} classes'))
    for k, (o, nb, kind) in enumerate([(o6, 6, 'surface'), (o6b, 6, 'profile')]):
        hs.append(H(f'areas {k}', areas, time=120, order=o, nbins=nb, kind=kind, max_paths=1500, bounds=f'{len(o)} distinct heights, {nb} classes'))
    for k, (pat, nb, kind) in enumerate([((0, 1, 1, 0), 6, 'surface'), ((0, 0, 0, 1, 0, 1), 9, 'profile'), ((1, 1, 1, 0, 1, 1), 8, 'surface'), ((2, 0, 0, 1, 0, 0, 2, 0), 7, 'profile'), ((1, 1, 1, 1, 2, 0, 1, 1), 8, 'surface')]):
        hs.append(H(f'plateaus {k}', plateaus, time=90, pat=pat, nbins=nb, kind=kind, bounds=f'levels {pat}, any heights of the levels, {nb} classes'))
    for n, kind, skew, sign in ((120, 'surface', 0, 1), (300, 'profile', 1, 1), (120, 'profile', -1, 1), (300, 'surface', 1, -1), (12100, 'surface', 1, -1)) + (((34000, 'profile', 1, -1),) if tier == 'thorough' else ()):
        hs.append(H(f'resolved {kind} {n} {skew * sign}', resolved, time=400, n=n, kind=kind, skew=skew, sign=sign, bounds=f'{n} fixed heights, scale 1e-6..1e4, any offset, default number of classes'))
    if tier == 'thorough':
        for k, (o, nb, kind) in enumerate([(o8, 11, 'surface'), (o8, 11, 'profile')]):
            hs.append(H(f'T functional {k}', functional, time=900, order=o, nbins=nb, kind=kind, max_paths=6000, bounds=f'{len(o)} distinct heights, {nb} classes'))
            hs.append(H(f'T areas {k}', areas, time=900, order=o, nbins=9, kind=kind, max_paths=6000, bounds=f'{len(o)} distinct heights, 9 classes'))
    return hs
