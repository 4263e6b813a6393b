"""Material ratio curve: Smr/Smc/Sxp/Sdc (and the profile variants)."""
import math
from fractions import Fraction
from .common import H, ordered, small_bins, Curve, topo, par, wide, big, flatten
NOTE = 'curve sampled with the stated number of classes instead of 10000; heights in fixed rank patterns (all values with that pattern)'


def curve(env, order, nbins, kind, ties=(), ny=None):
    small_bins(env, nbins)
    z, b = ordered(env, order, ties=ties)
    t = topo(env, z, kind, ny)
    mc = par(t, 'mc')
    cv = Curve(env, b, nbins)
    env.eq('height at 0 % is the maximum', mc(0), b[-1])
    env.eq('height at 100 % is the minimum', mc(100), b[0])
    ms = sorted(set(cv.mr) | {Fraction(5, 2), 50, 10, 80, Fraction(77, 3)})
    hs = [mc(m if env.symbolic else float(m)) for m in ms]
    for m, h in zip(ms, hs):
        env.eq(f'height at {float(m):.4g} %', h, cv.at(m))
    for h0, h1 in zip(hs, hs[1:]):
        env.le('height falls with the material ratio', h1, h0)
    env.eq('height difference 2.5/50', par(t, 'xp')(), cv.at(Fraction(5, 2)) - cv.at(50))
    env.eq('height difference 10/80', par(t, 'dc')(10, 80), cv.at(10) - cv.at(80))
    env.eq('height difference default', par(t, 'dc')(), cv.at(Fraction(5, 2)) - cv.at(50))
    for p, q in ((20, 70), (70, 20), (0, 100), (50, 50), (100, 33), (5, 2)):
        env.eq(f'height difference {p} {q}', par(t, 'xp')(p, q), cv.at(p) - cv.at(q))
        env.eq(f'height difference {p} {q}', par(t, 'dc')(p, q), cv.at(p) - cv.at(q))


def ratio(env, order, nbins, kind, ny=None, ties=()):
    """material ratio as a function of the height"""
    small_bins(env, nbins)
    z, b = ordered(env, order, ties=ties)
    t = topo(env, z, kind, ny)
    mr, mc = par(t, 'mr'), par(t, 'mc')
    env.eq('ratio at the maximum', mr(b[-1]), 0)
    env.eq('ratio at the minimum', mr(b[0]), 100)
    env.eq('ratio above the maximum', mr(b[-1] + 1), 0)
    env.eq('ratio below the minimum', mr(b[0] - 1), 100)
    for m in (Fraction(5, 2), 20, Fraction(100, 3), 90):
        env.eq('ratio of height of ratio', mr(mc(m if env.symbolic else float(m))), m if env.symbolic else float(m), tol=1e-4)
    c = env.real('c', -60, 60)
    r = mr(c)
    env.nonneg('ratio >= 0', r)
    env.le('ratio <= 100', r, 100)
    e = env.real('e', 0, 5)
    env.le('ratio falls with the height', mr(c + e), r, tol=1e-4)
    h = mc(r)
    env.check('height of ratio of height', env.or_(c >= b[-1] - (0 if env.symbolic else 1e-6), c <= b[0] + (0 if env.symbolic else 1e-6), env.abs(h - c) <= (0 if env.symbolic else 1e-4)))


def levels(env, pat, nbins, kind):
    """few different heights, many points of each: shares beyond the heights and between them"""
    small_bins(env, nbins)
    lev = [env.real('c', -5, 5)]
    for k in range(max(pat)):
        lev.append(lev[-1] + env.real(f'd{k}', Fraction(1, 100), 10))
    t = topo(env, [lev[v] for v in pat], kind)
    mr, mc = par(t, 'mr'), par(t, 'mc')
    N = len(pat)
    e = env.real('e', Fraction(1, 1000), 10)
    env.eq('all points lie above a lower height', mr(lev[0] - e), 100)
    env.eq('no point lies above a greater height', mr(lev[-1] + e), 0)
    f = (lambda v: v) if env.symbolic else float
    for k, h in enumerate(lev):
        w, up = Fraction(100 * sum(v >= k for v in pat), N), Fraction(100 * sum(v > k for v in pat), N)
        tol = 100 * (Fraction(1, N - 1) + Fraction(2, nbins - 1))
        if k in (0, len(lev) - 1) and env.symbolic:
            env.close(f'share at or above level {k}', mr(h), w, tol, 1)
        if k:
            q = env.real(f'q{k}', Fraction(1, 100), Fraction(99, 100))
            env.close(f'share above a height below level {k}', mr(h - q * (h - lev[k - 1])), f(w), f(tol), 1)
        mid = (w + up) / 2
        i = int(mid * (nbins - 1) / 100)
        pos = [(N - 1) * (1 - Fraction(j, nbins - 1)) for j in (i, i + 1)]
        srt = sorted(pat)
        if all(srt[math.floor(p)] == srt[math.ceil(p)] == k for p in pos):
            env.eq(f'height of a share of level {k}', mc(f(mid)), h)


def moved(env, order, order2, nbins, kind):
    """the curve depends on the heights only, follows offsets and positive scaling"""
    small_bins(env, nbins)
    z, b = ordered(env, order)
    k, a = env.real('off'), wide(env)
    t = topo(env, z, kind)
    z2 = [None] * len(b)
    for r, p in enumerate(order2):
        z2[p] = b[r]
    P = env.pkg('surfalize.profile').Profile
    mk = (lambda q: P(env.array(q), 1)) if kind == 'profile' else (lambda q: env.surface([q], 1, 1) if False else env.surface([q[:len(q) // 2], q[len(q) // 2:]], 1, 1))
    t2, t3 = mk(z2), mk([a * v + k for v in z])
    for m in (0, Fraction(5, 2), 10, 50, 80, 100):
        m = m if env.symbolic else float(m)
        env.eq('independent of the arrangement', par(t2, 'mc')(m), par(t, 'mc')(m))
        env.eq('follows offset and scaling', par(t3, 'mc')(m), a * par(t, 'mc')(m) + k)
    c = env.real('c', -60, 60)
    env.eq('ratio follows offset and scaling', par(t3, 'mr')(a * c + k), par(t, 'mr')(c), tol=1e-4)


def resolved(env, ny, nx, kind):
    """the curve as the library samples it by default, for many points"""
    pat = flatten(big(ny, nx))
    a, c = wide(env), env.real('c', -5, 5)
    t = topo(env, [a * (v + c) for v in pat], kind, ny)
    srt, N = sorted(pat), len(pat)
    k = (lambda f: Fraction(f)) if env.symbolic else float
    rng = srt[-1] - srt[0]
    for m in (0, Fraction(5, 2), 10, Fraction(77, 3), 50, 80, Fraction(199, 2), 100):
        pos = (N - 1) * (1 - Fraction(m) / 100)
        i = min(int(pos), N - 2)
        w = srt[i] + (pos - i) * (srt[i + 1] - srt[i])
        g = par(t, 'mc')(m if env.symbolic else float(m))
        env.close(f'height at {float(m):.4g} %', g / a - c, k(w), Fraction(1, 1000), rng)
    for q in (srt[0] - 1, srt[0] + Fraction(1, 2), -1 + Fraction(1, 3), Fraction(41, 2), srt[-1] - Fraction(1, 2), srt[-1] + 1, srt[0], srt[N // 2], srt[-1]):
        r = par(t, 'mr')(a * (k(q) + c))
        w = Fraction(100 * sum(v >= q for v in pat), N)
        env.close(f'share of points above level {float(q):.4g}', r, k(w), Fraction(1, N - 1) + Fraction(3, 10 ** 4), 100)


def harnesses(tier):
    o6, o6b, o8 = (3, 0, 5, 1, 4, 2), (1, 5, 2, 0, 3, 4), (4, 2, 0, 6, 1, 3, 5, 7)
    hs = []
    for k, (o, nb, kind, ties) in enumerate([(o6, 6, 'surface', ()), (o8, 11, 'profile', ()), (o6b, 7, 'surface', (2, 5)), (o8, 5, 'surface', (1, 2, 3)), (o6, 9, 'profile', (1, 4, 5))]):
        hs.append(H(f'curve {k}', curve, time=40, order=o, nbins=nb, kind=kind, ties=ties, bounds=f'{len(o)} points, {nb} classes, rank pattern {o}, ties {ties}'))
    for k, (o, nb, kind) in enumerate([(o6, 4, 'surface'), (o6b, 5, 'profile'), (o8, 4, 'surface')]):
        hs.append(H(f'ratio {k}', ratio, time=90, max_paths=2000, order=o, nbins=nb, kind=kind, bounds=f'{len(o)} points, {nb} classes, any height c'))
    hs += [H('moved surface', moved, time=60, order=o6, order2=o6b, nbins=5, kind='surface', bounds='6 points, 5 classes, any offset, factor in [1/8,8]'),
           H('moved profile', moved, time=60, order=o6b, order2=o6, nbins=4, kind='profile', bounds='6 points, 4 classes')]
    for k, (pat, nb, kind) in enumerate([((0, 1, 1, 0), 6, 'surface'), ((0, 0, 0, 1, 0, 1), 9, 'profile'), ((1, 1, 1, 0, 1, 1), 8, 'surface'), ((2, 0, 0, 1, 0, 0, 2, 0), 7, 'profile'), ((1, 1, 1, 1, 2, 0, 1, 1), 12, 'surface')]):
        hs.append(H(f'levels {k}', levels, time=90, pat=pat, nbins=nb, kind=kind, bounds=f'levels {pat}, any heights of the levels, {nb} classes'))
    hs += [H(f'resolved {k} {a}x{b}', resolved, time=400, ny=a, nx=b, kind=k, bounds=f'{a}x{b} fixed pattern, scale 1e-6..1e4, any offset, default number of classes') for k, a, b in (('surface', 12, 10), ('profile', 1, 300), ('surface', 36, 30), ('surface', 110, 112)) + ((('profile', 1, 34000),) if tier == 'thorough' else ())]
    if tier == 'thorough':
        import itertools
        for k, o in enumerate(itertools.islice(itertools.permutations(range(5)), 0, 120, 5)):
            hs.append(H(f'T curve p{k}', curve, time=60, order=o, nbins=4 + k % 9, kind='profile', bounds='5 points'))
        hs += [H('T ratio 0', ratio, time=600, order=o8, nbins=9, kind='profile', max_paths=4000, bounds='8 points, 9 classes'),
               H('T moved', moved, time=600, order=o8, order2=tuple(range(8)), nbins=8, kind='surface', max_paths=4000, bounds='8 points, 8 classes')]
    return hs
