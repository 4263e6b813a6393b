"""Periodic textures: refined orientation, depth, aspect ratio, period of profiles.  scipy's curve_fit is replaced by its own
results at generic settings of the symbolic inputs, continued affinely and confirmed at a further setting; equivalent
parameter vectors (negative amplitude, shifted by periods) are alternatives the code has to cope with."""
from fractions import Fraction
import math
from .common import H
from .c08 import wave, cosv
NOTE = 'waves on grids whose sizes divide 24, arbitrary amplitude, amplitude modulation and offset; the non-linear fit is represented by its results continued affinely in amplitude and offset'


def lift(env, variant=0):
    if not env.symbolic:
        return
    import numpy as np
    import scipy.optimize
    from symx import scipyfront, core
    from symx.arr import tosym, rr, SymArray
    from symx.env import NumEval, generic_value
    from symx.core import R, Unsupported

    def fit(f, xdata, ydata, p0=None, **k):
        names = [n for n in env.order if env.inputs[n][3] == 'real']

        def setting(shift=None, seed=0):
            vals = {}
            for n in names:
                _, lo, hi, _ = env.inputs[n]
                lo, hi = Fraction(-8 if lo is None else lo), Fraction(8 if hi is None else hi)
                g = generic_value(n, lo, hi, 11)
                if n == shift:
                    g = g + (hi - lo) / 16 if g < (lo + hi) / 2 else g - (hi - lo) / 16
                if seed:
                    g = generic_value(n, lo, hi, 11 + seed)
                vals[n] = g
            ne = NumEval(env.E, {env.inputs[n][0].id: v for n, v in vals.items()})
            num = lambda a: np.array([ne.R(rr(v)) for v in tosym(a).elems()], dtype=float)
            x, y = num(xdata), num(ydata)
            p = None if p0 is None else [float(v) for v in num(SymArray.from_list([rr(v) for v in p0], (len(p0),)))]
            popt, _ = scipy.optimize.curve_fit(f, x, y, p0=p, **k)
            res = float(np.abs(f(x, *popt) - y).max())
            if res > 1e-5:
                raise Unsupported(f'curve_fit leaves a residual of {res}')
            if variant:
                alt = list(popt)
                if variant == 1:
                    alt[0], alt[2] = -alt[0], alt[2] + alt[1] / 2
                elif variant == 2:
                    alt[2] += 3 * alt[1]
                elif variant == 3:
                    alt[0], alt[2] = -alt[0], alt[2] - 5 * alt[1] / 2
                if float(np.abs(f(x, *alt) - y).max()) > 1e-5:
                    raise Unsupported('not an equivalent parameter vector')
                popt = np.array(alt)
            return vals, popt
        v0, q0 = setting()
        out = [R.c(0)] * len(q0)
        grad = {}
        for n in names:
            v1, q1 = setting(n)
            grad[n] = [float((b - a) / float(v1[n] - v0[n])) for a, b in zip(q0, q1)]
        snap = lambda v: Fraction(round(v * 2400), 2400) if abs(v * 2400 - round(v * 2400)) < 1e-3 else Fraction(round(v * 2 ** 30), 2 ** 30)
        for i in range(len(q0)):
            cst = float(q0[i])
            acc = R.c(0)
            for n in names:
                g = snap(grad[n][i])
                if abs(g) > Fraction(1, 10 ** 5):
                    acc = acc + R.atom(env.inputs[n][0]) * g
                    cst -= float(g) * float(v0[n])
            out[i] = acc + snap(cst)
        v2, q2 = setting(seed=5)
        ne = NumEval(env.E, {env.inputs[n][0].id: v for n, v in v2.items()})
        if any(abs(ne.R(o) - float(q)) > 1e-4 for o, q in zip(out, q2)):
            raise Unsupported('fit is not affine in the inputs')
        return SymArray.from_list(out, (len(out),)), np.zeros((len(out), len(out)))
    scipyfront.STUBS['curve_fit'] = fit
    env.cleanup.append(lambda: scipyfront.STUBS.pop('curve_fit', None))


def F(env):
    return Fraction if env.symbolic else float


# exact phases off the grid: (cosine, sine)
PH = [(Fraction(3, 5), Fraction(4, 5)), (Fraction(4, 5), -Fraction(3, 5)), (Fraction(5, 13), Fraction(12, 13)), (-Fraction(12, 13), Fraction(5, 13)), (-Fraction(8, 17), -Fraction(15, 17)), (Fraction(20, 29), -Fraction(21, 29))]


def pwave(env, n, k, ph):
    """cos(2 pi k / n + phase)"""
    c, s = PH[ph]
    if not env.symbolic:
        c, s = float(c), float(s)
    return c * cosv(env, n, k) - s * cosv(env, n, k - n // 4)


def phase(ph):
    return math.atan2(float(PH[ph][1]), float(PH[ph][0]))


def orientation(env, ny, nx, k, shift=1, variant=0, ratio=1):
    """refined orientation: direction of the wave, in degrees towards the vertical axis"""
    a, c, sx = env.real('a', 2, 4), env.real('c', -5, 5), env.pos('sx', Fraction(1, 2), 2)
    lift(env, variant)
    n = math.lcm(ny, nx, 4)
    w = [[pwave(env, n, k[0] * j * (n // nx) + k[1] * i * (n // ny), shift) for j in range(nx)] for i in range(ny)]
    z = [[c + a * v for v in r] for r in w]
    sy = sx * F(env)(ratio)
    s = env.surface(z, sx, sy)
    o = s.orientation()
    kx, ky = k[0] / nx, k[1] / ny / float(ratio)
    want = -math.degrees(math.atan2(ky, kx)) if kx else 90.0
    while want > 90:
        want -= 180
    while want < -90:
        want += 180
    t = F(env)(Fraction(1, 100))
    d = env.num(o) - F(env)(want)
    if abs(abs(want) - 90) < 1e-9:
        env.check('texture along x', env.abs(env.abs(env.num(o)) - 90) <= t)
    else:
        env.check('direction of the texture', env.and_(d <= t, d >= -t))
    env.eq('refined is the default', s.orientation(method='fft_refined'), o)
    env.raises('unknown method', lambda: s.orientation(method='x'), ValueError)
    env.eqs('surface untouched', s.data, z, scale=10)


def unequal(env):
    k, q = env.choice('case', [((2, 1), Fraction(3, 2)), ((1, 2), Fraction(3, 2)), ((1, -2), Fraction(2, 3)), ((2, -3), 2), ((2, 3), Fraction(1, 2))])
    orientation(env, 24, 24, k, ratio=q)


def median(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def window_bounds(n, p, ext, width):
    """smallest and largest median of the unit wave (cosine with a maximum at ext) around the extremum at e, over every way of
    rounding the centre and the width to pixels"""
    val = lambda i: math.cos(2 * math.pi * (i - ext) / p)
    out = []
    e = ext % (p / 2)
    k = 0
    while e + k * p / 2 <= n - 1 + p:
        c = e + k * p / 2
        lo, hi, inside, fits = 2, -2, True, False
        for m in {math.floor(c), round(c), math.ceil(c)}:
            for h in {math.floor(p * width / 2), round(p * width / 2), math.ceil(p * width / 2)}:
                if m - h < 0 or m + h > n - 1:
                    inside = False
                    continue
                fits = True
                v = abs(median([val(i) for i in range(m - h, m + h + 1)]))
                lo, hi = min(lo, v), max(hi, v)
        out.append((c, lo, hi, inside, fits))
        k += 1
    return out


def depth(env, ny, nx, k, shift, width=None, nprofiles=None, mod=True, variant=0, transpose=False):
    """peak-to-valley distances of the medians around the extrema, mean and standard deviation over profiles and periods"""
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    b = env.real('b', -Fraction(1, 4), Fraction(1, 4)) if mod else 0
    lift(env, variant)
    n = math.lcm(nx, 4)
    w = [pwave(env, n, k * j * (n // nx), shift) for j in range(nx)]
    g = [i % 3 - 1 for i in range(ny)]
    z = [[c + (a + b * g[i]) * v for v in w] for i in range(ny)]
    zz = [list(r) for r in zip(*z)] if transpose else z
    sx, sy = env.steps(transpose)
    s = env.surface(zz, sx, sy)
    kw = {}
    if width is not None:
        kw['sampling_width'] = width if env.symbolic else float(width)
    if nprofiles is not None:
        kw['nprofiles'] = nprofiles
    try:
        mean, std = s.depth(**kw)
    except IndexError as e:
        env.concrete('profiles lie on the surface', False, str(e))
        return
    p = nx / k
    ext = -phase(shift) / (2 * math.pi) * p
    win = window_bounds(nx, p, ext, float(width) if width is not None else .2)
    # pairs of adjacent extrema
    lo = min(x[1] for x in win if x[4])
    hi = max(x[2] for x in win if x[4])
    full = nprofiles == ny
    am = env.mean([a + b * v for v in g]) if full and mod else a
    sl = 0 if full else env.abs(env.num(b))
    f = F(env)
    t = f(Fraction(1, 10 ** 4))
    env.check('depth is at most the peak-to-valley height', mean <= 2 * (am + sl) * f(hi) + t)
    env.check('depth is the distance between the levels around the extrema', mean >= 2 * (am - sl) * f(lo) - t)
    env.check('standard deviation is not negative', std >= 0)
    env.check('standard deviation is bounded by the spread', std <= 2 * env.abs(env.num(b)) * f(hi) + (a + env.abs(env.num(b))) * f(2 * (hi - lo)) + t)
    if full and mod:
        # every profile counts alike
        q = env.mean([v * v for v in g]) - env.mean(g) * env.mean(g)
        v2 = env.num(std) * env.num(std)
        low = 2 * env.abs(b) * f(math.sqrt(q) * lo) - 4 * f(hi - lo) * a - t
        env.check('standard deviation reflects the profiles', env.or_(low <= 0, v2 >= low * low))
    env.eqs('surface untouched', s.data, zz, scale=10)
    env.observe('depth', env.num(mean))
    # scaling and offset, aspect ratio
    if not mod and nprofiles is not None:
        s2 = env.surface([[2 * v + 1 for v in r] for r in zz], sx, sy)
        m2, d2 = s2.depth(**kw)
        env.eq('depth scales with the heights', m2, 2 * mean)


def inclined(env, k, shift, width, npr, variant=0):
    """oblique waves: profiles run across the texture, so that the surface and its transpose have the same depth"""
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    lift(env, variant)
    N = 24
    z = [[c + a * pwave(env, N, k[0] * j + k[1] * i, shift) for j in range(N)] for i in range(N)]
    sx, sy = env.steps()
    kw = dict(nprofiles=npr, sampling_width=width if env.symbolic else float(width))
    m, d = env.surface(z, sx, sx).depth(**kw)
    n, e = env.surface([list(r) for r in zip(*z)], sx, sx).depth(**kw)
    env.eq('depth of the transpose', n, m, scale=10)
    env.eq('standard deviation of the transpose', env.num(e) * env.num(e), env.num(d) * env.num(d), scale=10)
    K = max(k, key=abs)
    p = N / abs(K)
    other = k[1] if K == k[0] else k[0]
    lo, hi = 2, -2
    for i in range(N):
        ext = -(phase(shift) + 2 * math.pi * other * i / N) / (2 * math.pi) * p * (1 if K > 0 else -1)
        for x in window_bounds(N, p, ext, float(width)):
            if x[4]:
                lo, hi = min(lo, x[1]), max(hi, x[2])
    f = F(env)
    t = f(Fraction(1, 10 ** 4))
    env.check('depth is at most that across the texture', m <= 2 * a * f(hi) + t)
    env.check('depth is at least that across the texture', m >= 2 * a * f(lo) - t)


def aspect(env, ny, nx, k, shift):
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    lift(env)
    n = math.lcm(nx, 4)
    z = [[c + a * pwave(env, n, k * j * (n // nx), shift) for j in range(nx)]] * ny
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    r = s.aspect_ratio()
    env.eq('depth per period', r * s.period(), s.depth()[0])
    env.check('positive', r > 0)


def refused(env, ny, nx, k):
    a = env.real('a', 2, 4)
    lift(env)
    z = [[a * v for v in r] for r in wave(env, ny, nx, k, 0)]
    s = env.surface(z, 1, 1)
    env.raises('more profiles than lines', lambda: s.depth(nprofiles=ny + 1), ValueError)
    t = env.surface([list(r) for r in zip(*z)], 1, 1)
    env.raises('more profiles than columns', lambda: t.depth(nprofiles=ny + 1), ValueError)
    i, j = env.concint('i', 0, 1), env.concint('j', 0, 1)
    z[i] = list(z[i])
    z[i][j] = env.nan()
    u = env.surface(z, 1, 1)
    for n in ('depth', 'orientation', 'aspect_ratio', 'period'):
        env.raises(f'{n} of non-measured points', getattr(u, n), ValueError)


def profile_period(env, n, k, k2, shift, amp=(Fraction(1, 1000), 4), off=5):
    """the period of a profile is the wavelength of its dominant wave, whatever the amplitude and the offset"""
    a, r, c = env.real('a', *amp), env.real('r', -Fraction(1, 2), Fraction(1, 2)), env.real('c', -off, off)
    st = env.pos('st')
    m = math.lcm(n, 4)
    w1 = [cosv(env, m, k * j * (m // n) + shift) for j in range(n)]
    w2 = [cosv(env, m, k2 * j * (m // n)) for j in range(n)]
    P = env.pkg('surfalize.profile').Profile
    p = P(env.array([c + a * (u + r * v) for u, v in zip(w1, w2)]), st)
    ok, q = env.attempt(p.period)
    env.concrete('a period is found', ok, repr(q))
    if ok:
        env.eq('wavelength of the dominant wave', q * k, st * n)
    z = [c + a * (u + r * v) for u, v in zip(w1, w2)]
    i = env.concint('i', 0, 1)
    z[i] = env.nan()
    env.raises('non-measured points', lambda: P(env.array(z), st).period(), ValueError)


def sinusoid(env):
    """extrema of a sinusoid, and the canonical form of a fit"""
    S = env.pkg('surfalize.mathutils').Sinusoid
    a, p, y0 = env.pos('a', Fraction(1, 2), 4), env.pos('p', 1, 10), env.real('y0', -5, 5)
    x0 = env.real('x0', -12, 12)
    s = S(a, p, x0, y0)
    for k, v in enumerate((0, Fraction(1, 2), None, 1, None, None, 0, None, None, -1, None, None, 0)):
        if v is not None:
            env.eq(f'value {k}', s(x0 + p * k / 12), y0 + a * (v if env.symbolic else float(v)), scale=20)
    for name, period in (('first_extremum', p / 2), ('first_peak', p)):
        e = getattr(s, name)()
        env.check(f'{name} lies in the first period', env.and_(e >= 0, e <= period) if env.symbolic else -1e-9 <= e <= period + 1e-9)
        # distance to the maximum at x0 + p/4 is a multiple of the period
        q = (e - x0 - p / 4) / period
        if env.symbolic:
            import z3
            from symx.core import R, SymBool
            env.check(f'{name} is an extremum', q == R.of(q).floor())
        else:
            env.check(f'{name} is an extremum', abs(q - round(q)) < 1e-6)


def harnesses(tier):
    hs = []
    for i, (k, sh) in enumerate((((2, 1), 0), ((2, -1), 1), ((1, 2), 2), ((1, -2), 3), ((3, 1), 4), ((1, 3), 5), ((2, 0), 1), ((0, 2), 3), ((-2, 1), 2))):
        hs.append(H(f'orientation {k}', orientation, time=120, ny=24, nx=24, k=k, shift=sh, variant=i % 4, bounds='24x24, any amplitude, offset and square pixels'))
    hs.append(H('orientation, unequal steps', unequal, time=120, bounds='24x24, any amplitude and offset, pixels 1/2 to 2 times as high as wide'))
    hs.append(H('orientation wide', orientation, time=120, ny=12, nx=24, k=(2, 1), shift=1, bounds='12x24'))
    hs.append(H('orientation high', orientation, time=120, ny=24, nx=12, k=(1, 1), shift=1, bounds='24x12'))
    # long periods: profiles are not sampled pixel by pixel
    for i, (ny, nx, k) in enumerate(((24, 24, (1, 1)), (24, 24, (1, -1)), (24, 24, (1, 0)), (24, 24, (0, 1)), (8, 24, (1, 0)), (24, 8, (0, 1)))):
        hs.append(H(f'orientation {ny}x{nx} {k}', orientation, time=300, ny=ny, nx=nx, k=k, shift=i, variant=i % 4, bounds=f'{ny}x{nx}, period of 24 points, any amplitude, offset and square pixels'))
    for i, (ny, nx, k, sh, w, npr, mod) in enumerate(((6, 24, 2, 1, None, 6, True), (6, 24, 2, 2, Fraction(3, 10), 6, True), (6, 24, 3, 5, None, 6, True), (12, 24, 2, 3, Fraction(1, 10), 4, False),
                                                     (6, 24, 2, 0, None, 3, False), (8, 24, 2, 4, None, 5, True), (4, 24, 3, 5, Fraction(1, 4), 4, True), (6, 24, 2, 1, None, 1, False), (2, 24, 2, 3, None, 2, True))):
        for tr in (False, True):
            hs.append(H(f'depth {i}{" transposed" if tr else ""}', depth, time=120, ny=ny, nx=nx, k=k, shift=sh, width=w, nprofiles=npr, mod=mod, variant=(i + tr) % 4, transpose=tr, bounds=f'{ny}x{nx}, {k} periods, any amplitude, modulation and offset'))
    hs.append(H('depth default', depth, time=120, ny=32, nx=24, k=2, shift=1, mod=False, bounds='32x24, 2 periods, default arguments'))
    hs.append(H('depth 58 lines', depth, time=120, ny=58, nx=24, k=2, shift=1, mod=False, bounds='58x24, 2 periods, default arguments'))
    for i, (k, w) in enumerate((((2, 3), Fraction(2, 5)), ((3, 2), Fraction(1, 5)), ((-2, 3), Fraction(2, 5)), ((1, 2), Fraction(1, 5)))):
        hs.append(H(f'depth inclined {k}', inclined, time=120, k=k, shift=i, width=w, npr=4, variant=i % 4, bounds='24x24, any amplitude and offset, square pixels'))
    hs.append(H('aspect ratio', aspect, time=120, ny=30, nx=24, k=2, shift=1, bounds='30x24'))
    hs.append(H('refused', refused, time=60, ny=4, nx=12, k=2, bounds='4x12'))
    for n, k, k2, sh in ((24, 2, 5, 1), (24, 1, 3, 0), (24, 5, 2, 2), (12, 2, 4, 1), (24, 8, 3, 1), (24, 3, 11, 5)):
        hs.append(H(f'profile period {n} {k}', profile_period, time=90, n=n, k=k, k2=k2, shift=sh, bounds=f'{n} points, {k} periods plus a weaker wave, any amplitude ratio below 1/2 and offset'))
    hs.append(H('sinusoid', sinusoid, time=60, bounds='any sinusoid with |x0| <= 12'))
    if tier == 'thorough':
        for i, k in enumerate(((4, 1), (1, 4), (3, 2), (2, 3), (4, -3), (3, -4), (5, 2))):
            hs.append(H(f'T orientation {k}', orientation, time=600, ny=24, nx=24, k=k, shift=i % 6, variant=(i + 1) % 4, bounds='24x24'))
        for i in range(12):
            hs.append(H(f'T depth {i}', depth, time=600, ny=4 + i % 3, nx=24, k=1 + i % 3, shift=i % 6, nprofiles=4 + i % 3, width=Fraction(1 + i % 4, 10), mod=True, variant=i % 4, bounds='24 points per line'))
    return hs
