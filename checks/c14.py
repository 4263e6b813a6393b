"""Gaussian filter: kernel from the cutoff wavelength in physical units, complementarity, composition, end effects."""
import math
from fractions import Fraction
from .common import H, flatten, integers, bulk
NOTE = 'arbitrary heights (at most 8 in magnitude); kernels: fixed cutoff and step sizes in the exact harnesses, symbolic cutoff and steps with the convolution as uninterpreted function'

ALPHA = math.sqrt(math.log(2) / math.pi)


def weights(cut_px, n, mode):
    """rows of the smoothing matrix: ISO 16610-21 weighting function exp(-pi (x / (alpha cutoff))^2), normalised"""
    lw = int(math.ceil(cut_px * 1.2)) + 2
    k = {d: math.exp(-math.pi * (d / (ALPHA * cut_px)) ** 2) for d in range(-lw, lw + 1)}
    t = sum(k.values())
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for d, w in k.items():
            e = i + d
            if not 0 <= e < n:
                if mode == 'reflect':
                    e %= 2 * n
                    e = e if e < n else 2 * n - 1 - e
                elif mode == 'mirror':
                    p = 2 * n - 2
                    e %= p
                    e = e if e < n else p - e
                elif mode == 'nearest':
                    e = min(max(e, 0), n - 1)
                elif mode == 'wrap':
                    e %= n
                else:
                    continue
            M[i][e] += w / t
    return M


def apply2(env, z, My, Mx):
    ny, nx = len(z), len(z[0])
    f = (lambda w: Fraction(w)) if env.symbolic else (lambda w: w)
    t = [[env.sum(z[i][q] * f(Mx[j][q]) for q in range(nx) if Mx[j][q]) for j in range(nx)] for i in range(ny)]
    return [[env.sum(t[p][j] * f(My[i][p]) for p in range(ny) if My[i][p]) for j in range(nx)] for i in range(ny)]


def near(env, label, got, want, tol):
    for a, b in zip(flatten(env.rows(got)), flatten(want)):
        d = a - b
        env.check(label, env.and_(d <= tol, d >= -tol))


def grid(env, ny, nx):
    return env.grid('h', ny, nx, lo=-8, hi=8)


TOL = Fraction(1, 50)


def kernel(env, ny, nx, cut, sx, sy, mode, ft, inplace=False):
    z = grid(env, ny, nx)
    s = env.surface(z, sx, sy)
    My, Mx = weights(cut / sy, ny, mode), weights(cut / sx, nx, mode)
    low = apply2(env, z, My, Mx)
    want = low if ft == 'lowpass' else [[a - b for a, b in zip(p, q)] for p, q in zip(z, low)]
    kw = {} if mode == 'reflect' else dict(endeffect_mode=mode)
    r = s.filter(ft, cut, inplace=inplace, **kw)
    near(env, f'{ft} is the Gaussian filter of the cutoff wavelength', r.data, want, TOL)
    env.concrete('object', (r is s) == inplace)
    if not inplace:
        env.eqs('original untouched', s.data, z)
    env.eq('step x', r.step_x, sx)
    env.eq('step y', r.step_y, sy)


def profile_kernel(env, n, cut, step, mode, ft, inplace=False):
    z = [env.real(f'z{k}', -8, 8) for k in range(n)]
    p = env.pkg('surfalize.profile').Profile(env.array(z), step)
    M = weights(cut / step, n, mode)
    low = apply2(env, [z], [[1.0]], M)[0]
    want = low if ft == 'lowpass' else [a - b for a, b in zip(z, low)]
    r = p.filter(ft, cut, inplace=inplace, endeffect_mode=mode)
    for a, b in zip(env.flat(r.data), want):
        env.check(f'{ft} is the Gaussian filter of the cutoff wavelength', env.and_(a - b <= TOL, b - a <= TOL))
    env.concrete('object', (r is p) == inplace)
    env.eq('step', r.step, step)
    env.eq('length', r.length_um, step * (n - 1))
    if not inplace:
        env.eqs('original untouched', p.data, z)


def complement(env, ny, nx, cut, sx, sy, mode):
    z = grid(env, ny, nx)
    s = env.surface(z, sx, sy)
    hi, lo = s.filter('both', cut, endeffect_mode=mode)
    for a, b, c in zip(flatten(env.rows(hi.data)), flatten(env.rows(lo.data)), flatten(z)):
        env.eq('highpass and lowpass parts add up to the surface', a + b, c)
    env.eqs('highpass of both', hi.data, s.filter('highpass', cut, endeffect_mode=mode).data)
    env.eqs('lowpass of both', lo.data, s.filter('lowpass', cut, endeffect_mode=mode).data)
    env.eqs('original untouched', s.data, z)
    env.concrete('independent objects', hi is not s and lo is not s and hi is not lo)


def bandpass(env, ny, nx, c1, c2, sx, sy, mode, inplace=False):
    z = grid(env, ny, nx)
    s = env.surface(z, sx, sy)
    a = apply2(env, z, weights(c1 / sy, ny, mode), weights(c1 / sx, nx, mode))
    b = apply2(env, a, weights(c2 / sy, ny, mode), weights(c2 / sx, nx, mode))
    r = s.filter('bandpass', c1, c2, inplace=inplace, endeffect_mode=mode)
    near(env, 'bandpass keeps what lies between the cutoffs', r.data, [[p - q for p, q in zip(u, v)] for u, v in zip(a, b)], TOL)
    env.concrete('object', (r is s) == inplace)
    if not inplace:
        env.eqs('original untouched', s.data, z)


def half(env, n, px, axis):
    """a wave at the cutoff wavelength passes with half of its amplitude"""
    a, c = env.real('a', 1, 4), env.real('c', -2, 2)
    step = Fraction(1, 4)
    from .c08 import cosv
    w = [cosv(env, n, k * (n // px)) for k in range(n)]
    row = [c + a * v for v in w]
    z = [list(row) for _ in range(2)] if axis == 'x' else [[v] * 2 for v in row]
    s = env.surface(z, float(step) if axis == 'x' else 3.0, float(step) if axis == 'y' else 3.0)
    r = s.filter('lowpass', float(px * step), endeffect_mode='wrap')
    for i, (p, q) in enumerate(zip(env.rows(r.data), z)):
        for j, v in enumerate(p):
            d = v - c - a * w[j if axis == 'x' else i] / 2
            env.check('half amplitude at the cutoff', env.and_(d <= a * Fraction(1, 50), d >= -a * Fraction(1, 50)) if env.symbolic else abs(d) <= a / 50)


def constant(env, ny, nx, mode):
    """a flat surface has no waviness: the lowpass reproduces it, the highpass vanishes"""
    c = env.real('c', -8, 8)
    s = env.surface([[c] * nx for _ in range(ny)], 0.5, 2.0)
    t = Fraction(1, 10**6)
    for v in env.flat(s.filter('lowpass', 3, endeffect_mode=mode).data):
        env.check('lowpass of a constant', env.and_(v - c <= t, c - v <= t))
    for v in env.flat(s.filter('highpass', 3, endeffect_mode=mode).data):
        env.check('highpass of a constant', env.and_(v <= t, v >= -t))


def arguments(env, profile=False):
    z = grid(env, 2, 3)
    s = env.pkg('surfalize.profile').Profile(env.array(z[0]), 0.5) if profile else env.surface(z, 0.5, 0.25)
    before = env.flat(s.data)
    c1, c2 = env.pos('c1'), env.pos('c2')
    env.assume(c2 <= c1)
    env.raises('unknown filter type', lambda: s.filter('notch', 2), ValueError)
    env.raises('both cannot be inplace', lambda: s.filter('both', 2, inplace=True), ValueError)
    env.raises('bandpass needs two cutoffs', lambda: s.filter('bandpass', 2), ValueError)
    env.raises('bandpass cutoffs must be ordered', lambda: s.filter('bandpass', c1, c2), ValueError)
    env.raises('bandpass cutoffs must be ordered inplace', lambda: s.filter('bandpass', c1, c2, inplace=True), ValueError)
    env.eqs('refused calls leave the data alone', s.data, before)
    G = env.pkg('surfalize.filter').GaussianFilter
    env.raises('unknown filter type of the filter class', lambda: G(2, 'bandpass'), ValueError)


def objects(env, ny, nx):
    """a filter object does what the method of the surface does, to any number of topographies"""
    G = env.pkg('surfalize.filter').GaussianFilter
    P = env.pkg('surfalize.profile').Profile
    z = grid(env, ny, nx)
    what = env.choice('what', ['surface', 'profile'])
    ft = env.choice('type', ['lowpass', 'highpass'])
    mode = env.choice('mode', [None, 'nearest', 'wrap'])
    steps = [(1, 2), (2, 1)]
    kw = {} if mode is None else {'endeffect_mode': mode}
    g = G(3, ft, **kw)
    new = lambda k: env.surface(z, *steps[k]) if what == 'surface' else P(env.array(z[0]), steps[k][0])
    for k in (0, 1, 0):
        s, want = new(k), new(k).filter(ft, 3, endeffect_mode=mode or 'reflect')
        before = env.flat(s.data)
        for name, f in (('call', lambda **a: g(s, **a)), ('apply', lambda **a: g.apply(s, **a))):
            r = f()
            env.concrete(f'{name} gives a new object', r is not s and type(r) is type(s))
            env.eqs(f'{name} leaves the original alone', s.data, before)
            env.eqs(f'{name} filters', r.data, want.data)
            env.concrete('not in place on request', f(inplace=False) is not s)
        env.concrete('in place on request', g.apply(s, inplace=True) is s)
        env.eqs('filtered in place', s.data, want.data)
        t = new(k)
        env.concrete('called in place', g(t, inplace=True) is t)
        env.eqs('filtered by a call in place', t.data, want.data)


def abstract(env, ny, nx, ft, mode, profile=False):
    """any cutoff, any step sizes: standard deviation per axis; the convolution itself is uninterpreted"""
    z = grid(env, ny, nx)
    cut = env.real('cut', Fraction(1, 2), 4)
    if profile:
        st = env.pos('step', Fraction(1, 8), 8)
        s = env.pkg('surfalize.profile').Profile(env.array(z[0]), st)
        sig = [cut / st]
    else:
        sx, sy = env.steps()
        s = env.surface(z, sx, sy)
        sig = [cut / sy, cut / sx]
    k = math.sqrt(math.log(2) / 2) / math.pi
    data = s.data
    if env.symbolic:
        from symx import scipyfront, core
        calls = []

        def G(input, sigma, order=0, mode='reflect', cval=0.0, truncate=4.0, axes=None):
            from symx.arr import tosym, SymArray
            from symx.core import R
            a = tosym(input)
            sg = tosym(sigma)
            sg = sg.elems() if not isinstance(sg, R) else [sg] * a.ndim
            for el, s0, m0, out in calls:
                if m0 != mode or len(el) != a.size:
                    continue
                if not all((R.of(x) - R.of(y)).is_const() and (R.of(x) - R.of(y)).cval() == 0 for x, y in zip(el, a.elems())):
                    continue
                q = [R.of(x) / R.of(y) for x, y in zip(sg, s0)]
                if len(sg) == len(s0) and all(x.is_const() and abs(float(x.cval()) - 1) < 1e-9 for x in q):
                    return SymArray.from_list(out, a.shape)
            out = [R(core.Poly.atom(env.E.new_atom('G'))) for _ in range(a.size)]
            calls.append((a.elems(), list(sg), mode, out))
            return SymArray.from_list(out, a.shape)
        scipyfront.STUBS['gaussian_filter'] = G
        env.cleanup.append(lambda: scipyfront.STUBS.pop('gaussian_filter', None))
        want = G(data, env.array([x * Fraction(k) for x in sig]), mode=mode)
    else:
        import scipy.ndimage as nd
        want = nd.gaussian_filter(data, [float(x) * k for x in sig], mode=mode)
    r = s.filter(ft, cut, endeffect_mode=mode)
    w = env.flat(want)
    if ft == 'highpass':
        w = [a - b for a, b in zip(env.flat(data), w)]
    env.eqs(f'{ft}: smoothing width follows the cutoff wavelength and the step of each axis', env.flat(r.data), w)


def steady(env, ops, profile=False):
    integers(env, 1 if profile else 3, 6 if profile else 3, ops, profile=profile, steps=(0.5,) if profile else (0.5, 1.0), tol=Fraction(1, 10 ** 6))


def harnesses(tier):
    hs = [H('lowpass reflect', kernel, ny=3, nx=4, cut=2.0, sx=0.5, sy=2.0, mode='reflect', ft='lowpass', time=60, bounds='3x4, cutoff 2, steps 0.5 / 2'),
          H('highpass nearest', kernel, ny=4, nx=3, cut=3.0, sx=2.0, sy=0.75, mode='nearest', ft='highpass', inplace=True, time=60, bounds='4x3, cutoff 3, steps 2 / 0.75'),
          H('lowpass wrap', kernel, ny=3, nx=5, cut=1.5, sx=0.5, sy=1.0, mode='wrap', ft='lowpass', time=60, bounds='3x5'),
          H('highpass mirror', kernel, ny=3, nx=5, cut=1.5, sx=0.5, sy=1.0, mode='mirror', ft='highpass', time=60, bounds='3x5'),
          H('lowpass constant', kernel, ny=3, nx=4, cut=1.5, sx=0.5, sy=1.0, mode='constant', ft='lowpass', inplace=True, time=60, bounds='3x4')]
    hs += [H(f'profile {ft} {m}', profile_kernel, n=6, cut=2.5, step=0.5, mode=m, ft=ft, inplace=ip, time=60, bounds='6 points, cutoff 2.5, step 0.5')
           for ft, m, ip in (('lowpass', 'reflect', False), ('highpass', 'wrap', True), ('lowpass', 'nearest', True), ('highpass', 'mirror', False))]
    hs += [H(f'complement {m}', complement, ny=3, nx=3, cut=2.0, sx=0.5, sy=1.5, mode=m, time=60, bounds='3x3') for m in ('reflect', 'nearest', 'wrap')]
    hs += [H('bandpass', bandpass, ny=3, nx=4, c1=1.0, c2=3.0, sx=0.5, sy=1.0, mode='reflect', time=60, bounds='3x4, cutoffs 1 and 3'),
           H('bandpass inplace', bandpass, ny=3, nx=4, c1=1.5, c2=2.5, sx=1.0, sy=0.5, mode='wrap', inplace=True, time=60, bounds='3x4, cutoffs 1.5 and 2.5'),
           H('half x', half, n=12, px=12, axis='x', time=60, bounds='12 points, wavelength 12 pixels'), H('half y', half, n=24, px=8, axis='y', time=60, bounds='24 points, wavelength 8 pixels')]
    hs += [H(f'flat {m}', constant, ny=3, nx=4, mode=m, time=30, bounds='3x4') for m in ('reflect', 'nearest', 'wrap', 'mirror')]
    hs += [H('filter objects', objects, ny=3, nx=4, time=90, max_paths=100, bounds='3x4, arbitrary heights, two topographies of different steps')]
    hs += [H('arguments', arguments, time=30, bounds='2x3'), H('arguments profile', arguments, profile=True, time=30, bounds='3 points')]
    hs += [H(f'any cutoff {ft} {m}{" profile" if p else ""}', abstract, ny=1 if p else 2, nx=3, ft=ft, mode=m, profile=p, time=60, bounds='cutoff 0.5 to 4, steps 1/8 to 8')
           for ft, m, p in (('lowpass', 'reflect', False), ('highpass', 'wrap', False), ('lowpass', 'nearest', True), ('highpass', 'reflect', True))]
    ops = [('lowpass', lambda s: s.filter('lowpass', 2.0)), ('highpass', lambda s: s.filter('highpass', 1.5, endeffect_mode='nearest')), ('bandpass', lambda s: s.filter('bandpass', 1.0, 3.0)), ('in place', lambda s: s.filter('lowpass', 2.0, inplace=True))]
    hs += [H('integer heights', steady, time=60, ops=ops, bounds='3x3, any integers from -40 to 90, steps 0.5 / 1'), H('integer heights profile', steady, time=60, ops=ops, profile=True, bounds='6 points, any integers, step 0.5')]
    hs += [H(f'large {ft} {m} {ny}x{nx}', bulk(kernel), ny=ny, nx=nx, cut=c, sx=0.5, sy=sy, mode=m, ft=ft, inplace=ip, time=240, bounds=f'{ny}x{nx} pattern, cutoff {c}')
           for ft, m, ny, nx, c, sy, ip in (('lowpass', 'reflect', 110, 115, 4.0, 0.75, False), ('lowpass', 'reflect', 18, 26, 4.0, 0.75, False), ('highpass', 'reflect', 26, 18, 6.0, 1.0, True), ('lowpass', 'nearest', 3, 300, 5.0, 1.0, False), ('highpass', 'wrap', 270, 4, 2.0, 0.5, False))]
    hs += [H(f'large profile {ft}', bulk(profile_kernel), n=280, cut=9.0, step=0.5, mode='reflect', ft=ft, time=120, bounds='280 points, cutoff 9') for ft in ('lowpass', 'highpass')]
    hs += [H('large bandpass', bulk(bandpass), ny=16, nx=22, c1=2.0, c2=6.0, sx=0.5, sy=1.0, mode='reflect', time=120, bounds='16x22 pattern, cutoffs 2 and 6')]
    if tier == 'thorough':
        hs += [H(f'T {ft} {m} {c}', kernel, ny=6, nx=7, cut=c, sx=0.5, sy=1.25, mode=m, ft=ft, time=300, bounds='6x7') for ft in ('lowpass', 'highpass') for m in ('reflect', 'nearest', 'mirror', 'wrap', 'constant') for c in (1.0, 2.5, 5.0)]
        hs += [H(f'T bandpass {m}', bandpass, ny=5, nx=6, c1=1.0, c2=4.0, sx=0.5, sy=1.0, mode=m, time=300, bounds='5x6') for m in ('reflect', 'nearest', 'mirror', 'wrap', 'constant')]
    return hs
