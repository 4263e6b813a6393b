"""Fourier based parameters: period, period_x_y, orientation('fft'), Ssw, Std on superpositions of cosine waves."""
from fractions import Fraction
import math
from .common import H, wide, defaults
NOTE = 'grid sizes dividing 24 (exact roots of unity), dominant wave with arbitrary amplitude plus a weaker wave and an offset; wavelengths relative to the pixel count are recorded in KF-4'


def cosv(env, n, k):
    """cos(2 pi k / n)"""
    if env.symbolic:
        from symx.arr import trig
        return trig(n, k % n)[0]
    return math.cos(2 * math.pi * (k % n) / n)


def wave(env, ny, nx, kx, ky, shift=0):
    n = math.lcm(ny, nx, 4)
    return [[cosv(env, n, kx * j * (n // nx) + ky * i * (n // ny) + shift) for j in range(nx)] for i in range(ny)]


def surf(env, ny, nx, k1, k2, swap=False, shift=0, tiny=False):
    a, b = env.real('a', 2, 4), env.real('b', 0, Fraction(3, 2))
    c = env.real('c', -5, 5)
    if tiny:
        f = wide(env)
        a, b, c = a * f, b * f, c * f
    w1, w2 = wave(env, ny, nx, *k1, shift=shift), wave(env, ny, nx, *k2)
    sx, sy = env.steps(swap)
    return env.surface([[c + a * u + b * v for u, v in zip(r, q)] for r, q in zip(w1, w2)], sx, sy), sx, sy


def wl(env, ny, nx, k1, k2, swap=False, shift=0, known=False, tiny=False):
    s, sx, sy = surf(env, ny, nx, k1, k2, swap, shift, tiny)
    kx, ky = k1
    p, (px, py), ssw = s.period(), s.period_x_y(), s.Ssw()

    def freq2(wx, wy):
        return (kx / wx) * (kx / wx) + (ky / wy) * (ky / wy)
    true, rec = freq2(sx * nx, sy * ny), freq2(sx * (nx - 1), sy * (ny - 1))
    t = 0 if env.symbolic else 1e-6
    env.check('period is a positive number', p > 0)
    if known:
        env.eq('period is the wavelength of the dominant wave', p * p * true, 1)
    near = lambda l, v: env.check(l, env.or_(env.abs(v * true - 1) <= t, env.abs(v * rec - 1) <= t))
    near('period fits the dominant wave or deviates as recorded in KF-4', p * p)
    near('Ssw fits the dominant wave or deviates as recorded in KF-4', ssw * ssw)
    env.eq('period and Ssw agree', p, ssw)
    for nm, v, k, n, st in (('x', px, kx, nx, sx), ('y', py, ky, ny, sy)):
        if k == 0:
            env.concrete(f'no period along {nm}', math.isinf(float(v)) if not env.symbolic else type(v).__name__ == 'Inf' or v == math.inf, str(v))
        else:
            env.check(f'period along {nm} or deviation as recorded in KF-4', env.or_(env.abs(v * abs(k) - st * n) <= t, env.abs(v * abs(k) - st * (n - 1)) <= t))


def angle(env, ny, nx, k1, k2, swap=False, shift=0):
    s, sx, sy = surf(env, ny, nx, k1, k2, swap, shift)
    kx, ky = k1
    o = s.orientation(method='fft')
    if ky == 0:
        env.eq('vertical texture', o, 0)
    elif kx == 0:
        env.eq('horizontal texture', env.abs(env.num(o)), 90)
    else:
        env.check('sign of the orientation', (o < 0) if kx * ky > 0 else (o > 0))
        m = env.surface([list(r)[::-1] for r in env.rows(s.data)], sx, sy)
        env.eq('mirrored texture', m.orientation(method='fft'), -o)
        fx, fy = s.period_x_y()
        if not env.symbolic:
            env.eq('orientation from the periods', math.tan(math.radians(o)) * fy, -fx if kx * ky > 0 else fx)
    env.raises('unknown method', lambda: s.orientation(method='foo'), ValueError)


def std(env, ny, nx, k1, k2, expect):
    """square pixels per period, so the directions are multiples of 45 degree"""
    a, b = env.real('a', 2, 4), env.real('b', 0, Fraction(3, 2))
    c = env.real('c', -5, 5)
    w1, w2 = wave(env, ny, nx, *k1), wave(env, ny, nx, *k2)
    s = env.surface([[c + a * u + b * v for u, v in zip(r, q)] for r, q in zip(w1, w2)], 1, 1)
    for step in (Fraction(1, 2), 1, 5, 45):
        env.check(f'texture direction at resolution {step}', env.abs(env.num(s.Std(angle_step=float(step))) - expect) <= step)
    env.check('texture direction', env.abs(env.num(s.Std()) - expect) <= Fraction(1, 2))


def oblique(env, ny, nx, k1, k2):
    """directions on surfaces of unequal extents and pixels; the extents recorded in KF-4 are accepted as well"""
    a, b = env.real('a', 2, 4), env.real('b', 0, Fraction(3, 2))
    c = env.real('c', -5, 5)
    w1, w2 = wave(env, ny, nx, *k1), wave(env, ny, nx, *k2)
    sx, sy = env.choice('pixels', [(1, 1), (0.5, 1.0), (3.0, 0.5), (0.25, 4.0)])
    s = env.surface([[c + a * u + b * v for u, v in zip(r, q)] for r, q in zip(w1, w2)], sx, sy)
    d = [math.degrees(math.atan2(k1[1] / (sy * (ny - o)), k1[0] / (sx * (nx - o)))) % 180 for o in (0, 1)]
    for step in (0.5, 1, 5):
        g = env.num(s.Std(angle_step=step))
        near = [env.abs(g - (Fraction(v) if env.symbolic else v)) <= step * 1.001 for v in d]
        env.check(f'texture direction at resolution {step} or deviation as recorded in KF-4', env.or_(*near))
        x, y = (env.vals(v) if hasattr(env, 'vals') else list(v) for v in s.get_fourier_transform().angular_power_spectrum(angle_step=step))
        env.concrete('one entry per direction', len(x) == len(y), f'{len(x)} {len(y)}')
    t = env.surface([list(r)[::-1] for r in env.rows(s.data)], sx, sy)
    g, h = env.num(s.Std(angle_step=1)), env.num(t.Std(angle_step=1))
    # directions are rounded down to the resolution: mirrored ones add up to one entry less than half a turn
    env.check('direction of the mirrored surface', env.or_(g + h == 179, g + h == 180) if d[0] % 180 else g + h <= 180)


def lateral(env, ny, nx, k1, k2):
    """wavelengths scale with the pixel size, directions of isotropic scaling stay"""
    a, b = env.real('a', 2, 4), env.real('b', 0, Fraction(3, 2))
    c, f = env.real('c', -5, 5), env.pos('f', Fraction(1, 2), 3)
    w1, w2 = wave(env, ny, nx, *k1), wave(env, ny, nx, *k2)
    sx, sy = env.steps()
    z = [[c + a * u + b * v for u, v in zip(r, q)] for r, q in zip(w1, w2)]
    s, s2 = env.surface(z, sx, sy), env.surface(z, f * sx, f * sy)
    t = env.surface([list(r) for r in zip(*z)], sy, sx)
    for n in ('period', 'Ssw'):
        env.eq(f'{n} scales', getattr(s2, n)(), f * getattr(s, n)())
        env.eq(f'{n} of the transposed surface', getattr(t, n)(), getattr(s, n)())
    env.eq('orientation of the scaled surface', s2.orientation(method='fft'), s.orientation(method='fft'))


def harnesses(tier):
    hs = []
    cases = [(4, 6, (1, 0), (2, 1)), (6, 4, (0, 2), (1, 0)), (4, 8, (2, 1), (0, 1)), (8, 6, (1, -3), (2, 1)), (6, 6, (2, 1), (1, 1)), (3, 8, (3, 0), (0, 1))]
    for k, (ny, nx, k1, k2) in enumerate(cases):
        hs.append(H(f'wavelength {k}', wl, time=60, ny=ny, nx=nx, k1=k1, k2=k2, swap=k % 2 == 1, shift=k % 3, bounds=f'{ny}x{nx}, waves {k1} {k2}, any amplitude ratio > 4/3'))
        hs.append(H(f'orientation {k}', angle, time=60, ny=ny, nx=nx, k1=k1, k2=k2, swap=k % 2 == 0, shift=k % 3, bounds=f'{ny}x{nx}, waves {k1} {k2}'))
    hs.append(H('wavelength exact', wl, time=40, ny=4, nx=6, k1=(1, 0), k2=(2, 1), known=True, bounds='4x6'))
    for k, (ny, nx, k1, k2, e) in enumerate([(6, 6, (2, 0), (0, 1), 0), (6, 6, (0, 2), (1, 0), 90), (6, 6, (1, 1), (2, 0), 45), (6, 6, (1, -1), (0, 2), 135)]):
        hs.append(H(f'direction {k}', std, time=60, ny=ny, nx=nx, k1=k1, k2=k2, expect=e, bounds=f'{ny}x{nx}, waves {k1} {k2}, square pixels'))
    for k, (ny, nx, k1, k2) in enumerate([(4, 6, (2, 1), (1, 0)), (12, 6, (1, 1), (0, 2)), (6, 12, (1, -2), (3, 0)), (4, 12, (5, 1), (0, 1)), (12, 4, (1, -5), (1, 0)), (6, 4, (1, 2), (1, 1))]):
        hs.append(H(f'oblique direction {k}', oblique, time=60, ny=ny, nx=nx, k1=k1, k2=k2, bounds=f'{ny}x{nx}, waves {k1} {k2}, four pixel shapes'))
    hs.append(H('scaling', lateral, time=60, ny=4, nx=6, k1=(1, 1), k2=(2, 0), bounds='4x6'))
    for k in (0, 1, 4):
        ny, nx, k1, k2 = cases[k]
        hs.append(H(f'wavelength any scale {k}', wl, time=60, ny=ny, nx=nx, k1=k1, k2=k2, tiny=True, bounds=f'{ny}x{nx}, waves {k1} {k2}, height scale 1e-6 to 1e4'))
    mixed = [[round(40 * math.cos(2 * math.pi * (i + 2 * j) / 12) + 9 * math.cos(2 * math.pi * (3 * i - j) / 12) + 2 * math.sin(2 * math.pi * j / 3)) for j in range(12)] for i in range(12)]
    ft = lambda s: s.get_fourier_transform()
    hs.append(H('defaults', defaults, rows=mixed, steps=(1, 1), scale=(2, 4), time=120, bounds='12x12 pattern of oblique waves, any scale and offset',
                cases=[('default resolution of the direction', lambda s: s.Std(), lambda s: s.Std(angle_step=0.5)), ('default resolution of the direction from the spectrum', lambda s: ft(s).Std(), lambda s: ft(s).Std(0.5)), ('default resolution of the angular spectrum', lambda s: list(ft(s).angular_power_spectrum()), lambda s: list(ft(s).angular_power_spectrum(angle_step=1)))]))
    if tier == 'thorough':
        for k, (ny, nx, k1, k2) in enumerate([(8, 12, (3, 2), (1, 1)), (12, 8, (1, 4), (2, 2)), (12, 12, (5, 1), (2, 3)), (8, 8, (3, -2), (1, 0))]):
            hs.append(H(f'T wavelength {k}', wl, time=400, ny=ny, nx=nx, k1=k1, k2=k2, bounds=f'{ny}x{nx}'))
            hs.append(H(f'T orientation {k}', angle, time=400, ny=ny, nx=nx, k1=k1, k2=k2, bounds=f'{ny}x{nx}'))
    return hs
