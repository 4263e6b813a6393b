"""Cached results never go stale: after any history of edits every parameter equals the one of a fresh object with the same
heights and steps, and a repeated request gives the same answer."""
from fractions import Fraction
from .common import H, fine_rounding, flatten, ordered, small_bins, small_otsu, bulk
NOTE = 'histories of the stated length over the listed mutators, chosen by the solver; heights: a fixed pattern plus an arbitrary multiple of a second one, edited values arbitrary'


def mutators(env, profile):
    def assign(s, tag):
        rows = env.rows(s.data) if not profile else [env.flat(s.data)]
        new = [[env.num(v) * 2 + (1 if (i + j) % 2 else 0) for j, v in enumerate(r)] for i, r in enumerate(rows)]
        s.data = env.array(new if not profile else new[0])

    def edit(s, tag):
        if profile:
            s[1] = env.real(f'v{tag}', 10, 20)
        else:
            s[0, 1] = env.real(f'v{tag}', 10, 20)

    def edits(s, tag):
        if profile:
            s[0:2] = env.real(f'v{tag}', 10, 20)
        else:
            s[:, 0] = env.real(f'v{tag}', 10, 20)
    ms = {'assign': assign, 'edit': edit, 'edits': edits, 'center': lambda s, t: s.center(inplace=True), 'zero': lambda s, t: s.zero(inplace=True), 'invert': lambda s, t: s.invert(inplace=True),
          'level': lambda s, t: s.level(inplace=True), 'detrend': lambda s, t: s.detrend_polynomial(2, inplace=True), 'filter': lambda s, t: s.filter('lowpass', 2, inplace=True),
          'highpass': lambda s, t: s.filter('highpass', 2, inplace=True), 'bandpass': lambda s, t: s.filter('bandpass', 1, 3, inplace=True)}
    if profile:
        ms['crop'] = lambda s, t: s.crop((0, s.size - 2), in_units=False, inplace=True)
        ms['zoom'] = lambda s, t: s.zoom(1.5, inplace=True)
    else:
        ms['crop'] = lambda s, t: s.crop((0, s.size.x - 2, 0, s.size.y - 1), in_units=False, inplace=True)
        ms['zoom'] = lambda s, t: s.zoom(1.5, inplace=True)
        ms['rotate'] = lambda s, t: s.rotate(180, inplace=True)
        ms['steps'] = lambda s, t: s._set_data(step_x=s.step_x * 2, step_y=s.step_y * 3)
    return ms


SPAR = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdq', 'surface_area', 'Sdr', 'projected_area', 'mean', 'min', 'max', 'std', 'has_missing_points']
PPAR = ['Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq', 'mean', 'min', 'max', 'std', 'has_missing_points']


def values(env, s, names):
    out = []
    for n in names:
        a = getattr(s, n)
        out.append((n, a() if callable(a) else (1 if env.truth(a) else 0)))
    return out


def derived(env, s, profile):
    out = []
    if not profile:
        out += [('autocorrelation', v) for v in env.flat(s.get_autocorrelation_function().data)]
        out += [('acf length', 0)]
    return out


def fresh(env, s, profile):
    if profile:
        return env.pkg('surfalize.profile').Profile(env.array(env.flat(s.data)), s.step)
    return env.surface(env.rows(s.data), s.step_x, s.step_y)


def compare(env, label, a, b):
    env.concrete(f'{label}: same results', [n for n, _ in a] == [n for n, _ in b])
    for (n, x), (_, y) in zip(a, b):
        env.eq(f'{label}: {n}', x, y)


def family(env, ny, nx):
    """fixed rough pattern plus an arbitrary amount of a second one"""
    a = env.real('a', -2, 2)
    return [[((i * 7 + j * 5 + i * j * 3) % 11) - 5 + a * ((i * 3 + j * 4 + i * j) % 7) for j in range(nx)] for i in range(ny)]


def history(env, ny, nx, first, steps, profile=False, par=None, der=True):
    z = family(env, ny, nx)
    if profile:
        s = env.pkg('surfalize.profile').Profile(env.array(z[0]), 0.5)
    else:
        s = env.surface(z, 0.5, 0.75)
    names = par or (PPAR if profile else SPAR)
    ms = mutators(env, profile)
    hist = [first] + [env.choice(f'm{k}', sorted(ms)) for k in range(1, steps)]
    before = values(env, s, names)
    if der:
        derived(env, s, profile)
    if not profile:
        s.get_fourier_transform()
    compare(env, 'repeated request', values(env, s, names), before)
    for k, m in enumerate(hist):
        ms[m](s, k)
        f = fresh(env, s, profile)
        compare(env, f'after {m}', values(env, s, names), values(env, f, names))
        if der:
            compare(env, f'after {m}', derived(env, s, profile), derived(env, f, profile))
        if profile:
            env.eq('length', s.length_um, s.step * (len(env.flat(s.data)) - 1))
        else:
            env.eq('width', s.width_um, s.step_x * (len(env.rows(s.data)[0]) - 1))
            env.eq('height', s.height_um, s.step_y * (len(env.rows(s.data)) - 1))


def curve(env, order, mut, profile=False):
    """functional parameters after an edit"""
    small_bins(env, 6)
    v, _ = ordered(env, order, 'o')
    n = len(order)
    if profile:
        s = env.pkg('surfalize.profile').Profile(env.array(v), 0.5)
        pre = 'R'
    else:
        s = env.surface([v[:n // 2], v[n // 2:]], 0.5, 0.75)
        pre = 'S'
    names = [f'{pre}mr', f'{pre}mc', 'Vv', 'Vm', 'Vmp', f'{pre}xp', f'{pre}dc']
    args = {f'{pre}mr': (v[0],), f'{pre}mc': (30,), 'Vv': (20,), 'Vm': (20,)}

    def vals(o):
        return [(q, getattr(o, q)(*args.get(q, ()))) for q in names]
    vals(s)
    mutators(env, profile)[mut](s, 0)
    compare(env, f'after {mut}', vals(s), vals(fresh(env, s, profile)))


def texture(env, k1, k2, ny, nx, profile=False):
    """Fourier and autocorrelation based parameters after the texture was replaced"""
    from .c08 import wave
    a, b = env.real('a', 2, 4), env.real('b', 5, 8)
    w1, w2 = wave(env, ny, nx, *k1), wave(env, ny, nx, *k2)
    s = env.surface([[a * x for x in r] for r in w1], 0.5, 0.75)
    names = ['period', 'Ssw']

    def vals(o):
        r = [(n, getattr(o, n)()) for n in names]
        p = o.period_x_y()
        r += [('orientation', o.orientation(method='fft'))]
        return r
    vals(s)
    s.data = env.array([[a * x + b * y for x, y in zip(r, q)] for r, q in zip(w1, w2)])
    compare(env, 'after new texture', vals(s), vals(fresh(env, s, False)))


def levelled(env, pat):
    from .c10 import level
    level(env, pat)


def steps2(env):
    """step heights after an edit and after levelling"""
    small_otsu(env, 8)
    U, d, e = env.real('u', -3, 3), env.real('d', 1, 4), env.real('e', 5, 9)
    pat = ['ULU', 'ULU', 'UUU']
    z = [[U if c == 'U' else U - d for c in r] for r in pat]
    s = env.surface(z, 0.5, 0.75)
    env.eq('step height', s.stepheight(), d)
    env.eq('cavity volume', s.cavity_volume(), d * 2 * Fraction(3, 8))
    s[0, 1] = U - d - e
    s[1, 1] = U - d - e
    env.eq('step height after the edit', s.stepheight(), d + e)
    env.eq('cavity volume after the edit', s.cavity_volume(), (d + e) * 2 * Fraction(3, 8))
    r = s.stepheight_level()
    r.data = env.array([[U, U, U - d], [U, U, U - d], [U, U, U - d]])
    env.eq('step height of new data in a levelled surface', r.stepheight(), d)
    t = s.stepheight_level(inplace=True)
    t[:, 2] = U - d
    f = fresh(env, t, False)
    env.eq('step height after levelling inplace and an edit', t.stepheight(), f.stepheight())


def results(env):
    """editing a returned result does not change later answers"""
    z = env.grid('h', 2, 3)
    s = env.surface(z, 0.5, 0.75)
    d = s.height_parameters()
    keep = dict(d)
    for k in list(d):
        d[k] = 99
    for k, v in keep.items():
        env.eq(f'{k} after editing the returned dictionary', getattr(s, k)(), v)
    d2 = s.roughness_parameters(['Sa', 'Sq'])
    d2['Sa'] = 99
    env.eq('roughness_parameters', s.roughness_parameters(['Sa', 'Sq'])['Sa'], keep['Sa'])


def args(env):
    """requests with different arguments are not mixed up"""
    small_bins(env, 12)
    b = env.real('b', 1, 3)
    v = [x * b for x in (4, 0, 9, 1, 7, 3)]
    s = env.surface([v[:3], v[3:]], 0.5, 0.75)
    f = [(n, a, k) for n, a, k in [('Vmp', (10,), {}), ('Vmp', (40,), {}), ('Vmp', (), {'p': 25}), ('Vmp', (), {}), ('Vmc', (), {'p': 20, 'q': 70}), ('Vmc', (20,), {'q': 90}), ('Vvc', (20, 70), {}), ('Vvc', (20, 90), {}),
                                   ('Vvv', (60,), {}), ('Vvv', (90,), {}), ('Vm', (15,), {}), ('Vm', (35,), {}), ('Vv', (15,), {}), ('Vv', (35,), {}), ('Smc', (15,), {}), ('Smc', (65,), {}), ('Sxp', (5, 40), {}), ('Sxp', (5, 60), {}), ('Sdc', (5, 40), {}), ('Sdc', (), {'q': 60})]]
    for n, a, k in f:
        getattr(s, n)(*a, **k)
    for n, a, k in f:
        o = env.surface([v[:3], v[3:]], 0.5, 0.75)
        env.eq(f'{n} {a} {k}', getattr(s, n)(*a, **k), getattr(o, n)(*a, **k))


def close_args(env):
    """neither are requests with nearly the same arguments"""
    nb = 9
    small_bins(env, nb)
    b = env.real('b', 1, 3)
    v = [x * b for x in (4, 0, 9, 1, 7, 3)]
    new = lambda: env.surface([v[:3], v[3:]], 0.5, 0.75)
    s = new()
    # the volumes change at the middle of a class
    eps = 1e-5
    at = [(k + .5) * 100 / (nb - 1) for k in (1, 4, 6)]
    for p in at:
        for n in ('Vm', 'Vv', 'Vmp', 'Vvv'):
            lo = getattr(s, n)(p - eps)
            hi = getattr(s, n)(p + eps)
            env.eq(f'{n} {p} below', lo, getattr(new(), n)(p - eps))
            env.eq(f'{n} {p} above', hi, getattr(new(), n)(p + eps))
            env.eq(f'{n} {p} below, by keyword', getattr(s, n)(**{'q' if n == 'Vvv' else 'p': p - eps}), lo)
        env.eq(f'Vmc {p}', s.Vmc(p - eps, 95), getattr(new(), 'Vmc')(p - eps, 95))
        env.eq(f'Vmc {p}', s.Vmc(p + eps, 95), getattr(new(), 'Vmc')(p + eps, 95))
    fine_rounding(env, 4)
    z = [[b * ((i * 7 + j * 5 + i * j * 3) % 11) for j in range(6)] for i in range(6)]
    s, t = env.surface(z, 1, 1), env.surface(z, 1, 1)
    x, y = s.homogeneity(('Sz',), 2.9999), s.homogeneity(('Sz',), 3.0)
    env.eq('homogeneity below', t.homogeneity(('Sz',), 3.0), y)
    env.eq('homogeneity', env.surface(z, 1, 1).homogeneity(('Sz',), 2.9999), x)


def decay(env):
    """decay lengths for nearly the same threshold"""
    a = env.real('a', 1, 3)
    z = [[a * v for v in r] for r in [[2, -5, 9, 10], [4, 6, 0, 1], [3, 8, 7, -2]]]
    s = env.surface(z, 1, 1)
    for u, v in ((0.2, 0.2003), (0.5, 0.504), (0.301, 0.304)):
        x, y = s.Sal(u), s.Sal(v)
        env.eq(f'Sal({u})', x, env.surface(z, 1, 1).Sal(u))
        env.eq(f'Sal({v})', y, env.surface(z, 1, 1).Sal(v))


def many_args(env, order):
    """every question is answered as if it was the only one, whatever was asked before"""
    small_bins(env, 12)
    b = env.real('b', 1, 3)
    pv = [b * v for v in (4, 0, 9, 1, 7, 3, -2, 6, 5, 8, 2, -1, 3)]
    prof = lambda: env.profile(pv, 0.5)
    z = [[b * ((i * 7 + j * 5 + i * j * 3) % 11) for j in range(6)] for i in range(6)]
    surf = lambda: env.surface(z, 0.5, 0.5)
    two = [[b * (9 + (i * 3 + j) % 2 if j < 3 else (i + 2 * j) % 3) for j in range(7)] for i in range(6)]
    step = lambda: env.surface(two, 0.5, 0.75)
    Q = [(prof, n, (k,), {}) for n in ('Rp', 'Rv', 'Rz') for k in (2, 5, 3, 1)] + [(prof, 'Rz', (), {}), (prof, 'Rp', (), {'n_sections': 4})]
    Q += [(surf, 'Std', (k,), {}) for k in (1, 30, 7, 0.5)] + [(surf, 'angular', (k,), {}) for k in (45, 20, 60)]
    Q += [(step, 'cavity_volume', (k,), {}) for k in (0.3, 0.95, 0.05)] + [(step, 'cavity_volume', (), {})]
    Q += [(surf, 'homogeneity', ((p,), k), {}) for p in ('Sa', 'Sz') for k in (1.5, 2.2)]
    fine_rounding(env, 4)

    def ask(s, n, a, k):
        if n == 'angular':
            return env.flat(s.get_fourier_transform().angular_power_spectrum(*a)[1])
        return [getattr(s, n)(*a, **k)]
    objs = {m: m() for m in (prof, surf, step)}
    if order < 0:
        Q = Q[::-1]
    elif order:
        Q = Q[order:] + Q[:order]
        Q = Q[::2] + Q[1::2]
    for m, n, a, k in Q + Q[::3]:
        for x, y in zip(ask(objs[m], n, a, k), ask(m(), n, a, k)):
            env.eq(f'{n} {a} {k}', x, y, scale=100)


def harnesses(tier):
    hs = []
    smut = ['assign', 'edit', 'edits', 'center', 'zero', 'invert', 'level', 'detrend', 'filter', 'highpass', 'bandpass', 'crop', 'zoom', 'rotate', 'steps']
    cheap = ['Sq', 'Sdq', 'surface_area', 'projected_area', 'mean', 'std']
    for m in smut:
        hs.append(H(f'surface {m}', history, ny=3, nx=4, first=m, steps=1, par=[q for q in SPAR if q != 'Sdr' or m != 'rotate'], time=60, max_paths=200, bounds='3x4, one edit, all listed parameters'))
    for m in [x for x in smut if x not in ('rotate', 'steps')]:
        hs.append(H(f'profile {m}', history, ny=1, nx=7, first=m, steps=1, profile=True, time=60, max_paths=200, bounds='7 points, one edit'))
    for m in smut:
        hs.append(H(f'surface two {m}', history, ny=5, nx=6, first=m, steps=2, par=['Sq', 'Sdq', 'mean', 'surface_area'], der=False, time=90, max_paths=400, bounds='5x6, two edits'))
    for m in smut:
        if m not in ('rotate', 'steps'):
            hs.append(H(f'profile two {m}', history, ny=1, nx=8, first=m, steps=2, profile=True, time=90, max_paths=400, bounds='8 points, two edits'))
    for m in ('zero', 'invert', 'edit', 'edits'):
        hs.append(H(f'functional {m}', curve, order=(1, 3, 0, 2), mut=m, time=60, max_paths=800, bounds='2x2'))
    hs.append(H('functional profile edit', curve, order=(1, 3, 0, 2), mut='edit', profile=True, time=60, max_paths=800, bounds='4 points'))
    hs += [H('texture', texture, k1=(1, 0), k2=(0, 1), ny=4, nx=4, time=60, bounds='4x4'), H('texture 2', texture, k1=(1, 1), k2=(2, 1), ny=6, nx=6, time=60, bounds='6x6'),
           H('step height', steps2, time=60, bounds='3x3'), H('levelled step', levelled, time=90, pat='cav', max_paths=2000, bounds='3x4 tilted by up to 2 % per pixel'), H('returned results', results, time=30, bounds='2x3'), H('arguments', args, time=60, bounds='2x3'),
           H('many arguments', many_args, order=0, time=90, bounds='13 points and 6x6, any scale'), H('many arguments back', many_args, order=-1, time=90, bounds='13 points and 6x6, any scale'), H('many arguments mixed', many_args, order=7, time=90, bounds='13 points and 6x6, any scale'),
           H('close arguments', close_args, time=90, bounds='2x3 and 6x6, any scale'), H('close thresholds', decay, time=60, bounds='3x4, any scale')]
    for m in smut:
        hs.append(H(f'large surface {m}', history, ny=14, nx=19, first=m, steps=1, par=['Sa', 'Sq', 'Sz', 'Sku', 'Sdq', 'mean', 'min', 'std', 'has_missing_points'], der=False, time=90, max_paths=200, bounds='14x19, one edit'))
    if tier == 'thorough':
        for m in smut:
            hs.append(H(f'T surface all {m}', history, ny=5, nx=6, first=m, steps=2, par=[q for q in SPAR if q != 'Sdr'], time=900, max_paths=900, bounds='5x6, two edits, all parameters'))
            hs.append(H(f'T surface three {m}', history, ny=6, nx=7, first=m, steps=3, par=['Sq', 'Sdq', 'surface_area', 'mean'], time=900, max_paths=900, bounds='6x7, three edits'))
    return hs
