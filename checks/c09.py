"""Non-measured points: parameters refuse them, statistics ignore them."""
from .common import H, flatten, small_bins, bulk
NOTE = 'any pattern of non-measured points (presence of every point is a solver variable)'

SURF = [('Sa',), ('Sq',), ('Sp',), ('Sv',), ('Sz',), ('Ssk',), ('Sku',), ('Sdr',), ('Sdq',), ('Sal',), ('Str',), ('Sk',), ('Spk',), ('Svk',), ('Spkx',), ('Svkx',),
        ('Sak1',), ('Sak2',), ('Smr1',), ('Smr2',), ('Smrk1',), ('Smrk2',), ('Smr', 1), ('Smc', 20), ('Sxp',), ('Sdc',), ('Vmp',), ('Vmc',), ('Vvv',), ('Vvc',),
        ('Vm', 10), ('Vv', 10), ('Std',), ('Ssw',), ('period',), ('period_x_y',), ('orientation',), ('homogeneity',), ('depth',), ('aspect_ratio',),
        ('surface_area',), ('height_parameters',), ('roughness_parameters',), ('stepheight',), ('cavity_volume',), ('filter', 'lowpass', 2), ('rotate', 10), ('align',),
        ('get_autocorrelation_function',), ('get_fourier_transform',), ('get_abbott_firestone_curve',)]
PROF = [('Ra',), ('Rq',), ('Rp',), ('Rv',), ('Rz',), ('Rt',), ('Rsk',), ('Rku',), ('Rdq',), ('Rk',), ('Rpk',), ('Rvk',), ('Rpkx',), ('Rvkx',), ('Rak1',), ('Rak2',),
        ('Rmr1',), ('Rmr2',), ('Rmrk1',), ('Rmrk2',), ('Rmr', 1), ('Rmc', 20), ('Rxp',), ('Rdc',), ('Vmp',), ('Vmc',), ('Vvv',), ('Vvc',), ('Vm', 10), ('Vv', 10),
        ('period',), ('roughness_parameters',), ('filter', 'lowpass', 2), ('get_abbott_firestone_curve',)]


def build(env, ny, nx, profile):
    small_bins(env, 8)
    if profile:
        z = [env.maybe_nan(f'nan{j}', v) for j, v in enumerate(env.vec('z', nx))]
        return z, env.pkg('surfalize.profile').Profile(env.array(z), env.pos('step'))
    z = [[env.maybe_nan(f'nan{i}_{j}', v) for j, v in enumerate(r)] for i, r in enumerate(env.grid('h', ny, nx))]
    return flatten(z), env.surface(z, *env.steps())


def refuse(env, ny, nx, part, profile=False):
    z, s = build(env, ny, nx, profile)
    env.assume(env.or_(*[env.isnan(v) for v in z]))
    env.check('missing points are reported', s.has_missing_points)
    names = (PROF if profile else SURF)[part::4]
    before = env.flat(s.data)
    for name, *a in names:
        env.raises(f'{name} refuses non-measured points', lambda: getattr(s, name)(*a), ValueError)
    # a second request must not be answered from a cache
    for name, *a in names:
        env.raises(f'{name} refuses non-measured points again', lambda: getattr(s, name)(*a), ValueError)
    for x, y in zip(env.flat(s.data), before):
        env.eq('data untouched', x, y)


def appear(env, ny, nx, part, profile=False):
    """a value computed before points went missing is not handed out afterwards"""
    z, s = build(env, ny, nx, profile)
    env.assume(env.not_(env.or_(*[env.isnan(v) for v in z])))
    env.check('no missing points', env.not_(s.has_missing_points))
    names = [n for n in (PROF if profile else SURF) if n[0] in ('Sa', 'Sq', 'Sz', 'Sdq', 'surface_area', 'height_parameters', 'Ra', 'Rq', 'Rt', 'Rdq', 'Ssk', 'Rku')]
    for name, *a in names:
        env.attempt(lambda: getattr(s, name)(*a))
    if profile:
        s[nx - 1] = env.nan()
    else:
        s[ny - 1, 0] = env.nan()
    env.check('missing points are reported', s.has_missing_points)
    for name, *a in names:
        env.raises(f'{name} refuses after a point went missing', lambda: getattr(s, name)(*a), ValueError)


def stats(env, ny, nx, profile=False):
    z, s = build(env, ny, nx, profile)
    env.assume(env.not_(env.and_(*[env.isnan(v) for v in z])))
    v = [x for x in z if not env.truth(env.isnan(x))]
    env.eq('missing points', 1 if env.truth(s.has_missing_points) else 0, 1 if len(v) < len(z) else 0)
    m = env.mean(v)
    env.eq('mean', s.mean(), m)
    env.eq('min', s.min(), env.min(v))
    env.eq('max', s.max(), env.max(v))
    sd = s.std()
    env.eq('std', sd * sd, env.mean([(x - m) * (x - m) for x in v]))
    env.check('std not negative', sd >= 0)


def median(env, ny, nx, profile=False):
    z, s = build(env, ny, nx, profile)
    env.assume(env.not_(env.and_(*[env.isnan(v) for v in z])))
    v = [x for x in z if not env.truth(env.isnan(x))]
    got = s.median()
    n = len(v)
    one = [env.ite(x <= got, 1, 0) for x in v]
    two = [env.ite(x >= got, 1, 0) for x in v]
    if env.symbolic:
        env.check('at least half of the values are not above the median', env.sum(one) * 2 >= n)
        env.check('at least half of the values are not below the median', env.sum(two) * 2 >= n)
        if n % 2:
            env.check('the median is one of the values', env.or_(*[x == got for x in v]))
    else:
        env.check('at least half of the values are not above the median', sum(x <= got + 1e-9 for x in v) * 2 >= n)
        env.check('at least half of the values are not below the median', sum(x >= got - 1e-9 for x in v) * 2 >= n)
        if n % 2:
            env.check('the median is one of the values', min(abs(x - got) for x in v) < 1e-9)


def far(env, ny, nx, part, profile=False):
    """a single missing point anywhere in a large surface is enough"""
    env.pattern = lambda i, j: (i * 37 + j * 11 + i * j * 7 + (i * i + 3 * j * j) // 5) % 101
    i, j = env.choice('hole', [(0, 0), (ny - 1, nx - 1), (ny // 2, nx // 2), (0, nx - 1), (ny - 1, 1)])
    z = env.grid('h', ny, nx, nan=[(i, j)])
    s = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step')) if profile else env.surface(z, *env.steps())
    env.check('missing points are reported', s.has_missing_points)
    for name, *a in (PROF if profile else SURF)[part::4]:
        env.raises(f'{name} refuses non-measured points', lambda: getattr(s, name)(*a), ValueError)


def many(env, ny, nx, holes, profile=False):
    z = env.grid('h', ny, nx, nan=holes)
    s = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step')) if profile else env.surface(z, *env.steps())
    v = [x for x in flatten(z) if not env.isnan(x)]
    env.eq('missing points', 1 if env.truth(s.has_missing_points) else 0, 1 if holes else 0)
    m = env.mean(v)
    env.eq('mean', s.mean(), m, scale=100)
    env.eq('min', s.min(), env.min(v), scale=100)
    env.eq('max', s.max(), env.max(v), scale=100)
    sd = s.std()
    env.eq('std', sd * sd, env.mean([(x - m) * (x - m) for x in v]), scale=1e4)
    # the scale is positive, so the order of the heights is the one of the pattern
    k = sorted((env.pattern(i + ord('h') % 7, j), x) for i in range(ny) for j in range(nx) for x in [(i, j)] if (i, j) not in holes)
    at = lambda q: z[k[q][1][0]][k[q][1][1]]
    n = len(k)
    env.eq('median', s.median() * 2, at((n - 1) // 2) + at(n // 2), scale=100)


def harnesses(tier):
    hs = [H(f'surface refuse {p}', refuse, ny=2, nx=3, part=p, time=60, bounds='2x3, any non-empty pattern of non-measured points') for p in range(4)]
    hs += [H(f'profile refuse {p}', refuse, ny=1, nx=5, part=p, profile=True, time=60, bounds='5 points, any non-empty pattern') for p in range(4)]
    hs += [H('surface appear', appear, ny=2, nx=2, part=0, time=60, bounds='2x2'), H('profile appear', appear, ny=1, nx=4, part=0, profile=True, time=60, bounds='4 points'),
           H('surface stats', stats, ny=2, nx=2, time=60, bounds='2x2, any pattern'), H('profile stats', stats, ny=1, nx=4, profile=True, time=60, bounds='4 points'),
           H('surface median', median, ny=2, nx=2, time=90, max_paths=4000, bounds='2x2, any pattern'), H('profile median', median, ny=1, nx=3, profile=True, time=60, bounds='3 points')]
    hs += [H(f'large refuse {p}', far, ny=18, nx=20, part=p, time=90, bounds='18x20 pattern, one of five points missing') for p in range(4)]
    hs += [H(f'large profile refuse {p}', far, ny=1, nx=270, part=p, profile=True, time=90, bounds='270 points, one of five missing') for p in range(4)]
    hs += [H(f'huge refuse {p}', far, ny=150, nx=220, part=p, time=90, bounds='150x220 pattern, one of five points missing') for p in range(4)]
    hs += [H(f'huge profile refuse {p}', far, ny=1, nx=33000, part=p, profile=True, time=90, bounds='33000 points, one of five missing') for p in range(4)]
    hs += [H('large stats', bulk(many), ny=20, nx=21, holes=[(0, 0), (19, 20), (7, 3)], time=60, bounds='20x21 pattern, three holes'), H('large stats complete', bulk(many), ny=33, nx=8, holes=[], time=60, bounds='33x8 pattern'), H('large stats few', bulk(many), ny=12, nx=13, holes=[(i, j) for i in range(12) for j in range(13) if (i * 5 + j * 3) % 7], time=60, bounds='12x13 pattern, most points missing'),
           H('huge stats', bulk(many), ny=110, nx=115, holes=[(0, 0), (109, 114), (70, 30)], time=150, bounds='110x115 pattern, three holes'), H('huge profile stats', bulk(many), ny=1, nx=12000, holes=[(0, 5), (0, 11999)], profile=True, time=150, bounds='12000 points, two holes'),
           H('large profile stats', bulk(many), ny=1, nx=280, holes=[(0, 5), (0, 279)], profile=True, time=60, bounds='280 points, two holes')]
    if tier == 'thorough':
        hs += [H(f'T surface refuse {p}', refuse, ny=4, nx=5, part=p, time=300, bounds='4x5') for p in range(4)]
        hs += [H('T surface stats', stats, ny=2, nx=3, time=600, max_paths=4000, bounds='2x3'), H('T profile median', median, ny=1, nx=5, profile=True, time=1200, max_paths=9000, bounds='5 points')]
    return hs
