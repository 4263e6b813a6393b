"""Operations: with inplace=False the original stays as it was and the result is independent; inplace=True gives the same
result in the object itself; lateral dimensions always match step sizes and data."""
from fractions import Fraction
from .common import H, flatten, ordered, small_otsu, bulk
NOTE = 'heights, steps and the position of a non-measured point are symbolic or chosen by the solver; one harness per operation'

SOPS = {
    'center': lambda s, **k: s.center(**k), 'zero': lambda s, **k: s.zero(**k), 'invert': lambda s, **k: s.invert(**k),
    'remove_outliers': lambda s, **k: s.remove_outliers(n=1.5, **k), 'remove_outliers median': lambda s, **k: s.remove_outliers(n=2, method='median', **k),
    'threshold': lambda s, **k: s.threshold(20, **k), 'threshold pair': lambda s, **k: s.threshold((10, 30), **k),
    'level': lambda s, **k: s.level(**k), 'detrend_polynomial': lambda s, **k: s.detrend_polynomial(2, **k),
    'crop': lambda s, **k: s.crop((0, 1, 1, 2), in_units=False, **k), 'zoom': lambda s, **k: s.zoom(2, **k), 'zoom 1': lambda s, **k: s.zoom(1, **k),
    'filter lowpass': lambda s, **k: s.filter('lowpass', 2, **k), 'filter highpass': lambda s, **k: s.filter('highpass', 2, **k), 'filter bandpass': lambda s, **k: s.filter('bandpass', 1, 3, **k),
    'fill_nonmeasured': lambda s, **k: s.fill_nonmeasured(**k), 'stepheight_level': lambda s, **k: s.stepheight_level(**k), 'rotate': lambda s, **k: s.rotate(90, **k),
}
POPS = {
    'center': SOPS['center'], 'zero': SOPS['zero'], 'invert': SOPS['invert'], 'remove_outliers': SOPS['remove_outliers'], 'threshold': SOPS['threshold'],
    'level': SOPS['level'], 'detrend_polynomial': SOPS['detrend_polynomial'], 'crop': lambda s, **k: s.crop((1, 2), in_units=False, **k), 'zoom': SOPS['zoom'], 'zoom 1': SOPS['zoom 1'],
    'filter lowpass': SOPS['filter lowpass'], 'filter highpass': SOPS['filter highpass'], 'filter bandpass': SOPS['filter bandpass'], 'fill_nonmeasured': SOPS['fill_nonmeasured'],
}
NONAN = ('filter', 'rotate')


def dims(env, label, s, profile):
    if profile:
        env.eq(f'{label}: length matches the data', s.length_um, s.step * (len(env.flat(s.data)) - 1))
        return
    rows = env.rows(s.data)
    env.eq(f'{label}: width matches the data', s.width_um, s.step_x * (len(rows[0]) - 1))
    env.eq(f'{label}: height matches the data', s.height_um, s.step_y * (len(rows) - 1))
    env.concrete(f'{label}: size matches the data', (int(s.size.y), int(s.size.x)) == (len(rows), len(rows[0])))


def make(env, op, ny, nx, nan, profile, order):
    def new():
        if profile:
            return env.pkg('surfalize.profile').Profile(env.array(z[0]), st)
        return env.surface(z, st, sy)
    if order:
        v, _ = ordered(env, order)
        z = [[v[i * nx + j] for j in range(nx)] for i in range(ny)]
    else:
        z = env.grid('h', ny, nx)
    if nan:
        i, j = env.choice('hole', nan)
        z[i][j] = env.nan()
    if profile:
        st, sy = env.pos('step'), None
    elif op == 'rotate' or op.startswith('filter'):
        st, sy = (0.5, 0.75)
    else:
        st, sy = env.steps()
    if profile and op.startswith('filter'):
        st = 0.5
    return z, new


def same(env, label, a, b):
    a, b = env.flat(a), env.flat(b)
    env.concrete(f'{label}: same number of points', len(a) == len(b), f'{len(a)} {len(b)}')
    for x, y in zip(a, b):
        env.eq(label, x, y)


def geom(s, profile):
    return (s.step, s.length_um) if profile else (s.step_x, s.step_y, s.width_um, s.height_um)


def purity(env, op, ny, nx, nan=(), profile=False, order=None):
    if op == 'stepheight_level':
        small_otsu(env, 8)
    z, new = make(env, op, ny, nx, nan, profile, order)
    f = (POPS if profile else SOPS)[op]
    s, t = new(), new()
    g0 = geom(s, profile)
    r = f(s, inplace=False)
    env.concrete('new object', r is not s)
    same(env, 'original data untouched', s.data, flatten(z))
    for a, b in zip(geom(s, profile), g0):
        env.eq('original dimensions untouched', a, b)
    q = f(t, inplace=True)
    env.concrete('inplace returns the object itself', q is t)
    same(env, 'inplace and copy agree', t.data, r.data)
    for a, b in zip(geom(t, profile), geom(r, profile)):
        env.eq('inplace and copy agree in the dimensions', a, b)
    dims(env, 'copy', r, profile)
    dims(env, 'inplace', t, profile)
    # default is not inplace
    r3 = f(s)
    env.concrete('default makes a new object', r3 is not s and r3 is not r)
    # results can be edited and are independent
    first, last = ((0,), (len(env.flat(r.data)) - 1,)) if profile else ((0, 0), (len(env.rows(r.data)) - 1, len(env.rows(r.data)[0]) - 1))
    keep3 = env.flat(r3.data)
    for o in (r, t):
        for k in (first, last):
            ok, e = env.attempt(lambda: o.__setitem__(k if not profile else k[0], 12345))
            env.concrete('the result can be edited', ok, repr(e))
    same(env, 'editing the copy leaves the original alone', s.data, flatten(z))
    same(env, 'editing the copy leaves other copies alone', r3.data, keep3)
    s[first if not profile else 0] = 777
    same(env, 'editing the original leaves copies alone', r3.data, keep3)


SLICES = {'columns': (slice(None), slice(1, 3)), 'rows': slice(1, None), 'block': (slice(0, 2), slice(1, None)), 'all': slice(None), 'everything': (slice(None), slice(None)), 'backwards': (slice(None, None, -1), slice(None)),
          'mirrored': (slice(None), slice(None, None, -1)), 'every other': (slice(None, None, 2), slice(0, None, 2)), 'row range': (slice(0, 2), slice(None))}


def sliced(env, ny, nx, holes=()):
    """parts of a surface, sums and profiles: new, editable, independent"""
    z = env.grid('h', ny, nx, nan=holes)
    flat = flatten(z)
    s = env.surface(z, *env.steps())
    made = {k: s[i] for k, i in SLICES.items()}
    made.update({'sum': s + 0, 'product': s * 1, 'neutral': s - 0, 'quotient': s / 1})
    for k, r in made.items():
        env.concrete(f'{k}: new object', r is not s)
        dims(env, k, r, False)
        keep = env.flat(r.data)
        ok, e = env.attempt(lambda: r.__setitem__((0, 0), 12345))
        env.concrete(f'{k}: can be edited', ok, repr(e))
        same(env, f'{k}: editing the part leaves the original alone', s.data, flat)
        env.eq(f'{k}: edited', env.flat(r.data)[0], 12345)
        r[0, 0] = keep[0]
        for i in range(ny):
            for j in range(nx):
                s[i, j] = 777
        same(env, f'{k}: editing the original leaves the part alone', r.data, keep)
        for i in range(ny):
            for j in range(nx):
                s[i, j] = z[i][j]


def readonly(env, ny, nx):
    z = env.grid('h', ny, nx)
    s = env.surface(z, *env.steps())
    p = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step'))

    def w2():
        s.data[0, 0] = 3

    def w1():
        p.data[0] = 3
    env.raises('the data view of a surface is read-only', w2, ValueError)
    env.raises('the data view of a profile is read-only', w1, ValueError)
    same(env, 'data unchanged', s.data, flatten(z))


def assign(env, ny, nx, my, mx):
    """assigning new data recomputes the dimensions"""
    z, y = env.grid('h', ny, nx), env.grid('g', my, mx)
    s = env.surface(z, *env.steps())
    s.data = env.array(y)
    same(env, 'assigned data', s.data, flatten(y))
    dims(env, 'assigned', s, False)
    p = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step'))
    p.data = env.array(y[0])
    same(env, 'assigned data', p.data, y[0])
    dims(env, 'assigned', p, True)


def harnesses(tier):
    hs = []
    o9 = (4, 0, 7, 2, 8, 5, 1, 6, 3)
    o6 = (3, 0, 5, 1, 4, 2)
    for op in SOPS:
        order = o9 if op.split()[0] in ('threshold',) else None
        if op == 'remove_outliers median':
            hs.append(H(f'surface {op}', purity, op=op, ny=1, nx=5, order=(3, 0, 4, 1, 2), time=60, max_paths=400, bounds='1x5'))
            continue
        if op == 'stepheight_level':
            continue
        hs.append(H(f'surface {op}', purity, op=op, ny=3, nx=3, order=order, time=60, max_paths=400, bounds='3x3'))
        if not op.startswith(NONAN):
            hs.append(H(f'surface {op} nan', purity, op=op, ny=3, nx=3, order=order, nan=[(1, 2), (0, 0)] if not order else [(1, 2)], time=60, max_paths=400, bounds='3x3, one hole'))
    for op in POPS:
        order = o6 if op.split()[0] in ('threshold',) else None
        hs.append(H(f'profile {op}', purity, op=op, ny=1, nx=6 if order else 5, profile=True, order=order, time=60, max_paths=400, bounds='5 points'))
        if not op.startswith(NONAN):
            hs.append(H(f'profile {op} nan', purity, op=op, ny=1, nx=6 if order else 5, profile=True, order=order, nan=[(0, 2)], time=60, max_paths=400, bounds='5 points, one hole'))
    hs += [H('parts', sliced, ny=3, nx=4, time=60, bounds='3x4'), H('parts holes', sliced, ny=3, nx=3, holes=((1, 1), (0, 2)), time=60, bounds='3x3, two holes')]
    hs += [H('readonly', readonly, ny=2, nx=2, time=30, bounds='2x2'), H('assign', assign, ny=2, nx=3, my=4, mx=2, time=30, bounds='2x3 to 4x2')]
    for op in SOPS:
        if op.startswith('stepheight'):
            continue
        hs.append(H(f'large surface {op}', bulk(purity), op=op, ny=12, nx=17, time=90, max_paths=100, bounds='12x17 pattern, any scale and offset'))
        if op.split()[0] in ('center', 'crop', 'level', 'fill_nonmeasured', 'zoom', 'zero', 'invert', 'detrend_polynomial') or op == 'filter lowpass':
            hs.append(H(f'huge surface {op}', bulk(purity), op=op, ny=110, nx=115, time=150, max_paths=100, bounds='110x115 pattern, any scale and offset'))
        if not op.startswith(NONAN):
            hs.append(H(f'large surface {op} nan', bulk(purity), op=op, ny=9, nx=20, nan=[(1, 2), (8, 19)], time=90, max_paths=100, bounds='9x20 pattern, one hole'))
    for op in POPS:
        hs.append(H(f'large profile {op}', bulk(purity), op=op, ny=1, nx=70, profile=True, time=90, max_paths=100, bounds='70 points, any scale and offset'))
    if tier == 'thorough':
        for op in SOPS:
            if op.split()[0] not in ('threshold', 'stepheight_level', 'remove_outliers'):
                hs.append(H(f'T surface {op}', purity, op=op, ny=4, nx=5, time=300, max_paths=4000, bounds='4x5'))
    return hs
