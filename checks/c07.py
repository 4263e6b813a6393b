"""Autocorrelation: unbiased linear ACF of the centred heights; Sal / Str from its decay."""
from fractions import Fraction
from .common import H, wide, bulk
NOTE = 'ACF for arbitrary heights; Sal/Str for fixed height patterns with arbitrary amplitude, offset and pixel sizes'


def acf(env, ny, nx):
    z = env.grid('h', ny, nx)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    A = s.get_autocorrelation_function()
    d = A.data
    env.concrete('size', tuple(d.shape) == (2 * ny - 1, 2 * nx - 1), str(d.shape))
    r = env.rows(d)
    m = env.mean([v for row in z for v in row])
    for ly in range(-(ny - 1), ny):
        for lx in range(-(nx - 1), nx):
            v = [(z[i][j] - m) * (z[i + ly][j + lx] - m) for i in range(ny) for j in range(nx) if 0 <= i + ly < ny and 0 <= j + lx < nx]
            env.eq(f'acf at lag ({ly},{lx})', r[ny - 1 + ly][nx - 1 + lx], env.mean(v), scale=100)
    if ny * nx <= 9:
        env.eq('zero lag is Sq^2', r[ny - 1][nx - 1], s.Sq() * s.Sq(), scale=100)
    env.eqs('surface untouched', s.data, z)


# patterns with a single central region above the threshold
PATS = {
    'stripes x': [[0, 3, 1, -4, 0], [0, 3, 1, -4, 0], [1, 3, 1, -4, -1], [0, 3, 2, -5, 0]],
    'stripes y': [[4, 4, 5, 4], [0, 1, 0, 0], [-4, -4, -4, -5], [0, 0, -1, 0], [4, 3, 4, 4]],
    'bump': [[0, 0, 0, 0], [0, 5, 4, 0], [0, 4, 6, 1], [0, 0, 1, 0]],
    'ridge': [[0, 4, 0, -4, 0, 4]] * 3 + [[0, 4, 1, -4, 0, 3]],
    'diag': [[3, 0, -2, 0], [0, 3, 0, -2], [-2, 0, 3, 0], [0, -2, 0, 4]],
}


def decay(env, pat, s=None, trans=False):
    p = PATS[pat]
    if trans:
        p = [list(c) for c in zip(*p)]
    ny, nx = len(p), len(p[0])
    a, c = wide(env, 'a'), env.real('c', -5, 5)
    sx, sy = env.steps()
    z = [[a * v + c for v in r] for r in p]
    S = env.surface(z, sx, sy)
    args = () if s is None else (s if env.symbolic else float(s),)
    sal, str_ = S.Sal(*args), S.Str(*args)
    # central region of lags above the threshold, from the pattern alone
    th = Fraction(1, 5) if s is None else s
    N = ny * nx
    m = Fraction(sum(sum(r) for r in p), N)
    q = {}
    for ly in range(-(ny - 1), ny):
        for lx in range(-(nx - 1), nx):
            v = [(p[i][j] - m) * (p[i + ly][j + lx] - m) for i in range(ny) for j in range(nx) if 0 <= i + ly < ny and 0 <= j + lx < nx]
            q[ly, lx] = sum(v) / len(v)
    reg, todo = set(), [(0, 0)]
    while todo:
        k = todo.pop()
        if k in reg or k not in q or q[k] <= th * q[0, 0]:
            continue
        reg.add(k)
        todo += [(k[0] + 1, k[1]), (k[0] - 1, k[1]), (k[0], k[1] + 1), (k[0], k[1] - 1)]
    edge = {(y + dy, x + dx) for y, x in reg for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0))} - reg
    edge = {k for k in edge if k in q}
    d2 = [(y * sy) * (y * sy) + (x * sx) * (x * sx) for y, x in edge]
    env.check('Sal > 0', sal > 0)
    env.check('Str > 0', str_ > 0)
    env.le('Sal is at most the distance of the nearest decayed lag', sal * sal, env.min(d2), tol=1e-4)
    near = {(y, x) for y, x in reg}
    # the decay cannot lie inside the pixel next to the centre unless that neighbour has decayed
    if near >= {(0, 1), (1, 0)}:
        env.le('Sal is at least the smallest pixel', env.min([sx, sy]) * (Fraction(1, 2) if env.symbolic else .5), sal, tol=1e-4)
    lo = sal / str_
    env.le('slowest decay is at most the distance of the farthest decayed lag', lo * lo, env.max(d2), tol=1e-4)
    env.observe('Sal', sal)
    env.observe('Str', str_)


def lag_table(p):
    """unbiased autocorrelation of a pattern, by definition"""
    ny, nx = len(p), len(p[0])
    m = Fraction(sum(sum(r) for r in p), ny * nx)
    q = {}
    for ly in range(-(ny - 1), ny):
        for lx in range(-(nx - 1), nx):
            v = [(p[i][j] - m) * (p[i + ly][j + lx] - m) for i in range(ny) for j in range(nx) if 0 <= i + ly < ny and 0 <= j + lx < nx]
            q[ly, lx] = sum(v) / len(v)
    return q


def edge_lags(q, th):
    reg, todo = set(), [(0, 0)]
    while todo:
        k = todo.pop()
        if k in reg or k not in q or q[k] <= th * q[0, 0]:
            continue
        reg.add(k)
        todo += [(k[0] + 1, k[1]), (k[0] - 1, k[1]), (k[0], k[1] + 1), (k[0], k[1] - 1)]
    edge = {(y + dy, x + dx) for y, x in reg for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0))} - reg
    return reg, {k for k in edge if k in q}


def decay_exact(env, pat, s=None):
    """Sal / Str are the interpolated decay lengths along the lines to the nearest / farthest decayed lag, physical units"""
    import numpy as np
    from scipy.ndimage import map_coordinates
    p = PATS[pat]
    th = Fraction(1, 5) if s is None else s
    q = lag_table(p)
    reg, edge = edge_lags(q, th)
    ny, nx = len(p), len(p[0])
    A = np.array([[float(q[y, x]) for x in range(-(nx - 1), nx)] for y in range(-(ny - 1), ny)])
    half = sorted(k for k in edge if k > (0, 0))
    frac = {}
    for y, x in half:
        t = np.linspace(0, 1, 4001)
        v = map_coordinates(A, [ny - 1 + y * t, nx - 1 + x * t], order=3)
        d = np.abs(v - float(th) * A[ny - 1, nx - 1])
        best = t[d <= d.min() + 2e-3 * A[ny - 1, nx - 1]]
        frac[y, x] = (float(best.min()) - 2e-3, float(best.max()) + 2e-3)
    a, c = wide(env, 'a'), env.real('c', -5, 5)
    sx, sy = env.steps()
    S = env.surface([[a * v + c for v in r] for r in p], sx, sy)
    args = () if s is None else (s if env.symbolic else float(s),)
    sal, str_ = S.Sal(*args), S.Str(*args)
    d2 = {(y, x): (y * sy) * (y * sy) + (x * sx) * (x * sx) for y, x in half}
    F = (lambda f: Fraction(f)) if env.symbolic else (lambda f: f)

    def some(ext, val, what):
        opts = []
        for k in half:
            lo, hi = F(frac[k][0]), F(frac[k][1])
            far = [d2[k] <= v if ext == 'min' else d2[k] >= v for j, v in d2.items() if j != k]
            opts.append(env.and_(*far, val * val >= lo * lo * d2[k], val * val <= hi * hi * d2[k]))
        env.check(what, env.or_(*opts))
    for i, k in enumerate(half):
        for j in half[:i]:
            env.assume(env.abs(d2[k] - d2[j]) >= Fraction(1, 10 ** 3)) if (abs(k[0]), abs(k[1])) != (abs(j[0]), abs(j[1])) else None
    some('min', sal, 'Sal is the decay length along the line to the nearest decayed lag')
    some('max', sal / str_, 'Sal / Str is the decay length along the line to the farthest decayed lag')


def invariance(env, pat):
    p = PATS[pat]
    a, c, f = wide(env, 'a'), env.real('c', -5, 5), env.pos('f', Fraction(1, 2), 2)
    sx, sy = env.steps()
    z = [[a * v + c for v in r] for r in p]
    A = env.surface([[v if env.symbolic else float(v) for v in r] for r in p], sx, sy)
    B = env.surface(z, sx * f, sy * f)
    Tz = env.surface([list(x) for x in zip(*z)], sy, sx)
    env.eq('Sal ignores offset and amplitude and scales laterally', B.Sal(), f * A.Sal(), tol=1e-4)
    env.eq('Str ignores offset, amplitude and lateral scale', B.Str(), A.Str(), tol=1e-4)
    env.eq('Sal of the transposed surface', Tz.Sal(), A.Sal(), tol=1e-4)
    env.eq('Str of the transposed surface', Tz.Str(), A.Str(), tol=1e-4)


def repeated(env, pat, order):
    """every threshold gives its own decay lengths, in any order of questions, from either object"""
    p = PATS[pat]
    a, c = wide(env, 'a'), env.real('c', -5, 5)
    z = [[a * v + c for v in r] for r in p]
    new = lambda: env.surface(z, .75, .5)
    S = new()
    for i, s in enumerate(order):
        A, T = S.get_autocorrelation_function() if i % 2 else S, new()
        x, y = (A.Str(s=s), A.Sal(s)) if i % 3 else (A.Sal(s), A.Str(s))
        if i % 3 == 0:
            x, y = y, x
        env.eq(f'Sal({s}) after other thresholds', y, T.Sal(s), tol=1e-6)
        env.eq(f'Str({s}) after other thresholds', x, T.Str(s), tol=1e-6)


def nanrej(env):
    s = env.surface(env.grid('h', 2, 3, nan=((1, 1),)), *env.steps())
    for f in ('Sal', 'Str', 'get_autocorrelation_function'):
        env.raises(f'{f} rejects non-measured points', getattr(s, f), ValueError)


def harnesses(tier):
    hs = [H('acf 3x3', acf, ny=3, nx=3, time=30, bounds='3x3 arbitrary heights'), H('acf 2x4', acf, ny=2, nx=4, time=30, bounds='2x4'), H('acf 4x3', acf, ny=4, nx=3, time=30, bounds='4x3'),
          H('non-measured', nanrej, time=10, bounds='2x3')]
    for p in PATS:
        hs.append(H(f'decay {p}', decay, pat=p, time=60, bounds='fixed pattern, any amplitude/offset/pixel size'))
    hs.append(H('decay s 0.5', decay, pat='bump', s=Fraction(1, 2), time=60, bounds='fixed pattern, s=0.5'))
    hs.append(H('decay transposed', decay, pat='stripes x', trans=True, time=60, bounds='fixed pattern'))
    hs.append(H('invariance stripes', invariance, pat='stripes x', time=80, bounds='fixed pattern'))
    hs.append(H('invariance bump', invariance, pat='bump', time=80, bounds='fixed pattern'))
    for p in ('stripes x', 'stripes y', 'bump', 'ridge'):
        hs.append(H(f'decay length {p}', decay_exact, pat=p, time=80, bounds='fixed pattern, any amplitude/offset/pixel size'))
    hs.append(H('decay length ridge 0.5', decay_exact, pat='ridge', s=Fraction(1, 2), time=80, bounds='fixed pattern, s=0.5'))
    hs += [H('repeated up', repeated, pat='bump', order=(.1, .2, .5, .8), time=60, bounds='fixed pattern, any amplitude and offset'), H('repeated down', repeated, pat='ridge', order=(.7, .3, .2, .6, .2, .05), time=60, bounds='fixed pattern, any amplitude and offset')]
    if tier == 'thorough':
        hs.append(H('T large acf 40x50', bulk(acf), ny=40, nx=50, time=900, bounds='40x50 pattern, any scale and offset'))
    hs += [H('large acf 22x27', bulk(acf), ny=22, nx=27, time=200, bounds='22x27 pattern, any scale and offset'), H('large acf 12x17', bulk(acf), ny=12, nx=17, time=90, bounds='12x17 pattern, any scale and offset'), H('large acf 2x70', bulk(acf), ny=2, nx=70, time=90, bounds='2x70 pattern'), H('large acf 66x2', bulk(acf), ny=66, nx=2, time=90, bounds='66x2 pattern')]
    if tier == 'thorough':
        hs += [H('T acf 5x5', acf, ny=5, nx=5, time=200, bounds='5x5'), H('T acf 3x7', acf, ny=3, nx=7, time=200, bounds='3x7')]
        for p in PATS:
            hs.append(H(f'T invariance {p}', invariance, pat=p, time=300, bounds='fixed pattern'))
            for s in (Fraction(1, 10), Fraction(2, 5), Fraction(7, 10)):
                hs.append(H(f'T decay {p} {s}', decay, pat=p, s=s, time=200, bounds=f'fixed pattern, s={s}'))
    return hs
