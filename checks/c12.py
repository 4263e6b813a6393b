"""center / zero / invert / threshold / remove_outliers act pointwise as documented and keep non-measured points."""
from fractions import Fraction
from .common import H, flatten, integers, defaults, bulk
NOTE = 'real arithmetic'


def build(env, ny, nx, nan, profile):
    if profile:
        z = [env.vec('z', nx, nan=[j for _, j in nan])]
        p = env.pkg('surfalize.profile').Profile(env.array(z[0]), env.pos('step'))
        return z[0], p
    z = env.grid('h', ny, nx, nan=nan)
    return flatten(z), env.surface(z, *env.steps())


def apply(env, s, name, inplace, *a, **k):
    before = env.flat(s.data)
    r = getattr(s, name)(*a, inplace=inplace, **k)
    if inplace:
        env.concrete(f'{name} inplace returns the object itself', r is s)
    else:
        env.concrete(f'{name} returns a new object', r is not s)
        env.eqs(f'{name} leaves the original untouched', s.data, before)
    return env.flat(r.data)


def shift(env, ny, nx, nan, profile=False, inplace=False):
    z, s = build(env, ny, nx, nan, profile)
    op = env.choice('op', ['center', 'zero', 'invert'])
    out = apply(env, s, op, inplace)
    v = [x for x in z if not env.isnan(x)]
    env.concrete('size kept', len(out) == len(z))
    m, lo, hi = env.mean(v), env.min(v), env.max(v)
    for a, b in zip(out, z):
        if env.isnan(b):
            env.concrete(f'{op} keeps non-measured points', bool(env.isnan(a)))
        elif op == 'center':
            env.eq('center', a, b - m)
        elif op == 'zero':
            env.eq('zero', a, b - lo)
        else:
            env.eq('invert', a, lo + hi - b)


def outliers(env, ny, nx, nan, method, profile=False, inplace=False, n=Fraction(5, 4)):
    z, s = build(env, ny, nx, nan, profile)
    k = env.real('n', Fraction(1, 2), 3)
    v = [x for x in z if not env.isnan(x)]
    if method == 'mean':
        c = env.mean(v)
        var = env.mean([(x - c) * (x - c) for x in v])
        outside = [(x - c) * (x - c) > k * k * var for x in v]
        margin = [env.abs((x - c) * (x - c) - k * k * var) for x in v]
    else:
        def med(xs):
            q = sorted_by(env, xs)
            h = len(q) // 2
            return q[h] if len(q) % 2 else (q[h - 1] + q[h]) / 2
        c = med(v)
        d = [env.abs(x - c) for x in v]
        t = med(d)
        outside = [x > k * t for x in d]
        margin = [env.abs(x - k * t) for x in d]
    for g in margin:
        env.assume(g > (0 if env.symbolic else 1e-9))     # float ties outside the claim
    out = apply(env, s, 'remove_outliers', inplace, n=k, method=method)
    it = iter(outside)
    for a, b in zip(out, z):
        if env.isnan(b):
            env.concrete('non-measured points kept', bool(env.isnan(a)))
            continue
        o = next(it)
        env.check(f'{method}: exactly the points outside the limit are removed', env.or_(env.and_(o, env.isnan(a)), env.and_(env.not_(o), env.not_(env.isnan(a)))))
        env.check(f'{method}: remaining points unchanged', env.or_(env.isnan(a), a == b))


def sorted_by(env, xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(i, 0, -1):
            if env.truth(xs[j] < xs[j - 1]):
                xs[j], xs[j - 1] = xs[j - 1], xs[j]
            else:
                break
    return xs


def thresh(env, order, nan, lo, hi, tup, profile=False, inplace=False):
    """order: permutation giving the strictly increasing order of the points"""
    n = len(order)
    base = env.vec('v', n)
    for a, b in zip(base, base[1:]):
        env.assume(a < b)
    z = [None] * n
    for rank, pos in enumerate(order):
        z[pos] = base[rank]
    full = []
    it = iter(z)
    for i in range(n + len(nan)):
        full.append(env.nan() if i in nan else next(it))
    if profile:
        s = env.pkg('surfalize.profile').Profile(env.array(full), env.pos('step'))
    else:
        w = len(full) // 2
        s = env.surface([full[:w], full[w:]], *env.steps())
    out = apply(env, s, 'threshold', inplace, (lo, hi) if tup else lo)
    if not tup:
        hi = lo
    keep = {}
    for i, (a, b) in enumerate(zip(out, full)):
        if i in nan:
            env.concrete('non-measured points kept', bool(env.isnan(a)))
            continue
        keep[i] = not env.truth(env.isnan(a))
        if keep[i]:
            env.eq('remaining points unchanged', a, b)
    idx = [i for i in range(len(full)) if i not in nan]
    ranked = [idx[order[r]] for r in range(n)]          # increasing height
    k = [keep[i] for i in ranked]
    env.concrete('something remains', any(k))
    first, last = k.index(True), n - 1 - k[::-1].index(True)
    env.concrete('only the extremes are removed', all(k[first:last + 1]))
    env.concrete('share removed at the top', abs((n - 1 - last) - n * Fraction(lo) / 100) <= Fraction(3, 2), f'{n - 1 - last} of {n} removed, {lo} %')
    env.concrete('share removed at the bottom', abs(first - n * Fraction(hi) / 100) <= Fraction(3, 2), f'{first} of {n} removed, {hi} %')


def thresh_bad(env):
    s = env.surface(env.grid('h', 2, 3), *env.steps())
    a = env.real('a', 0, 200)
    b = env.real('b', 0, 200)
    env.assume(a + b >= 100)
    order = env.flat(s.data)
    for x, y in zip(order, order[1:]):
        env.assume(x < y)
    env.raises('thresholds that leave nothing are rejected', lambda: s.threshold((a, b)), ValueError)
    env.raises('unknown outlier method is rejected', lambda: s.remove_outliers(method='mode'), ValueError)


def pattern(env, rows, nan, ops, profile=False):
    """any scale and offset of a given arrangement of heights, with many equal heights and more points than above"""
    a, b = env.pos('scale', Fraction(1, 2), 50), env.real('offset', -20, 20)
    k = flatten(rows)
    z = [env.nan() if i in nan else x * a + b for i, x in enumerate(k)]
    w = len(rows[0])
    new = lambda: env.pkg('surfalize.profile').Profile(env.array(z), 1.0) if profile else env.surface([z[i:i + w] for i in range(0, len(z), w)], 1.0, 1.0)
    idx = [i for i in range(len(k)) if i not in nan]
    v = sorted(k[i] for i in idx)
    n = len(v)
    med = lambda q: (sorted(q)[(len(q) - 1) // 2] + Fraction(sorted(q)[len(q) // 2])) / 2
    for op, inplace in ops:
        s = new()
        name, arg = op[0], op[1:]
        if name == 'threshold':
            out = apply(env, s, 'threshold', inplace, arg if len(arg) > 1 else arg[0])
        else:
            out = apply(env, s, 'remove_outliers', inplace, n=float(arg[0]), method=name)
        keep = []
        for i, (x, y) in enumerate(zip(out, z)):
            if i in nan:
                env.concrete('non-measured points kept', bool(env.truth(env.isnan(x))))
            elif not env.truth(env.isnan(x)):
                env.eq('remaining points unchanged', x, y)
                keep.append(i)
        what = f'{op}: '
        if name == 'threshold':
            up, low = arg[0], arg[-1]
            env.concrete(what + 'something remains', bool(keep))
            hi, lo = max(k[i] for i in keep), min(k[i] for i in keep)
            env.concrete(what + 'exactly the points beyond two heights are removed', keep == [i for i in idx if lo <= k[i] <= hi])
            for label, gone, level, share in (('top', sum(x > hi for x in v), v.count(hi), up), ('bottom', sum(x < lo for x in v), v.count(lo), low)):
                env.concrete(what + f'share removed at the {label}', gone <= n * Fraction(share) / 100 + Fraction(3, 2) and gone + level >= n * Fraction(share) / 100 - Fraction(3, 2), f'{gone} of {n}')
        else:
            lim = Fraction(arg[0])
            if name == 'mean':
                c = Fraction(sum(v), n)
                var = sum((x - c) ** 2 for x in v) / n
                want = [i for i in idx if (k[i] - c) ** 2 <= lim ** 2 * var]
            else:
                c = med(v)
                t = med([abs(x - c) for x in v])
                want = [i for i in idx if abs(k[i] - c) <= lim * t]
            env.concrete(what + 'exactly the points outside the limit are removed', keep == want, f'{[i for i in idx if i not in keep]} removed, expected {[i for i in idx if i not in want]}')


def limit(env, rows, n, method, nan=(), profile=False):
    """points exactly at the limit are kept; integer heights, so that the limit is exact"""
    a, b = env.int_('amplitude', 1, 64), env.int_('offset', -100, 100)
    k = flatten(rows)
    z = [env.nan() if i in nan else env.num(x * a + b) for i, x in enumerate(k)]
    w = len(rows[0])
    s = env.pkg('surfalize.profile').Profile(env.array(z), 1.0) if profile else env.surface([z[i:i + w] for i in range(0, len(z), w)], 1.0, 1.0)
    out = apply(env, s, 'remove_outliers', env.choice('inplace', [False, True]), n=n, method=method)
    for i, (x, y) in enumerate(zip(out, z)):
        if i in nan:
            env.concrete('non-measured points kept', bool(env.truth(env.isnan(x))))
        elif env.concrete('a point at the limit is no outlier', not env.truth(env.isnan(x)), f'point {i}'):
            env.eq('remaining points unchanged', x, y)


def harnesses(tier):
    hs = []
    o = lambda *ops: [(op, k % 2 == 1) for k, op in enumerate(ops)]
    flat = [[0, 0, 3, 0, 0], [0, -7, 0, 0, 1], [0, 0, 0, 0, 0], [40, 0, 0, -1, 0]]
    mixed = [[(7 * i * i + 11 * j + 3 * i * j) % 23 + (200 if (i, j) in ((2, 3), (5, 0)) else -90 if (i, j) == (4, 9) else 0) for j in range(11)] for i in range(7)]
    hs += [H('pattern mostly flat', pattern, rows=flat, nan=(), ops=o(('median', 2), ('mean', 1), ('mean', 3), ('median', 1.5), ('threshold', 5), ('threshold', 0, 10), ('threshold', 10, 0)), time=60, bounds='4x5, most heights equal; any scale and offset'),
           H('pattern holes', pattern, rows=flat, nan=(2, 7, 18), ops=o(('mean', 2.5), ('median', 2), ('threshold', 8, 3)), time=60, bounds='4x5, three holes'),
           H('pattern large', pattern, rows=mixed, nan=(0, 30), ops=o(('median', 3.3), ('mean', 1.7), ('mean', 0.6), ('median', 0.7), ('threshold', 3), ('threshold', 30, 12), ('threshold', 0.5), ('threshold', 45, 45), ('threshold', 99, 0.5)), time=60, bounds='7x11'),
           H('pattern profile', pattern, rows=[mixed[3] + mixed[5]], nan=(4,), profile=True, ops=o(('mean', 1.3), ('median', 2.2), ('threshold', 20, 7), ('threshold', 12)), time=60, bounds='22 points')]
    for k, (rows, n, m, nan, prof) in enumerate([([[1] * 4] * 3, 3, 'mean', (2,), False), ([[1] * 5], 1, 'mean', (), True), ([[-1, 1, 1, -1], [1, 1, -1, -1]], 1, 'mean', (), False), ([[-1, 1, 1, -1], [5, 1, -1, 9]], 1, 'mean', (4, 7), False),
                                                 ([[0, 2, 4, 2, 2, 2, 2, 2]], 2, 'mean', (), True), ([[1] * 3] * 3, 2, 'median', (), False), ([[-2, 1, -1, 0, 2]], 2, 'median', (), True), ([[0, 2, 5], [4, 6, 8]], 1.5, 'median', (2, 5), False)]):
        hs.append(H(f'limit {k}', limit, rows=rows, n=n, method=m, nan=nan, profile=prof, time=60, bounds='points exactly at the limit; integer amplitudes up to 64 and offsets up to 100'))
    dflt = [('default threshold', lambda s: s.threshold(), lambda s: s.threshold(0.5)), ('default limits', lambda s: s.remove_outliers(), lambda s: s.remove_outliers(3, 'mean')), ('default limits in place', lambda s: s.remove_outliers(inplace=True), lambda s: s.remove_outliers(n=3, method='mean')),
            ('default method', lambda s: s.remove_outliers(1.5), lambda s: s.remove_outliers(1.5, method='mean')), ('default number', lambda s: s.remove_outliers(method='median'), lambda s: s.remove_outliers(3, 'median'))]
    many = lambda ny, nx: [[(7 * i * i + 11 * j + 3 * i * j) % 23 + (200 if (i, j) in ((2, 3), (5, 0)) else -90 if (i, j) == (4, 9) else 0) + Fraction(i * nx + j, 1000) for j in range(nx)] for i in range(ny)]
    graded = [[Fraction((i * i * 7 + j * 11 + i * j * 3) % 23 - 11, 10) for j in range(12)] for i in range(10)]
    for i in range(1, 10):
        graded[i][5 * i % 12] = (-1) ** i * (4 + Fraction(2 * i, 5))
        graded[i][(5 * i + 4) % 12] = (-1) ** i * (Fraction(3, 2) + Fraction(i, 12))
    for prof in (False, True):
        what, row = "profile" if prof else "surface", (lambda v: [flatten(v)]) if prof else (lambda v: v)
        hs.append(H(f'defaults {what}', defaults, rows=row(graded), cases=dflt[1:], profile=prof, nan=(5, 17), time=60, bounds='120 points, heights up to eight standard deviations from the mean, any scale and offset'))
        hs.append(H(f'defaults threshold {what}', defaults, rows=row(many(24, 25)), cases=dflt[:1], profile=prof, nan=(5, 17), time=60, bounds='600 points, any scale and offset'))
    for k, (ny, nx, nan, prof, inp) in enumerate([(2, 3, (), False, False), (2, 3, ((0, 1),), False, True), (3, 2, ((2, 1), (0, 0)), False, False), (1, 5, ((0, 2),), True, False), (1, 4, (), True, True)]):
        hs.append(H(f'shift {k}', shift, time=30, bounds=f'{ny}x{nx} profile={prof} inplace={inp}', ny=ny, nx=nx, nan=nan, profile=prof, inplace=inp))
    hs += [H('outliers mean 2x3', outliers, time=40, ny=2, nx=3, nan=((0, 0),), method='mean', bounds='5 measured points, n in [1/2,3]'),
           H('outliers mean profile', outliers, time=40, ny=1, nx=4, nan=((0, 2),), method='mean', profile=True, inplace=True, bounds='3 measured points'),
           H('outliers median 2x2', outliers, time=60, ny=2, nx=2, nan=((0, 1),), method='median', inplace=True, bounds='3 measured points', max_paths=600),
           H('outliers median profile', outliers, time=60, ny=1, nx=3, nan=(), method='median', profile=True, bounds='3 points', max_paths=600)]
    orders = [(3, 0, 5, 1, 4, 2), (0, 1, 2, 3, 4, 5)]
    for k, (o, nan, lo, hi, tup, prof, inp) in enumerate([
            (orders[0], (), 20, 20, False, False, False), (orders[0], (1, 4), 35, 10, True, False, True), (orders[1], (0, 3), 10, 40, True, False, False),
            ((4, 2, 0, 6, 1, 3, 5, 7), (), 30, 15, True, True, False), ((4, 2, 0, 6, 1, 3, 5, 7), (2, 9), 25, 25, False, False, False), (orders[0], (), 0, 0, False, True, True), (orders[1], (), 0, 50, True, False, False)]):
        hs.append(H(f'threshold {k}', thresh, time=30, order=o, nan=nan, lo=lo, hi=hi, tup=tup, profile=prof, inplace=inp, bounds=f'{len(o)} distinct heights in a fixed order pattern, thresholds {lo}/{hi} %'))
    hs.append(H('bad arguments', thresh_bad, time=30, bounds='thresholds summing to >= 100 %'))
    ops = [('center', lambda s: s.center()), ('zero', lambda s: s.zero()), ('invert', lambda s: s.invert()), ('threshold', lambda s: s.threshold((30, 20))), ('outliers mean', lambda s: s.remove_outliers(1.25, method='mean')),
           ('threshold in place', lambda s: s.threshold(25, inplace=True)), ('outliers in place', lambda s: s.remove_outliers(1.25, method='mean', inplace=True)), ('center in place', lambda s: s.center(inplace=True))]
    fix = [[[3, 9, -4], [27, 5, 6]], [[14, -8, 2, 0, 31, 4]]]
    for prof in (False, True):
        hs.append(H(f'integer heights {"profile" if prof else "surface"}', integers, time=40, ny=1 if prof else 2, nx=6 if prof else 3, ops=ops, profile=prof, fixed=fix[prof], bounds='one integer pattern, arbitrary steps'))
        hs.append(H(f'integer heights any {"profile" if prof else "surface"}', integers, time=40, ny=1 if prof else 2, nx=3 if prof else 2, ops=ops[:3], profile=prof, setter=True, max_paths=300, bounds='any integers from -40 to 90'))
    for k, (ny, nx, nan, prof, inp) in enumerate([(20, 30, ((0, 1), (19, 29)), False, False), (3, 270, (), False, True), (1, 300, ((0, 7),), True, False), (110, 115, ((0, 1), (109, 114)), False, True), (1, 12000, ((0, 7),), True, False)]):
        hs.append(H(f'large shift {k}', bulk(shift), time=150, bounds=f'{ny}x{nx} pattern, profile={prof} inplace={inp}', ny=ny, nx=nx, nan=nan, profile=prof, inplace=inp))
    if tier == 'thorough':
        hs += [H('T outliers median 2x2', outliers, time=300, ny=2, nx=2, nan=(), method='median', bounds='4 points', max_paths=20000),
               H('T outliers mean 3x3', outliers, time=300, ny=3, nx=3, nan=((1, 1),), method='mean', bounds='8 points', query_s=20)]
        import itertools
        for k, o in enumerate(itertools.islice(itertools.permutations(range(5)), 0, 120, 7)):
            hs.append(H(f'T threshold p{k}', thresh, order=o, nan=(1,), lo=(k * 7) % 60, hi=(k * 11) % 39, tup=True, bounds='5 distinct heights'))
    return hs
