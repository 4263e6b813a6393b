"""Shared oracles: written from the standards / documentation over plain scalars, independent of the implementation."""
from fractions import Fraction
from symx.runner import H  # noqa


def height_defs(env, z):
    n = len(z)
    m = env.sum(z) / n
    d = [x - m for x in z]
    out = {}
    out['a'] = env.sum(env.abs(x) for x in d) / n
    q2 = env.sum(x * x for x in d) / n
    out['q'] = env.sqrt(q2)
    out['p'] = env.max(z) - m
    out['v'] = m - env.min(z)
    out['z'] = env.max(z) - env.min(z)
    out['m3'] = env.sum(x * x * x for x in d) / n
    out['m4'] = env.sum(x * x * x * x for x in d) / n
    out['q2'] = q2
    return out


def flatten(rows):
    return [x for r in rows for x in r]


def ordered(env, order, name='v', ties=()):
    """heights with a fixed rank pattern: order[rank] = position; ranks in `ties` equal their predecessor.
    returns (values by position, increasing list)"""
    n = len(order)
    base = []
    for r in range(n):
        if r and r in ties:
            base.append(base[-1])
        else:
            v = env.real(f'{name}{r}', -50, 50)
            if base:
                env.assume(v > base[-1] if env.symbolic else v >= base[-1] + 1e-7)
            base.append(v)
    z = [None] * n
    for r, p in enumerate(order):
        z[p] = base[r]
    return z, base


def small_bins(env, nbins):
    """the material ratio curve is sampled with `nbins` classes instead of the default 10000 (bound of the claim)"""
    cls = env.pkg('surfalize.abbottfirestone').AbbottFirestoneCurve
    orig = cls.__init__

    def init(self, obj, *a, **k):
        if not a and 'nbins' not in k:
            k['nbins'] = nbins
        orig(self, obj, *a, **k)
    cls.__init__ = init
    env.cleanup.append(lambda: setattr(cls, '__init__', orig))


def small_otsu(env, nbins):
    """the two-level threshold is evaluated on `nbins` classes instead of the default 256 (bound of the claim)"""
    import inspect
    f = getattr(env.pkg('surfalize.mathutils'), 'otsu_threshold', None)
    d = getattr(f, '__defaults__', None)
    if not d:
        return
    names = [p.name for p in inspect.signature(f).parameters.values() if p.default is not p.empty]
    new = tuple(nbins if n == 'nbins' else v for n, v in zip(names, d))
    if len(new) != len(d):
        return
    f.__defaults__ = new
    env.cleanup.append(lambda: setattr(f, '__defaults__', d))


def fine_rounding(env, nd):
    """rounding of results to `nd` or more decimal places is neglected (stated in the bounds); the replay includes it"""
    if env.symbolic:
        from symx import core
        core.FINE[0] = nd
        env.cleanup.append(lambda: core.FINE.__setitem__(0, None))


class Curve:
    """piecewise linear material ratio curve, written from ISO 25178-2: height as a function of the material ratio,
    sampled at `nbins` equally spaced material ratios"""

    def __init__(self, env, incr, nbins):
        from fractions import Fraction
        self.env, self.n = env, nbins
        self.mr = [Fraction(100 * k, nbins - 1) for k in range(nbins)]
        N = len(incr)
        self.h = []
        for m in self.mr:
            pos = (N - 1) * (1 - m / 100)
            i = min(int(pos), N - 2) if N > 1 else 0
            f = pos - i
            self.h.append(incr[i] * self.c(1 - f) + incr[i + 1] * self.c(f) if N > 1 else incr[0])

    def c(self, f):
        return f if self.env.symbolic else float(f)

    def at(self, m):
        """height at material ratio m (rational constant)"""
        from fractions import Fraction
        m = Fraction(m)
        k = min(int(m * (self.n - 1) / 100), self.n - 2)
        f = (m - self.mr[k]) * (self.n - 1) / 100
        return self.h[k] * self.c(1 - f) + self.h[k + 1] * self.c(f)


def wide(env, name='fac'):
    """a height scale over ten decades"""
    return env.real(name, Fraction(1, 10 ** 6), 10 ** 4)


def big(ny, nx):
    """heights of a large surface without symmetries, all of them integers"""
    return [[(i * 37 + j * 11 + i * j * 7 + (i * i + 3 * j * j) // 5) % 101 - 30 for j in range(nx)] for i in range(ny)]


def bell(n, skew=0):
    """different heights distributed like a sum of three independent ones; skew > 0: few high peaks, < 0: few deep pits"""
    v = [(k * 37 % 23) + (k * k * 5 + k * 3) % 29 + (k * 13 + k * k * k * 7) % 31 for k in range(n)]
    if skew:
        m = max(v)
        v = [Fraction(x * x, m) if skew > 0 else m - Fraction((m - x) ** 2, m) for x in v]
    return [Fraction(x) + Fraction(k * 7 % n, 4 * n) for k, x in enumerate(v)]


def spikes(ny, nx, n=997):
    """flat ground with few peaks and more, shallower pits: the mean lies at the ground, most heights are the same"""
    return [[{0: 30, 1: -10, 2: -10, 3: -10}.get((i * nx + j) % n, 0) for j in range(nx)] for i in range(ny)]


def bulk(fn):
    """the same harness on many points: heights are a fixed pattern between 0 and 100 without symmetries, times any scale, plus any offset"""
    def run(env, *a, **k):
        env.pattern = lambda i, j: (i * 37 + j * 11 + i * j * 7 + (i * i + 3 * j * j) // 5) % 101
        return fn(env, *a, **k)
    return run


BIG = [(36, 30), (2, 520), (300, 3), (17, 17), (65, 70), (150, 220)]


def topo(env, z, kind, ny=None):
    """Surface or Profile from a flat list of ordinates"""
    if kind == 'profile':
        return env.pkg('surfalize.profile').Profile(env.array(list(z)), env.pos('step'))
    w = len(z) // (ny or 2)
    return env.surface([list(z[i:i + w]) for i in range(0, len(z), w)], *env.steps())


def par(t, name):
    """areal or profile variant of a parameter method"""
    return getattr(t, ('R' if type(t).__name__ == 'Profile' else 'S') + name)


def integers(env, ny, nx, ops, profile=False, lo=-40, hi=90, setter=False, fixed=None, tol=None, steps=None):
    """heights of integer type give the results of the same heights as floating point numbers; ops: (label, function of the object -> list or None)"""
    if fixed is not None:
        z = [list(r) for r in fixed]
    else:
        z = [[env.int_(f'k{i}_{j}', lo, hi) for j in range(nx)] for i in range(ny)]
    if profile:
        st = steps[0] if steps else env.pos('step')
        P = env.pkg('surfalize.profile').Profile
        mk = lambda a: P(a, st)
        rows = z[0]
    else:
        st = steps or env.steps()
        S = env.pkg('surfalize.surface').Surface
        mk = lambda a: S(a, *st)
        rows = z

    def both():
        a, b = mk(env.iarray(rows)), mk(env.array(rows))
        if setter:
            zero = [[0] * len(r) for r in z] if not profile else [0] * len(rows)
            a, b = mk(env.array(zero)), mk(env.array(zero))
            a.data, b.data = env.iarray(rows), env.array(rows)
        return a, b
    for label, f in ops:
        a, b = both()
        ra, rb = f(a), f(b)
        ra = env.flat((a if ra is None else ra).data) if ra is None or hasattr(ra, 'data') and not hasattr(ra, 'dtype') else env.flat(ra) if hasattr(ra, 'dtype') and getattr(ra, 'shape', ()) else ra
        rb = env.flat((b if rb is None else rb).data) if rb is None or hasattr(rb, 'data') and not hasattr(rb, 'dtype') else env.flat(rb) if hasattr(rb, 'dtype') and getattr(rb, 'shape', ()) else rb
        if isinstance(ra, (list, tuple)):
            env.concrete(f'{label}: size with integer heights', len(ra) == len(rb))
            for x, y in zip(ra, rb):
                env.concrete(f'{label}: non-measured points with integer heights', bool(env.isnan(x)) == bool(env.isnan(y)))
                if not env.isnan(x):
                    env.eq(f'{label} with integer heights', x, y) if tol is None else env.close(f'{label} with integer heights', x, y, tol, 1)
        else:
            env.eq(f'{label} with integer heights', ra, rb) if tol is None else env.close(f'{label} with integer heights', ra, rb, tol, 1)


def results(env, x):
    """heights, steps or numbers behind a result, as a flat list"""
    if x is None:
        return [None]
    if isinstance(x, (list, tuple)):
        return [v for e in x for v in results(env, e)]
    if hasattr(x, 'step_x'):
        return env.flat(x.data) + [x.step_x, x.step_y]
    if hasattr(x, 'step'):
        return env.flat(x.data) + [x.step]
    if getattr(x, 'shape', ()):
        return env.flat(x)
    return [x]


def defaults(env, rows, cases, profile=False, nan=(), steps=(1, 1), scale=(Fraction(1, 2), 50)):
    """leaving an argument out is giving its documented default; cases: (label, function without, function with the argument)"""
    a, b = env.pos('scale', *scale), env.real('offset', -20, 20)
    k = flatten(rows)
    z = [env.nan() if i in nan else x * a + b for i, x in enumerate(k)]
    w = len(rows[0])
    new = lambda: env.pkg('surfalize.profile').Profile(env.array(z), steps[0]) if profile else env.surface([z[i:i + w] for i in range(0, len(z), w)], *steps)
    for label, f, g in cases:
        x, y = results(env, f(new())), results(env, g(new()))
        if not env.concrete(f'{label}: same size', len(x) == len(y), f'{len(x)} {len(y)}'):
            continue
        for p, q in zip(x, y):
            if isinstance(q, str) or q is None:
                env.concrete(label, p == q, f'{p} {q}')
            elif env.concrete(f'{label}: non-measured points', bool(env.truth(env.isnan(p))) == bool(env.truth(env.isnan(q)))) and not env.truth(env.isnan(q)):
                env.eq(label, p, q)
