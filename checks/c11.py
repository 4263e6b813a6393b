"""Levelling / polynomial detrending is the least-squares projection, ignoring non-measured points."""
from .common import H, flatten, integers, defaults, bulk
NOTE = 'least squares solved exactly in rational arithmetic; conditioning of the float solver is outside the claim'


def surf(env, ny, nx, degree, nan=(), how='detrend', inplace=False):
    z = env.grid('h', ny, nx, nan=nan)
    sx, sy = env.steps()
    s = env.surface(z, sx, sy)
    call = s.level if how == 'level' else (lambda **k: s.detrend_polynomial(degree, **k))
    trend = None
    if inplace:
        r = call(inplace=True)
        env.concrete('inplace returns the object itself', r is s)
    else:
        r, trend = call(return_trend=True)
        env.eqs('original untouched', s.data, z)
    out = env.rows(r.data)
    env.concrete('shape kept', len(out) == ny and len(out[0]) == nx)
    env.eq('step_x kept', r.step_x, sx)
    env.eq('step_y kept', r.step_y, sy)
    valid = [(i, j) for i in range(ny) for j in range(nx) if (i, j) not in nan]
    for i in range(ny):
        for j in range(nx):
            env.concrete('non-measured points preserved', bool(env.isnan(out[i][j])) == ((i, j) in nan))
    for a in range(degree + 1):
        for b in range(degree + 1 - a):
            env.eq(f'residual orthogonal to x^{a} y^{b}', env.sum(out[i][j] * (j ** a) * (i ** b) for i, j in valid), 0, scale=1e3)
    if trend is not None:
        t = env.rows(trend.data)
        env.eq('trend step_x', trend.step_x, sx)
        env.eq('trend step_y', trend.step_y, sy)
        for i, j in valid:
            env.eq('levelled + trend = original', out[i][j] + t[i][j], z[i][j])
    else:
        t = [[z[i][j] - out[i][j] for j in range(nx)] for i in range(ny)]
    full = trend is not None or not nan
    if full:
        # mixed finite differences of total order degree+1 vanish
        import math
        for a in range(degree + 2):
            b = degree + 1 - a
            if b >= ny or a >= nx:
                continue
            for i in range(ny - b):
                for j in range(nx - a):
                    d = env.sum(((-1) ** (p + q) * math.comb(a, p) * math.comb(b, q)) * t[i + q][j + p] for p in range(a + 1) for q in range(b + 1))
                    env.eq('trend is a polynomial of the requested degree', d, 0, scale=1e2)


def prof(env, n, degree, nan=(), how='detrend', inplace=False):
    import math
    z = env.vec('z', n, nan=nan)
    step = env.pos('step')
    p = env.pkg('surfalize.profile').Profile(env.array(z), step)
    call = p.level if how == 'level' else (lambda **k: p.detrend_polynomial(degree, **k))
    if inplace:
        r = call(inplace=True)
        env.concrete('inplace returns the object itself', r is p)
        t = None
    else:
        r, tr = call(return_trend=True)
        t = env.flat(tr.data)
        env.eqs('original untouched', p.data, z)
    out = env.flat(r.data)
    env.concrete('size kept', len(out) == n)
    env.eq('step kept', r.step, step)
    valid = [i for i in range(n) if i not in nan]
    for i in range(n):
        env.concrete('non-measured points preserved', bool(env.isnan(out[i])) == (i in nan))
    for a in range(degree + 1):
        env.eq(f'residual orthogonal to x^{a}', env.sum(out[i] * (i ** a) for i in valid), 0, scale=1e3)
    if t:
        for i in valid:
            env.eq('levelled + trend = original', out[i] + t[i], z[i])
        for i in range(n - degree - 1):
            env.eq('trend is a polynomial of the requested degree', env.sum((-1) ** k * math.comb(degree + 1, k) * t[i + k] for k in range(degree + 2)), 0, scale=1e2)


def harnesses(tier):
    S = lambda name, **k: H(name, surf, time=40, bounds='arbitrary heights, fixed non-measured pattern', **k)
    P = lambda name, **k: H(name, prof, time=40, bounds='arbitrary ordinates, fixed non-measured pattern', **k)
    dflt = [('default degree', lambda s: s.detrend_polynomial(), lambda s: s.detrend_polynomial(degree=1)), ('no trend by default', lambda s: s.level(), lambda s: s.level(return_trend=False)),
            ('default degree with trend', lambda s: s.detrend_polynomial(return_trend=True), lambda s: s.detrend_polynomial(1, return_trend=True)), ('not in place by default', lambda s: [s.level(), s][1], lambda s: s)]
    hs = [S('level 3x4', ny=3, nx=4, degree=1, how='level'), S('level 4x2 nan', ny=4, nx=2, degree=1, how='level', nan=((0, 0), (2, 1))),
          S('level inplace 2x3', ny=2, nx=3, degree=1, how='level', inplace=True),
          S('level inplace 3x3 nan', ny=3, nx=3, degree=1, how='level', inplace=True, nan=((1, 1),)),
          S('degree 2 3x4', ny=3, nx=4, degree=2), S('degree 2 4x3 nan', ny=4, nx=3, degree=2, nan=((0, 1), (3, 2))),
          S('degree 1 2x5 nan', ny=2, nx=5, degree=1, nan=((0, 1), (1, 4), (0, 0))),
          S('degree 3 4x4', ny=4, nx=4, degree=3), S('degree 2 inplace 3x3', ny=3, nx=3, degree=2, inplace=True),
          S('level 4x4 mostly missing', ny=4, nx=4, degree=1, how='level', nan=((0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 3), (3, 0))),
          S('degree 2 4x5 mostly missing', ny=4, nx=5, degree=2, inplace=True, nan=((0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 3), (2, 1), (2, 2), (2, 4), (3, 3), (3, 0))),
          P('profile mostly missing', n=8, degree=1, nan=(1, 2, 3, 5, 6)),
          P('profile level 5', n=5, degree=1, how='level'), P('profile level 6 nan', n=6, degree=1, how='level', nan=(0, 3)),
          P('profile degree 2 6 nan', n=6, degree=2, nan=(2,)), P('profile degree 3 6', n=6, degree=3), P('profile inplace 5 nan', n=5, degree=1, nan=(4,), inplace=True)]
    hs += [S('degree 0 2x3 nan', ny=2, nx=3, degree=0, nan=((0, 1),)), S('degree 0 inplace 3x2', ny=3, nx=2, degree=0, inplace=True), P('profile degree 0', n=4, degree=0, nan=(1,)), P('profile level inplace', n=4, degree=1, how='level', inplace=True)]
    ops = [('level', lambda s: s.level()), ('level in place', lambda s: s.level(inplace=True)), ('detrend', lambda s: s.detrend_polynomial(2)), ('trend', lambda s: s.detrend_polynomial(1, return_trend=True)[1])]
    hs += [H('integer heights', integers, time=40, ny=3, nx=3, ops=ops, bounds='3x3, any integers from -40 to 90'), H('integer heights profile', integers, time=40, ny=1, nx=5, ops=ops, profile=True, setter=True, bounds='5 points, any integers')]
    rows = [[3, 9, -4, 2], [7, 5, 6, -8], [1, 1, 12, 0]]
    hs += [H('defaults surface', defaults, rows=rows, cases=dflt, nan=(5,), time=60, bounds='3x4 pattern, any scale and offset'), H('defaults profile', defaults, rows=[flatten(rows)], cases=dflt, profile=True, nan=(5,), time=60, bounds='12 points, any scale and offset')]
    hs += [H('large level', bulk(surf), ny=13, nx=21, degree=1, how='level', nan=((0, 3), (12, 20)), time=60, bounds='13x21 pattern, any scale and offset'), H('large degree 2', bulk(surf), ny=19, nx=9, degree=2, nan=((5, 5),), time=60, bounds='19x9 pattern, any scale and offset'),
           H('large degree 3 inplace', bulk(surf), ny=9, nx=9, degree=3, inplace=True, time=60, bounds='9x9 pattern, any scale and offset'), H('large profile', bulk(prof), n=70, degree=2, nan=(3, 69), time=60, bounds='70 points, any scale and offset'),
           H('huge level', bulk(surf), ny=110, nx=115, degree=1, how='level', nan=((0, 3), (109, 20)), time=150, bounds='110x115 pattern, any scale and offset'), H('huge degree 2', bulk(surf), ny=115, nx=110, degree=2, nan=((5, 5),), time=150, bounds='115x110 pattern, any scale and offset'),
           H('large degree 4', bulk(surf), ny=9, nx=5, degree=4, time=60, bounds='9x5 pattern, any scale and offset'), H('large degree 5', bulk(surf), ny=9, nx=9, degree=5, inplace=True, time=60, bounds='9x9 pattern, any scale and offset'),
           H('large degree 5 profile', bulk(prof), n=9, degree=5, time=60, bounds='9 points, any scale and offset'),
           H('large row pair', bulk(surf), ny=3, nx=280, degree=1, time=60, bounds='3x280 pattern'), H('large columns', bulk(surf), ny=280, nx=3, degree=1, how='level', time=60, bounds='280x3 pattern')]
    if tier == 'thorough':
        hs += [S('T degree 3 5x5 nan', ny=5, nx=5, degree=3, nan=((0, 4), (2, 2), (3, 1))), S('T degree 2 6x5', ny=6, nx=5, degree=2), S('T level 7x8 nan', ny=7, nx=8, degree=1, how='level', nan=((0, 0), (6, 7), (3, 3))),
               S('T degree 4 6x6', ny=6, nx=6, degree=4), P('T profile degree 5 12 nan', n=12, degree=5, nan=(1, 7))]
        for h in hs[-5:]:
            h.time = 300
    return hs
