"""Volume parameters Vm, Vv, Vmp, Vmc, Vvv, Vvc."""
from fractions import Fraction
from .common import H, ordered, small_bins, Curve, topo, par, wide, bell
NOTE = 'volumes are claimed up to the two curve classes at the truncation height'


def vols(env, order, nbins, kind, p, q, ties=(), pairs=False):
    small_bins(env, nbins)
    z, b = ordered(env, order, ties=ties)
    t = topo(env, z, kind)
    cv = Curve(env, b, nbins)
    w = cv.c(Fraction(1, nbins - 1))
    step = env.max([h0 - h1 for h0, h1 in zip(cv.h, cv.h[1:])])

    def exact(m):
        hm = cv.at(m)
        mat = void = 0
        for k in range(nbins - 1):
            lo, hi = cv.mr[k], cv.mr[k + 1]
            if lo < m:
                e = min(hi, Fraction(m))
                mat = mat + cv.c((e - lo) / 100) * ((cv.h[k] + cv.at(e)) / 2 - hm)
            if hi > m:
                e = max(lo, Fraction(m))
                void = void + cv.c((hi - e) / 100) * (hm - (cv.at(e) + cv.h[k + 1]) / 2)
        return mat, void
    vm, vv = {}, {}
    for m in (p, q):
        c = cv.c(Fraction(m))
        vm[m], vv[m] = t.Vm(c), t.Vv(c)
        mat, void = exact(m)
        env.nonneg('Vm >= 0', vm[m])
        env.nonneg('Vv >= 0', vv[m])
        f = cv.c(Fraction(m, 100))
        env.le('Vm at most the material above', vm[m], mat + 2 * step * (f + 2 * w))
        env.le('Vm at least the material above less two classes', mat - 2 * step * (f + 2 * w), vm[m])
        env.le('Vv at most the void below plus two classes', vv[m], void + 2 * step * (1 - f + 2 * w))
        env.le('Vv at least the void below less two classes', void - 2 * step * (1 - f + 2 * w), vv[m])
    env.le('Vm grows with the ratio', vm[p], vm[q])
    env.le('Vv falls with the ratio', vv[q], vv[p])
    pp, qq = cv.c(Fraction(p)), cv.c(Fraction(q))
    env.eq('Vmp', t.Vmp(pp), vm[p])
    env.eq('Vmc', t.Vmc(pp, qq), vm[q] - vm[p])
    env.eq('Vvv', t.Vvv(qq), vv[q])
    env.eq('Vvc', t.Vvc(pp, qq), vv[p] - vv[q])
    # the differences hold for any pair of ratios
    for u, v in ((3, 37), (13, 47), (62, 94), (52, 97), (79, 11), (0, 80)) if pairs else ():
        fu, fv = cv.c(Fraction(u)), cv.c(Fraction(v))
        env.eq(f'Vmc({u},{v})', t.Vmc(fu, fv), t.Vm(fv) - t.Vm(fu))
        env.eq(f'Vvc({u},{v})', t.Vvc(fu, fv), t.Vv(fu) - t.Vv(fv))
        env.eq(f'Vmp({u})', t.Vmp(fu), t.Vm(fu))
        env.eq(f'Vvv({v})', t.Vvv(fv), t.Vv(fv))
    if (p, q) == (10, 80):
        env.eq('Vmp default', t.Vmp(), vm[p])
        env.eq('Vmc default', t.Vmc(), vm[q] - vm[p])
        env.eq('Vvv default', t.Vvv(), vv[q])
        env.eq('Vvc default', t.Vvc(), vv[p] - vv[q])
        curve = t.get_abbott_firestone_curve()
        env.eq('vmp of the curve by default', curve.vmp(), vm[p])
        env.eq('vmc of the curve by default', curve.vmc(), vm[q] - vm[p])
        env.eq('vvv of the curve by default', curve.vvv(), vv[q])
        env.eq('vvc of the curve by default', curve.vvc(), vv[p] - vv[q])


def scale(env, order, nbins, kind):
    small_bins(env, nbins)
    z, b = ordered(env, order)
    t = topo(env, z, kind)
    a = wide(env)
    k = a * env.real('off', -5, 5)
    P = env.pkg('surfalize.profile').Profile
    z2 = [a * v + k for v in z]
    t2 = P(env.array(z2), 1) if kind == 'profile' else env.surface([z2[:3], z2[3:]], 1, 1)
    for n in ('Vmp', 'Vmc', 'Vvv', 'Vvc'):
        env.eq(f'{n} scales with the heights and ignores offsets', getattr(t2, n)() / a, getattr(t, n)(), tol=1e-4)


def resolved(env, n, kind, skew, sign=1):
    """many points and the number of classes the library uses by default"""
    import numpy as np
    pat = [sign * v for v in bell(n, skew)]
    a, c = wide(env), env.real('c', -5, 5)
    f = (lambda v: Fraction(v)) if env.symbolic else float
    t = topo(env, [a * (f(v) + c) for v in pat], kind)
    v = np.sort([float(x) for x in pat])
    x = np.linspace(0, 100, 400001)
    y = np.interp(100 - x, np.linspace(0, 100, n), v)
    at = lambda m: float(np.interp(100 - m, np.linspace(0, 100, n), v))
    area = lambda g: float(np.sum((g[1:] + g[:-1]) / 2) * (x[1] - x[0])) / 100
    vm = {m: area(np.maximum(y - at(m), 0)) for m in (10, 25, 60, 80)}
    vv = {m: area(np.maximum(at(m) - y, 0)) for m in vm}
    rng = float(v[-1] - v[0])
    env.close('material volume above 60 %', t.Vm(f(60)) / a, f(vm[60]), 2e-3, rng)
    env.close('void volume below 25 %', t.Vv(f(25)) / a, f(vv[25]), 2e-3, rng)
    curve = t.get_abbott_firestone_curve()
    for k, w in {'Vmc': vm[80] - vm[10], 'Vvc': vv[10] - vv[80]}.items():
        env.close(k, getattr(t, k)() / a, f(w), 2e-3, rng)
        env.close(f'{k} of the curve', getattr(curve, k.lower())() / a, f(w), 2e-3, rng)
    # the steep ends of the curve: the value at the default ratio, not near it
    p10, p80 = f(10), f(80)
    for who, get in (('', lambda n: getattr(t, n)), (' of the curve', lambda n: getattr(curve, n.lower()))):
        env.eq('Vmp at 10 %' + who, get('Vmp')() / a, t.Vm(p10) / a)
        env.eq('Vvv at 80 %' + who, get('Vvv')() / a, t.Vv(p80) / a)
        env.eq('Vmc from 10 % to 80 %' + who, get('Vmc')() / a, (t.Vm(p80) - t.Vm(p10)) / a)
        env.eq('Vvc from 10 % to 80 %' + who, get('Vvc')() / a, (t.Vv(p10) - t.Vv(p80)) / a)
    env.close('Vmp', t.Vmp() / a, f(vm[10]), 2e-3, rng)


def harnesses(tier):
    o6, o6b, o8 = (3, 0, 5, 1, 4, 2), (1, 5, 2, 0, 3, 4), (4, 2, 0, 6, 1, 3, 5, 7)
    hs = []
    for k, (o, nb, kind, p, q, ties) in enumerate([(o6, 8, 'surface', 10, 80, ()), (o8, 11, 'profile', 10, 80, ()), (o6b, 7, 'surface', 25, 60, ()), (o6, 6, 'profile', 20, 65, (2,)), (o8, 9, 'surface', 5, 95, ())]):
        hs.append(H(f'volumes {k}', vols, time=60, order=o, nbins=nb, kind=kind, p=p, q=q, ties=ties, pairs=k in (2, 3), bounds=f'{len(o)} heights, {nb} classes, p={p} q={q}'))
    hs += [H('scaling surface', scale, time=60, order=o6, nbins=8, kind='surface', bounds='6 heights, 8 classes'), H('scaling profile', scale, time=60, order=o6b, nbins=7, kind='profile', bounds='6 heights, 7 classes')]
    for n, kind, skew, sign in ((120, 'surface', 0, 1), (300, 'profile', -1, 1), (300, 'surface', 1, 1), (12100, 'surface', -1, -1)) + (((34000, 'profile', 1, 1),) if tier == 'thorough' else ()):
        hs.append(H(f'resolved {kind} {n} {skew * sign}', resolved, time=400, n=n, kind=kind, skew=skew, sign=sign, bounds=f'{n} fixed heights, scale 1e-6..1e4, any offset, default number of classes'))
    if tier == 'thorough':
        for k, (p, q) in enumerate([(10, 80), (1, 99), (30, 31), (50, 90)]):
            hs.append(H(f'T volumes {k}', vols, time=400, order=o8, nbins=16 + k, kind='surface', p=p, q=q, max_paths=4000, bounds=f'8 heights, {16 + k} classes'))
    return hs
