"""Fronts for the parts of scipy the analysed code may use."""
import functools
import types
from fractions import Fraction
import numpy as np
import z3
from . import core, arr
from .core import R, SymBool, Unsupported, eng, rkey
from .arr import SymArray, tosym, rr, has_sym, C, F64

# harnesses may install replacement models here (name -> callable); reset per path
STUBS = {}


def lin_lstsq(a, b, cond=None, **k):
    s, Am, xs, rank = arr.lstsq_impl(a, b)
    return s, arr.Opaque('residues'), rank, arr.Opaque('singular values')


def fftconvolve(a, b, mode='full', axes=None):
    if axes is not None:
        raise Unsupported('fftconvolve axes')
    a, b = tosym(a), tosym(b)
    A, B = a.base_arr(), b.base_arr()
    shape = tuple(p + q - 1 for p, q in zip(A.shape, B.shape))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = R.c(0)
    for i in np.ndindex(*A.shape):
        for j in np.ndindex(*B.shape):
            k = tuple(p + q for p, q in zip(i, j))
            out[k] = out[k] + rr(A[i]) * rr(B[j])
    if mode == 'same':
        st = [(f - s) // 2 for f, s in zip(shape, A.shape)]
        out = out[tuple(slice(o, o + s) for o, s in zip(st, A.shape))]
    elif mode == 'valid':
        v = [p - q + 1 for p, q in zip(A.shape, B.shape)]
        st = [(f - s) // 2 for f, s in zip(shape, v)]
        out = out[tuple(slice(o, o + s) for o, s in zip(st, v))]
    elif mode != 'full':
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    return SymArray.make(np.ascontiguousarray(out))


def correlate(a, b, mode='full', method='auto'):
    b = tosym(b)
    return fftconvolve(a, b[tuple(slice(None, None, -1) for _ in range(b.ndim))], mode)


def gaussian_kernel(sigma, truncate):
    sd = float(sigma)
    lw = int(truncate * sd + 0.5)
    x = np.arange(-lw, lw + 1)
    phi = np.exp(-0.5 / (sd * sd) * x ** 2)
    phi = phi / phi.sum()
    return phi, lw


def extend_index(i, n, mode):
    """index mapping of scipy.ndimage boundary modes (integer positions); None for constant"""
    if 0 <= i < n:
        return i
    if mode in ('reflect', 'grid-mirror'):
        p = 2 * n
        i %= p
        return i if i < n else p - 1 - i
    if mode == 'nearest':
        return 0 if i < 0 else n - 1
    if mode == 'mirror':
        if n == 1:
            return 0
        p = 2 * n - 2
        i %= p
        return i if i < n else p - i
    if mode in ('wrap', 'grid-wrap'):
        return i % n
    if mode in ('constant', 'grid-constant'):
        return None
    raise RuntimeError('boundary mode not supported')


def gaussian_filter(input, sigma, order=0, output=None, mode='reflect', cval=0.0, truncate=4.0, *, radius=None, axes=None):
    """Separable convolution with an exact copy of scipy's kernel when sigma is concrete."""
    if 'gaussian_filter' in STUBS:
        return STUBS['gaussian_filter'](input, sigma, order=order, mode=mode, cval=cval, truncate=truncate, axes=axes)
    if order != 0 or radius is not None or axes is not None or output is not None:
        raise Unsupported('gaussian_filter options')
    a = tosym(input)
    nd = a.ndim
    sg = [rr(s) for s in (tosym(sigma).elems() if not isinstance(tosym(sigma), R) else [sigma] * nd)]
    modes = [mode] * nd if isinstance(mode, str) else list(mode)
    out = a.base_arr()
    for ax in range(nd):
        if not sg[ax].is_const():
            raise Unsupported('symbolic sigma in gaussian_filter')
        s = float(sg[ax].cval())
        if s <= 1e-15:
            continue
        k, lw = gaussian_kernel(s, truncate)
        k = [Fraction(float(v)) for v in k]
        b = np.moveaxis(out, ax, -1)
        res = np.empty(b.shape, dtype=object)
        n = b.shape[-1]
        for idx in np.ndindex(*b.shape[:-1]):
            row = [rr(x) for x in b[idx].tolist()]
            for i in range(n):
                acc = R.c(0)
                wsum = {}
                for j in range(-lw, lw + 1):
                    e = extend_index(i + j, n, modes[ax])
                    if e is None:
                        acc = acc + R.of(cval) * k[j + lw]
                    else:
                        wsum[e] = wsum.get(e, 0) + k[j + lw]
                for e, w in wsum.items():
                    acc = acc + row[e] * w
                res[idx + (i,)] = acc
        out = np.moveaxis(res, -1, ax)
    return arr.astype(SymArray.make(np.ascontiguousarray(out)), a._sd) if a._sd.kind in 'iu' else SymArray.make(np.ascontiguousarray(out))


def gaussian_filter1d(input, sigma, axis=-1, order=0, output=None, mode='reflect', cval=0.0, truncate=4.0, **k):
    a = tosym(input)
    sg = [0] * a.ndim
    sg[axis] = sigma
    return gaussian_filter(a, SymArray.from_list([rr(s) for s in sg], (a.ndim,)), mode=mode, cval=cval, truncate=truncate)


_HULL = {}


def linear_weights(pts, q):
    """weights of the data points in the linear interpolation at known positions: the triangulation is scipy's own, the weights are exact;
    None outside the convex hull"""
    import scipy.spatial
    F = lambda v: Fraction(float(v))
    if pts.shape[1] == 1:
        o = sorted(range(len(pts)), key=lambda i: pts[i, 0])
        for a, b in zip(o, o[1:]):
            if pts[a, 0] <= q[0] <= pts[b, 0]:
                t = (F(q[0]) - F(pts[a, 0])) / (F(pts[b, 0]) - F(pts[a, 0]))
                return {a: 1 - t, b: t}
        return None
    key = (pts.shape, pts.tobytes())
    d = _HULL.get(key)
    if d is None:
        d = _HULL[key] = scipy.spatial.Delaunay(pts.astype(float))
    k = int(d.find_simplex(np.asarray(q, dtype=float)))
    if k < 0:
        return None
    s = d.simplices[k].tolist()
    (x0, y0), (x1, y1), (x2, y2) = [[F(v) for v in pts[i]] for i in s]
    x, y = F(q[0]), F(q[1])
    det = (y1 - y2) * (x0 - x2) + (x2 - x1) * (y0 - y2)
    if det == 0:
        raise Unsupported('degenerate triangle')
    a = ((y1 - y2) * (x - x2) + (x2 - x1) * (y - y2)) / det
    b = ((y2 - y0) * (x - x2) + (x0 - x2) * (y - y2)) / det
    return {s[0]: a, s[1]: b, s[2]: 1 - a - b}


def griddata(points, values, xi, method='linear', fill_value=float('nan'), rescale=False):
    """Interpolation contract. 'nearest': each query point takes the value of a nearest data point (any of them on a tie);
    'linear': exact on scipy's triangulation; other methods: at a data point the data value, elsewhere an unconstrained value."""
    pts = np.asarray(points)
    if pts.ndim == 1:
        pts = pts[:, None]
    vals = [rr(v) for v in tosym(values).elems()]
    if isinstance(xi, tuple):
        q = np.stack([np.asarray(x) for x in np.broadcast_arrays(*xi)], axis=-1)
    else:
        q = np.asarray(xi)
        if pts.shape[1] == 1 and (q.ndim == 1 or q.shape[-1] != 1):
            q = q[..., None]
    out = np.empty(q.shape[:-1], dtype=object)
    E = eng()
    if len(pts) != len(vals):
        raise ValueError('different number of values and points')
    for idx in np.ndindex(*out.shape):
        d = ((pts - q[idx]) ** 2).sum(axis=1)
        if method == 'nearest':
            if not len(d):
                raise ValueError('No points given')
            best = np.flatnonzero(d == d.min())
            if len(best) == 1:
                out[idx] = vals[best[0]]
            else:
                # tie: the k-d tree may return any of them
                # (the same one for the same data)
                key = ('griddata', pts.tobytes(), tuple(rkey(v) for v in vals), tuple(q[idx].tolist()))
                a = E.memo.get(key)
                if a is None:
                    a = E.memo[key] = E.new_atom('tie')
                    E.set_defs(a, [z3.Or(*[a.z == vals[b].z() for b in best])])
                nan = core.bor(*[vals[b].nan for b in best])
                out[idx] = R(core.Poly.atom(a), None, nan)
        elif method in ('linear', 'cubic'):
            hit = np.flatnonzero(d == 0)
            if len(hit):
                out[idx] = vals[hit[0]]
            elif method == 'linear' and pts.shape[1] <= 2:
                w = linear_weights(pts, q[idx])
                if w is None:
                    out[idx] = R.of(fill_value)
                else:
                    acc = R.c(0)
                    for i, c in w.items():
                        if c:
                            acc = acc + vals[i] * c
                    out[idx] = acc
            else:
                key = ('griddata', method, pts.tobytes(), tuple(rkey(v) for v in vals), tuple(q[idx].tolist()))
                a = E.memo.get(key)
                if a is None:
                    a = E.memo[key] = E.new_atom('griddata')
                nb = z3.Bool(f'gdnan_{a.id}')
                out[idx] = R(core.Poly.atom(a), None, nb)
        else:
            raise ValueError('Unknown interpolation method')
    return SymArray.make(out)


_SPLINE = {}


def spline_const(a, co, order, mode, cval, prefilter):
    """spline interpolation at known positions is linear in the data: the weights are read off scipy itself on unit arrays"""
    import scipy.ndimage
    pts = np.array([[float(rr(v).cval()) for v in c.elems()] for c in co])
    key = (a.shape, pts.tobytes(), order, mode, prefilter)
    W = _SPLINE.get(key)
    if W is None:
        W = []
        for i in np.ndindex(*a.shape):
            u = np.zeros(a.shape)
            u[i] = 1
            W.append(scipy.ndimage.map_coordinates(u, pts, order=order, mode=mode, cval=0.0, prefilter=prefilter))
        W = np.array(W).T
        _SPLINE[key] = W
    if cval != 0:
        raise Unsupported('map_coordinates cval')
    xs = [rr(v) for v in a.elems()]
    out = []
    for row in W:
        acc = R.c(0)
        for w, x in zip(row, xs):
            if abs(w) > 1e-14:
                acc = acc + x * Fraction(round(w * 2 ** 44), 2 ** 44)
        out.append(acc)
    return SymArray.from_list(out, co[0].shape)


def map_coordinates(input, coordinates, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
    """order 0/1 exact; higher orders: exact at grid points (spline interpolates), opaque in between."""
    if 'map_coordinates' in STUBS:
        return STUBS['map_coordinates'](input, coordinates, order=order, mode=mode, cval=cval)
    a = tosym(input)
    co = [tosym(c) for c in coordinates]
    if order > 1 and all(rr(v).is_const() for c in co for v in c.elems()):
        return spline_const(a, co, order, mode, cval, prefilter)
    base = a.base_arr()
    n = [c.elems() for c in co]
    res = []
    E = eng()
    for pt in zip(*n):
        pt = [rr(p) for p in pt]
        fl = []
        outside = False
        integral = True
        for p, s in zip(pt, a.shape):
            if bool(p < 0) or bool(p > s - 1):
                outside = True
                break
            k = int(p)
            fl.append(k)
            if bool(p != k):
                integral = False
        if outside:
            if mode == 'constant':
                res.append(R.of(cval))
                continue
            raise Unsupported('map_coordinates outside')
        if integral:
            res.append(rr(base[tuple(fl)]))
            continue
        if order == 1:
            acc = R.c(0)
            import itertools
            for bits in itertools.product((0, 1), repeat=len(pt)):
                w = R.c(1)
                ix = []
                for p, k, b, s in zip(pt, fl, bits, a.shape):
                    f = p - k
                    w = w * (f if b else 1 - f)
                    ix.append(min(k + b, s - 1))
                acc = acc + w * rr(base[tuple(ix)])
            res.append(acc)
            continue
        if order == 0:
            ix = [int(p.rint()) for p in pt]
            res.append(rr(base[tuple(ix)]))
            continue
        # opaque but deterministic in the position and the data
        key = ('mapc', order, tuple(rkey(rr(v)) for v in base.ravel().tolist()), tuple(rkey(p) for p in pt))
        at = E.memo.get(key)
        if at is None:
            at = E.new_atom('spline')
            E.memo[key] = at
        res.append(R.atom(at))
    return SymArray.from_list(res, co[0].shape if isinstance(co[0], SymArray) else ())


def linear_map(name):
    """a scipy.ndimage function that is linear in the data for known other arguments: its matrix is read off scipy itself on unit arrays"""
    def f(input, *args, **kw):
        import scipy.ndimage
        if name in STUBS:
            return STUBS[name](input, *args, **kw)
        a = tosym(input)
        if has_sym(args) or has_sym(tuple(kw.values())):
            args = tuple(float(rr(x).cval()) if isinstance(x, (R, SymArray)) and rr(x).is_const() else x for x in args)
            kw = {k: float(rr(x).cval()) if isinstance(x, (R, SymArray)) and rr(x).is_const() else x for k, x in kw.items()}
            if has_sym(args) or has_sym(tuple(kw.values())):
                raise Unsupported(f'ndimage.{name} with symbolic arguments')
        if kw.get('output') is not None or kw.get('cval', 0.0) != 0:
            raise Unsupported(f'ndimage.{name} output or cval')
        xs = [rr(v) for v in a.elems()]
        if any(x.nan is not False for x in xs):
            raise Unsupported(f'ndimage.{name} of non-measured points')
        key = (name, a.shape, repr(args), repr(sorted(kw.items())))
        W = _SPLINE.get(key)
        if W is None:
            W = []
            for i in np.ndindex(*a.shape):
                u = np.zeros(a.shape)
                u[i] = 1
                W.append(getattr(scipy.ndimage, name)(u, *args, **kw))
            W = _SPLINE[key] = np.stack(W, axis=-1)
        out = []
        for row in W.reshape(-1, W.shape[-1]):
            acc = R.c(0)
            for w, x in zip(row.tolist(), xs):
                if abs(w) > 1e-14:
                    acc = acc + x * Fraction(round(w * 2 ** 44), 2 ** 44)
            out.append(acc)
        r = SymArray.from_list(out, W.shape[:-1])
        return arr.astype(r, a._sd) if a._sd.kind in 'iu' else r
    return f


def curve_fit(f, xdata, ydata, p0=None, **k):
    if 'curve_fit' in STUBS:
        return STUBS['curve_fit'](f, xdata, ydata, p0=p0, **k)
    raise Unsupported('curve_fit')


def find_peaks(*a, **k):
    if 'find_peaks' in STUBS:
        return STUBS['find_peaks'](*a, **k)
    return sym_find_peaks(*a, **k)


def sym_find_peaks(x, height=None, threshold=None, distance=None, prominence=None, width=None, wlen=None, rel_height=.5, plateau_size=None):
    if height is not None or threshold is not None or width is not None or wlen is not None or plateau_size is not None or isinstance(prominence, tuple):
        raise Unsupported('find_peaks options')
    a = [rr(v) for v in tosym(x).elems()]
    n = len(a)

    def lt(i, j):
        return i != j and bool(a[i] < a[j])
    # local maxima, plateaus count as their middle
    pk = []
    i = 1
    while i < n - 1:
        if lt(i - 1, i):
            j = i + 1
            while j < n - 1 and bool(a[j] == a[i]):
                j += 1
            if lt(j, i):
                pk.append((i + j - 1) // 2)
                i = j
        i += 1
    if distance is not None:
        d = int(np.ceil(distance))
        order = list(range(len(pk)))
        # stable insertion sort by height, decided by the solver
        srt = []
        for q in order:
            k = len(srt)
            while k and lt(pk[q], pk[srt[k - 1]]):
                k -= 1
            srt.insert(k, q)
        keep = [True] * len(pk)
        for q in reversed(srt):
            if not keep[q]:
                continue
            k = q - 1
            while k >= 0 and pk[q] - pk[k] < d:
                keep[k] = False
                k -= 1
            k = q + 1
            while k < len(pk) and pk[k] - pk[q] < d:
                keep[k] = False
                k += 1
        pk = [p for p, f in zip(pk, keep) if f]
    props = {}
    if prominence is not None:
        pr, lb, rb = [], [], []
        for p in pk:
            lo, li, k = a[p], p, p
            while k >= 0 and not lt(p, k):
                if bool(a[k] < lo):
                    lo, li = a[k], k
                k -= 1
            ro, ri, k = a[p], p, p
            while k < n and not lt(p, k):
                if bool(a[k] < ro):
                    ro, ri = a[k], k
                k += 1
            pr.append(a[p] - core.rmax([lo, ro]))
            lb.append(li)
            rb.append(ri)
        ok = [bool(q >= prominence) for q in pr]
        pk = [p for p, f in zip(pk, ok) if f]
        props = {'prominences': SymArray.from_list([q for q, f in zip(pr, ok) if f], (len(pk),)),
                 'left_bases': np.array([q for q, f in zip(lb, ok) if f], dtype=int), 'right_bases': np.array([q for q, f in zip(rb, ok) if f], dtype=int)}
    return np.array(pk, dtype=np.intp), props


def conc_mask(x, name, n):
    if isinstance(x, SymArray):
        if x.dtype.kind == 'b':
            return np.array([bool(v) for v in x.elems()], dtype=bool).reshape(x.shape)
        if all(rr(v).is_const() for v in x.elems()) and x.dtype.kind in 'iu':
            return np.array([int(rr(v)) for v in x.elems()], dtype=x.dtype).reshape(x.shape)
        raise Unsupported(f'{name}.{n}')
    if has_sym(x):
        raise Unsupported(f'{name}.{n}')
    return x


def _front(name, real, table):
    class M(types.ModuleType):
        def __getattr__(self, n):
            v = getattr(real, n)
            t = table.get(n)
            if isinstance(t, types.ModuleType):
                return t
            if t is not None:
                @functools.wraps(v)
                def f(*a, **k):
                    if has_sym(a) or has_sym(tuple(k.values())) or n in STUBS:
                        return t(*a, **k)
                    return v(*a, **k)
                return f
            if callable(v) and not isinstance(v, type):
                @functools.wraps(v)
                def g(*a, **k):
                    if n in STUBS:
                        return STUBS[n](*a, **k)
                    if has_sym(a) or has_sym(tuple(k.values())):
                        if not name.endswith('ndimage'):
                            raise Unsupported(f'{name}.{n}')
                        # masks are decided (fork) and handed to scipy
                        a = tuple(conc_mask(x, name, n) for x in a)
                        k = {q: conc_mask(x, name, n) for q, x in k.items()}
                    return v(*a, **k)
                return g
            return v
    return M(name)


def build():
    import scipy
    import scipy.linalg
    import scipy.signal
    import scipy.ndimage
    import scipy.interpolate
    import scipy.optimize
    import scipy.stats
    import scipy.integrate
    import scipy.fft
    trap = arr.FN['trapezoid']
    t = {
        'linalg': _front('scipy.linalg', scipy.linalg, {'lstsq': lin_lstsq, 'norm': arr.linalg_norm, 'pinv': arr.linalg_pinv,
                                                        'inv': arr.linalg_inv, 'solve': arr.linalg_solve}),
        'signal': _front('scipy.signal', scipy.signal, {'fftconvolve': fftconvolve, 'convolve': fftconvolve,
                                                        'convolve2d': fftconvolve, 'correlate': correlate,
                                                        'correlate2d': correlate, 'oaconvolve': fftconvolve,
                                                        'find_peaks': find_peaks}),
        'ndimage': _front('scipy.ndimage', scipy.ndimage, {'gaussian_filter': gaussian_filter, 'gaussian_filter1d': gaussian_filter1d,
                                                           'map_coordinates': map_coordinates, **{n: linear_map(n) for n in ('rotate', 'shift', 'zoom', 'affine_transform', 'uniform_filter', 'uniform_filter1d', 'convolve', 'convolve1d', 'correlate', 'correlate1d', 'gaussian_laplace', 'laplace', 'sobel', 'prewitt', 'spline_filter', 'spline_filter1d')}}),
        'interpolate': _front('scipy.interpolate', scipy.interpolate, {'griddata': griddata}),
        'optimize': _front('scipy.optimize', scipy.optimize, {'curve_fit': curve_fit}),
        'integrate': _front('scipy.integrate', scipy.integrate, {'trapezoid': trap}),
        'fft': _front('scipy.fft', scipy.fft, {'fft2': arr.f_fft2, 'fft': arr.f_fft, 'ifft2': arr.f_ifft2, 'ifft': arr.f_ifft,
                                               'fftfreq': arr.f_fftfreq,
                                               'fftshift': lambda *a, **k: arr.do_function(np.fft.fftshift, a, k)}),
        'stats': _front('scipy.stats', scipy.stats, {}),
    }
    m = _front('scipy', scipy, t)
    return m
