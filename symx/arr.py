"""SymArray: ndarray subclass holding symbolic elements, and the numpy front the analysed code sees."""
import builtins
import functools
import operator
import types
from fractions import Fraction
import math
import numpy as np
import z3
from . import core
from .core import (R, SymBool, Unsupported, mkbool, bz, ite, rmax, rmin, ufun, eng, Inf, rounded, to_frac, rkey)

F64 = np.dtype('float64')
BOOL = np.dtype('bool')
I64 = np.dtype('int64')
C128 = np.dtype('complex128')


class C:
    """complex number of two R"""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im=0):
        self.re, self.im = R.of(re), R.of(im)

    @staticmethod
    def of(v):
        if isinstance(v, C):
            return v
        if isinstance(v, (complex, np.complexfloating)):
            return C(R.of(v.real), R.of(v.imag))
        return C(R.of(v), R.c(0))

    def __add__(self, o): o = C.of(o); return C(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o): o = C.of(o); return C(self.re - o.re, self.im - o.im)
    def __rsub__(self, o): return C.of(o) - self
    def __mul__(self, o):
        o = C.of(o)
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = C.of(o)
        if o.im.is_const() and o.im.cval() == 0:
            return C(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return C(n.re / d, n.im / d)
    def __neg__(self): return C(-self.re, -self.im)
    def conjugate(self): return C(self.re, -self.im)
    def __abs__(self):
        if self.im.is_const() and self.im.cval() == 0:
            return abs(self.re)
        if self.re.is_const() and self.re.cval() == 0:
            return abs(self.im)
        return (self.re * self.re + self.im * self.im).sqrt()
    absolute = __abs__
    def __pow__(self, e):
        r = self
        for _ in range(int(e) - 1):
            r = r * self
        return r
    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    def square(self): return self * self
    def __repr__(self): return f'C({self.re},{self.im})'


def is_sym(x):
    return isinstance(x, (R, SymBool, SymArray, C))


def has_sym(x, depth=4):
    if isinstance(x, (R, SymBool, SymArray, C)):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(i, depth - 1) for i in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(i, (R, SymBool, C)) for i in x.ravel().tolist())
    return False


def sdtype_of(x):
    if isinstance(x, SymArray):
        return x._sd
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, R):
        return F64
    if isinstance(x, C):
        return C128
    if isinstance(x, (SymBool, bool)):
        return BOOL
    return None


def elem(x):
    """normalise an element produced by an elementwise operation"""
    if isinstance(x, (R, SymBool, C, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        return C.of(x)
    if isinstance(x, (int, np.integer)):
        return R.c(int(x))
    if isinstance(x, (float, np.floating, Fraction)):
        return R.of(x)
    return x


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self._sd = getattr(obj, '_sd', F64)

    # ---- construction
    @staticmethod
    def make(objarr, sd=F64):
        a = np.asarray(objarr, dtype=object).view(SymArray) if not isinstance(objarr, SymArray) else objarr
        a._sd = np.dtype(sd)
        return a

    @staticmethod
    def from_list(flat, shape, sd=F64):
        a = np.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            a[i] = v
        return SymArray.make(a.reshape(shape), sd)

    @staticmethod
    def wrap0(v, sd=None):
        a = np.empty((), dtype=object)
        a[()] = v
        return SymArray.make(a, sd or sdtype_of(v) or F64)

    @property
    def dtype(self):
        return self._sd

    @dtype.setter
    def dtype(self, v):
        raise Unsupported('dtype assignment')

    @property
    def itemsize(self): return self._sd.itemsize
    @property
    def nbytes(self): return self._sd.itemsize * self.size

    def base_arr(self):
        return np.ndarray.view(self, np.ndarray)

    def elems(self):
        return self.base_arr().ravel().tolist()

    @property
    def real(self):
        return self if self._sd.kind != 'c' else mapel(lambda c: C.of(c).re, self)

    @property
    def imag(self):
        return mapel(lambda c: C.of(c).im, self)

    @property
    def T(self):
        return self.transpose()

    # ---- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)

    def view(self, *a, **k):
        if not a and not k:
            return np.ndarray.view(self)
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self)
        if a and isinstance(a[0], type) and issubclass(a[0], SymArray):
            return np.ndarray.view(self)
        raise Unsupported('view with dtype')

    # ---- indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, conv_key(key))
        return r

    def __setitem__(self, key, value):
        key, symmask = conv_key(key, for_set=True)
        if symmask is None:
            if isinstance(value, SymArray) or isinstance(value, R) or isinstance(value, (SymBool, C)):
                v = value
            else:
                v = tosym(value)
            if isinstance(v, SymArray):
                v = v.base_arr()
                if v.ndim == 0:
                    v = v[()]
            if isinstance(v, (R, SymBool, C)) or isinstance(v, bool):
                if self._sd.kind == 'i' and isinstance(v, R):
                    v = v if core._is_int(v) else v.trunc()
                base = self.base_arr()
                if isinstance(np.ndarray.__getitem__(base, key), np.ndarray):
                    w = np.empty((), dtype=object)
                    w[()] = v
                    v = w
                np.ndarray.__setitem__(base, key, v)
                return
            np.ndarray.__setitem__(self, key, v)
            return
        mask = symmask
        # elementwise ite; value broadcast as scalar only
        val = tosym(value)
        if isinstance(val, SymArray):
            if val.size != 1:
                key = conv_key(mask)
                np.ndarray.__setitem__(self, key, val.base_arr())
                return
            val = val.elems()[0]
        mb = np.broadcast_to(expand_mask(mask, self.shape), self.shape)
        old = self.base_arr()
        new = np.empty(self.shape, dtype=object)
        for idx in np.ndindex(*self.shape):
            m = mb[idx]
            new[idx] = ite(m, val, old[idx]) if isinstance(m, SymBool) else (val if m else old[idx])
        np.ndarray.__setitem__(self, Ellipsis, new)

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self.elems()[0])

    def __float__(self):
        return float(self.elems()[0])

    def __int__(self):
        return int(self.elems()[0])

    def __index__(self):
        return self.elems()[0].__index__()

    def __round__(self, nd=None):
        return self.elems()[0].__round__(nd)

    def item(self, *a):
        if a:
            return self.base_arr().item(*a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.elems()[0]

    def __repr__(self):
        return f'SymArray(shape={self.shape}, {self.elems()[:6]!r}...)'
    __str__ = __repr__

    def __contains__(self, v):
        return bool((self == v).any())

    # ---- methods
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        return astype(self, dtype)

    def copy(self, order='C'):
        return np.ndarray.copy(self, order)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return FN['sum'](self, axis=axis, dtype=dtype, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return FN['mean'](self, axis=axis, dtype=dtype, keepdims=keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return FN['std'](self, axis=axis, dtype=dtype, ddof=ddof, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return FN['var'](self, axis=axis, dtype=dtype, ddof=ddof, keepdims=keepdims)
    def prod(self, axis=None, **k): return FN['prod'](self, axis=axis)
    def min(self, axis=None, out=None, keepdims=False, **k): return FN['min'](self, axis=axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return FN['max'](self, axis=axis, keepdims=keepdims)
    def ptp(self, axis=None, **k): return FN['ptp'](self, axis=axis)
    def any(self, axis=None, **k): return FN['any'](self, axis=axis)
    def all(self, axis=None, **k): return FN['all'](self, axis=axis)
    def argmin(self, axis=None, **k): return FN['argmin'](self, axis=axis)
    def argmax(self, axis=None, **k): return FN['argmax'](self, axis=axis)
    def cumsum(self, axis=None, **k): return FN['cumsum'](self, axis=axis)
    def round(self, decimals=0, out=None): return FN['round'](self, decimals)
    def clip(self, a_min=None, a_max=None, **k):
        return FN['clip'](self, k.get('min', a_min), k.get('max', a_max))
    def argsort(self, axis=-1, **k): return FN['argsort'](self, axis=axis)
    def sort(self, axis=-1, **k):
        np.ndarray.__setitem__(self, Ellipsis, FN['sort'](self, axis=axis).base_arr())
    def searchsorted(self, v, side='left', sorter=None): return FN['searchsorted'](self, v, side=side)
    def nonzero(self): return FN['nonzero'](self)
    def dot(self, o): return FN['dot'](self, o)
    def conj(self): return self if self._sd.kind != 'c' else mapel(lambda c: C.of(c).conjugate(), self)
    conjugate = conj
    def byteswap(self, inplace=False): raise Unsupported('byteswap')
    def newbyteorder(self, *a): raise Unsupported('newbyteorder')
    def tobytes(self, order='C'): return IO_HOOKS['tobytes'](self)
    def tofile(self, f, sep='', format='%s'): return IO_HOOKS['tofile'](self, f, sep, format)
    def tolist(self): return self.base_arr().tolist()
    def fill(self, v): self[...] = v
    def trace(self, *a, **k): return wrap(np.trace(self.base_arr()))
    def __matmul__(self, o): return FN['matmul'](self, o)
    def __rmatmul__(self, o): return FN['matmul'](o, self)
    def __reduce__(self): raise Unsupported('pickle')


IO_HOOKS = {}


class NatArray(np.ndarray):
    """concrete array handed to the analysed code; may be indexed with symbolic masks, indices and slices"""

    def __getitem__(self, key):
        return np.ndarray.__getitem__(self, conv_key(key))

    def __setitem__(self, key, value):
        if has_sym(value):
            value = native_value(value, np.ndarray.__getattribute__(self, 'dtype'))
        np.ndarray.__setitem__(self, conv_key(key), value)


def native_value(v, dt):
    """concretise a value stored into a concrete bool or integer array"""
    f = (lambda e: bool(e)) if dt.kind == 'b' else (lambda e: e.__index__() if isinstance(e, R) else e) if dt.kind in 'iu' else None
    if f is None:
        raise Unsupported(f'symbolic value stored in concrete {dt} array')
    v = tosym(v)
    if isinstance(v, SymArray):
        return np.array([f(e) for e in v.elems()], dtype=dt).reshape(v.shape)
    return f(v)


def nat(x):
    if type(x) is np.ndarray and x.ndim and x.dtype.kind in 'biuf':
        return x.view(NatArray)
    if type(x) in (tuple, list):
        return type(x)(nat(i) for i in x)
    return x


def conv_key(key, for_set=False):
    """Convert an index expression so that native indexing can apply it. Symbolic masks are concretised by branching
    (reads) or returned separately (writes)."""
    def conv1(k):
        if isinstance(k, SymArray):
            if k._sd == BOOL:
                return np.array([bool(e) for e in k.elems()], dtype=bool).reshape(k.shape)
            return np.array([int(e) for e in k.elems()], dtype=np.int64).reshape(k.shape)
        if isinstance(k, (R,)):
            return k.__index__()
        if isinstance(k, SymBool):
            return bool(k)
        if isinstance(k, slice):
            return slice(*[x.__index__() if isinstance(x, R) else x for x in (k.start, k.stop, k.step)])
        if isinstance(k, list) and has_sym(k):
            return conv1(tosym(k))
        return k
    if for_set:
        k = key
        if isinstance(k, list) and has_sym(k):
            k = tosym(k)
        if isinstance(k, SymArray) and k._sd == BOOL:
            return key, k
        if isinstance(k, tuple):
            return tuple(conv1(x) for x in k), None
        return conv1(k), None
    if isinstance(key, tuple):
        return tuple(conv1(k) for k in key)
    return conv1(key)


def expand_mask(mask, shape):
    m = mask.base_arr()
    while m.ndim < len(shape):
        m = m[..., None]
    return m


def tosym(x, sd=None):
    """any array-like / scalar -> R | SymBool | bool | SymArray"""
    if isinstance(x, (R, SymBool, C, SymArray)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number, Fraction)):
        return elem(x)
    if isinstance(x, complex):
        return C.of(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return SymArray.from_list([elem(v) for v in x.ravel().tolist()], x.shape, sd or guess_sd(x.ravel().tolist()))
        if x.dtype.kind not in 'fiubc':
            raise Unsupported(f'array of dtype {x.dtype}')
        if x.dtype.kind == 'f' and x.dtype.itemsize < 8:
            vals = [R.c(Fraction(float(v))) if v == v and abs(v) != float('inf') else R.of(float(v)) for v in x.ravel().tolist()]
        else:
            vals = [elem(v) for v in x.ravel().tolist()]
        return SymArray.from_list(vals, x.shape, sd or x.dtype)
    if isinstance(x, (list, tuple, range)) or (hasattr(x, '__iter__') and not isinstance(x, (str, bytes))):
        items = [tosym(i) for i in x]
        if not items:
            return SymArray.from_list([], (0,), sd or F64)
        if any(isinstance(i, SymArray) for i in items):
            arrs = [i.base_arr() if isinstance(i, SymArray) else SymArray.wrap0(i).base_arr() for i in items]
            if len({a.shape for a in arrs}) != 1:
                raise ValueError('setting an array element with a sequence. The requested array has an '
                                 'inhomogeneous shape')
            out = np.empty((len(arrs),) + arrs[0].shape, dtype=object)
            for i, a in enumerate(arrs):
                out[i] = a
            sds = [sdtype_of(i) for i in items if sdtype_of(i) is not None]
            return SymArray.make(out, sd or np.result_type(*sds))
        return SymArray.from_list([elem(i) for i in items], (len(items),), sd or guess_sd(items, list(x)))
    raise Unsupported(f'array-like of type {type(x)}')


def guess_sd(items, orig=None):
    if all(isinstance(i, (bool, SymBool)) for i in items):
        return BOOL
    if any(isinstance(i, C) for i in items):
        return C128
    if orig is not None and all(isinstance(i, (int, np.integer)) for i in orig):
        return I64
    return F64


def wrap(a, sd=F64):
    """native object ndarray or element -> SymArray / element; all-concrete bool arrays become native bool"""
    if isinstance(a, np.ndarray):
        if a.dtype != object and not isinstance(a, SymArray):
            return a
        if a.ndim == 0:
            return a[()]
        if sd == BOOL:
            els = np.asarray(a, dtype=object).ravel().tolist()
            if all(isinstance(e, bool) for e in els):
                return np.array(els, dtype=bool).reshape(a.shape)
        return SymArray.make(a, sd)
    return a


def mapel(f, *arrs, sd=F64):
    objs = []
    for a in arrs:
        a = tosym(a)
        objs.append(a.base_arr() if isinstance(a, SymArray) else SymArray.wrap0(a).base_arr())
    if len(objs) > 1:
        bs = np.broadcast_arrays(*objs)
    else:
        bs = objs
    shape = bs[0].shape
    ls = [b.ravel().tolist() if b.ndim else [b[()]] for b in bs]
    res = [elem(f(*t)) for t in zip(*ls)]
    out = np.empty(len(res), dtype=object)
    for i, v in enumerate(res):
        out[i] = v
    return wrap(out.reshape(shape), sd)


def rr(x):
    return x if isinstance(x, (R, C)) else R.of(x)


def _truth(x):
    """bool-like of element"""
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, R):
        if x.nan is True:
            return True
        r = x != 0
        return r
    return bool(x)


def _not(x):
    x = _truth(x)
    return (not x) if isinstance(x, bool) else ~x


def _and(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return mkbool(z3.And(a.c, b.c))


def _or(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return mkbool(z3.Or(a.c, b.c))


def _xor(a, b):
    a, b = _truth(a), _truth(b)
    return mkbool(z3.Xor(bz(a), bz(b)))


def _isnan(x):
    if isinstance(x, R):
        return x.is_nan()
    if isinstance(x, C):
        return _or(x.re.is_nan(), x.im.is_nan())
    return False


def _isfinite(x):
    if isinstance(x, Inf):
        return False
    return _not(_isnan(x))


def _fmax(a, b):
    a, b = rr(a).concretize_nan(), rr(b).concretize_nan()
    if a.nan is True:
        return b
    if b.nan is True:
        return a
    return rmax([a, b])


def _fmin(a, b):
    a, b = rr(a).concretize_nan(), rr(b).concretize_nan()
    if a.nan is True:
        return b
    if b.nan is True:
        return a
    return rmin([a, b])


def _bitop(lop, iop):
    def f(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return lop(a, b)
        a, b = rr(a), rr(b)
        if a.is_const() and b.is_const():
            return R.c(iop(int(a.cval()), int(b.cval())))
        raise Unsupported('bit operation on symbolic integer')
    return f


def _invert(a):
    if isinstance(a, (bool, SymBool)):
        return _not(a)
    return -rr(a) - 1


def _pow(a, b):
    return rr(a) ** b


def _m(name):
    return lambda a: getattr(rr(a), name)()


def _sign(a):
    a = rr(a)
    if a.is_const():
        v = a.cval()
        return R.c((v > 0) - (v < 0))
    return ite(a > 0, R.c(1), ite(a < 0, R.c(-1), R.c(0)) if isinstance(a < 0, SymBool) else R.c(0 if not (a < 0) else -1)) \
        if isinstance(a > 0, SymBool) else (R.c(1) if (a > 0) else ite(a < 0, R.c(-1), R.c(0)))


def _abs(a):
    return abs(a) if isinstance(a, (R, C)) else abs(R.of(a))


def _cmpw(op):
    def f(a, b):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) and op in ('eq', 'ne'):
            r = _xor(a, b)
            return r if op == 'ne' else _not(r)
        a, b = rr(a), rr(b)
        if isinstance(a, C) or isinstance(b, C):
            raise Unsupported('complex comparison')
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
                'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
    return f


def _copysign(a, b):
    a = _abs(a)
    return ite(rr(b) >= 0, a, -a) if isinstance(rr(b) >= 0, SymBool) else (a if rr(b) >= 0 else -a)


# name -> (function, result kind: 'b' bool, 'f' float, 'n' result_type)
UF = {
    'add': (lambda a, b: _or(a, b) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else rr(a) + rr(b), 'n'),
    'subtract': (lambda a, b: rr(a) - rr(b), 'n'),
    'multiply': (lambda a, b: _and(a, b) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else rr(a) * rr(b), 'n'),
    'true_divide': (lambda a, b: rr(a) / rr(b), 'f'),
    'divide': (lambda a, b: rr(a) / rr(b), 'f'),
    'floor_divide': (lambda a, b: rr(a) // rr(b), 'n'),
    'remainder': (lambda a, b: rr(a) % rr(b), 'n'),
    'mod': (lambda a, b: rr(a) % rr(b), 'n'),
    'power': (_pow, 'n'), 'float_power': (_pow, 'f'),
    'negative': (lambda a: -rr(a), 'n'), 'positive': (lambda a: rr(a), 'n'),
    'absolute': (_abs, 'n'), 'fabs': (_abs, 'f'),
    'sqrt': (_m('sqrt'), 'f'), 'square': (lambda a: rr(a) * rr(a), 'n'), 'reciprocal': (lambda a: R.c(1) / rr(a), 'n'),
    'sign': (_sign, 'n'), 'rint': (_m('rint'), 'f'), 'floor': (_m('floor'), 'f'), 'ceil': (_m('ceil'), 'f'),
    'trunc': (_m('trunc'), 'f'),
    'exp': (_m('exp'), 'f'), 'log': (_m('log'), 'f'), 'log10': (_m('log10'), 'f'), 'log2': (_m('log2'), 'f'),
    'sin': (_m('sin'), 'f'), 'cos': (_m('cos'), 'f'), 'tan': (_m('tan'), 'f'), 'arctan': (_m('arctan'), 'f'),
    'arcsin': (_m('arcsin'), 'f'), 'arccos': (_m('arccos'), 'f'),
    'arctan2': (lambda a, b: rr(a).arctan2(rr(b)), 'f'), 'hypot': (lambda a, b: rr(a).hypot(rr(b)), 'f'),
    'deg2rad': (_m('deg2rad'), 'f'), 'rad2deg': (_m('rad2deg'), 'f'), 'radians': (_m('deg2rad'), 'f'),
    'degrees': (_m('rad2deg'), 'f'),
    'maximum': (lambda a, b: rmax([rr(a), rr(b)]), 'n'), 'minimum': (lambda a, b: rmin([rr(a), rr(b)]), 'n'),
    'fmax': (_fmax, 'n'), 'fmin': (_fmin, 'n'),
    'less': (_cmpw('lt'), 'b'), 'less_equal': (_cmpw('le'), 'b'), 'greater': (_cmpw('gt'), 'b'),
    'greater_equal': (_cmpw('ge'), 'b'), 'equal': (_cmpw('eq'), 'b'), 'not_equal': (_cmpw('ne'), 'b'),
    'logical_not': (_not, 'b'), 'logical_and': (_and, 'b'), 'logical_or': (_or, 'b'), 'logical_xor': (_xor, 'b'),
    'bitwise_and': (_bitop(_and, operator.and_), 'n'), 'bitwise_or': (_bitop(_or, operator.or_), 'n'),
    'bitwise_xor': (_bitop(_xor, operator.xor), 'n'), 'invert': (_invert, 'n'), 'bitwise_not': (_invert, 'n'),
    'isnan': (_isnan, 'b'), 'isfinite': (_isfinite, 'b'), 'isinf': (lambda a: isinstance(a, Inf), 'b'),
    'conjugate': (lambda a: a.conjugate() if isinstance(a, C) else a, 'n'),
    'copysign': (_copysign, 'f'),
    'matmul': None,
}


def result_sd(kind, args):
    if kind == 'b':
        return BOOL
    sds = []
    for a in args:
        s = sdtype_of(a)
        if isinstance(a, (R, SymBool)) and any(isinstance(x, (SymArray, np.ndarray)) for x in args):
            # python-scalar-like: weak
            if any(isinstance(x, SymArray) and x._sd.kind in 'fc' for x in args):
                continue
        if s is not None:
            sds.append(s)
        elif isinstance(a, float):
            if not any((sdtype_of(x) is not None and sdtype_of(x).kind in 'fc') for x in args):
                sds.append(F64)
    if not sds:
        return F64
    r = np.result_type(*sds)
    if kind == 'f' and r.kind not in 'fc':
        r = F64
    return r


def do_ufunc(ufunc, method, *inputs, out=None, where=True, axis=None, dtype=None, keepdims=False, casting=None,
             initial=None, **kw):
    name = ufunc.__name__
    if name == 'matmul':
        return FN['matmul'](*inputs)
    ent = UF.get(name)
    if ent is None:
        if name == 'frexp' or name == 'modf':
            raise Unsupported(name)
        if not has_sym(list(inputs)):
            return getattr(ufunc, method)(*inputs, **kw)
        raise Unsupported(f'ufunc {name}')
    f, kind = ent
    if method == '__call__':
        args = list(inputs)
        if len(args) > ufunc.nin:
            out = (args.pop(),)
        if kind == 'b' and len(args) == 2:
            # a python number is compared in the precision of a float32 array
            for k in (0, 1):
                d = sdtype_of(args[1 - k])
                if type(args[k]) in (int, float) and d is not None and d.kind == 'f' and d.itemsize < 8 and abs(args[k]) < 3e38:
                    args[k] = float(d.type(args[k]))
        sargs = [tosym(a) for a in args]
        sd = result_sd(kind, args)
        if where is not True:
            if out is None or (isinstance(out, tuple) and out[0] is None):
                raise Unsupported('ufunc where without out')
            o = out[0] if isinstance(out, tuple) else out
            w = tosym(where)
            res = mapel(lambda ww, oo, *xs: (ite(ww, rr(f(*xs)), rr(oo)) if isinstance(ww, SymBool)
                                             else (f(*xs) if ww else oo)), w, o, *sargs, sd=sd)
        else:
            res = mapel(f, *sargs, sd=sd)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                if not isinstance(o, SymArray):
                    raise Unsupported('in-place ufunc into a native array')
                o[...] = res
                return o
        if dtype is not None and isinstance(res, SymArray):
            res = astype(res, dtype)
        return res
    if method == 'reduce':
        nm = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_or': 'any',
              'logical_and': 'all', 'bitwise_or': 'any', 'bitwise_and': 'all', 'fmax': 'nanmax', 'fmin': 'nanmin'}.get(name)
        if nm is None:
            raise Unsupported(f'{name}.reduce')
        # ufunc.reduce default axis is 0
        return FN[nm](inputs[0], axis=axis, keepdims=keepdims)
    if method == 'accumulate':
        if name == 'add':
            return FN['cumsum'](inputs[0], axis=axis if axis is not None else 0)
        if name in ('maximum', 'minimum', 'multiply'):
            a = tosym(inputs[0]).elems()
            o = []
            for x in a:
                o.append(rr(x) if not o else f(o[-1], x))
            return SymArray.from_list(o, (len(o),))
        raise Unsupported(f'{name}.accumulate')
    if method == 'outer':
        a, b = tosym(inputs[0]), tosym(inputs[1])
        return do_ufunc(ufunc, '__call__', a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported(f'ufunc method {method}')


# ------------------------------------------------------------------------------------------ dtype conversion
def norm_dtype(dt):
    if dt is None:
        return F64
    d = getattr(dt, 'dtype', None)
    if isinstance(dt, type) and isinstance(d, np.dtype):
        return d
    return np.dtype(dt)


def f32round(x):
    """deterministic float32 rounding of a real"""
    if not isinstance(x, R) or x.nan is True or isinstance(x, Inf):
        return x
    if x.is_const():
        return R.c(Fraction(float(np.float32(float(x.cval())))))
    E = eng()
    a = None
    if len(x.n.t) == 1 and not x.d:
        (m, c), = x.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = E.atoms[m[0][0]]
            if a.info and (a.info[0] == 'f32' or a.info[0] == 'rnd' and a.info[1] == 'f32'):
                return x
    return rounded(x, Fraction(1, 10 ** 30), 'f32', Fraction(1, 2 ** 23))


def astype(a, dtype):
    d = norm_dtype(dtype)
    src = a._sd
    if d.kind == 'f':
        if d.itemsize < 8 and not (src.kind == 'f' and src.itemsize <= d.itemsize) and not (src.kind in 'iu' and src.itemsize <= 2):
            return mapel(lambda x: f32round(rr(x)), a, sd=d) if a.ndim else f32round(rr(a.item()))
        return mapel(rr, a, sd=d)
    if d.kind in 'iu':
        if src.kind in 'iub':
            r = mapel(lambda x: wrapint(rr(x), src, d), a, sd=d)
        else:
            r = mapel(lambda x: to_int_elem(rr(x), d), a, sd=d)
        if isinstance(r, SymArray) and all(e.is_const() for e in r.elems()):
            return np.array([int(e.cval()) for e in r.elems()]).reshape(r.shape).astype(d)
        return r
    if d.kind == 'b':
        return mapel(_truth, a, sd=BOOL)
    if d.kind == 'O':
        return a
    if d.kind == 'c':
        return mapel(C.of, a, sd=d)
    raise Unsupported(f'astype {d}')


def int_range(d):
    n = d.itemsize * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if d.kind == 'i' else (0, (1 << n) - 1)


def wrapint(x, src, d):
    lo, hi = int_range(d)
    if src.kind == 'b':
        return x
    slo, shi = int_range(src)
    if slo >= lo and shi <= hi:
        return x
    if x.is_const():
        return R.c((int(x.cval()) - lo) % (hi - lo + 1) + lo)
    inr = _and(x >= lo, x <= hi)
    if core.known(inr):
        return x
    return (x - lo) % (hi - lo + 1) + lo


def to_int_elem(x, d):
    """float -> int conversion: truncation; NaN/out of range is unspecified -> fresh value"""
    x = x.concretize_nan()
    if x.nan is True or isinstance(x, Inf):
        lo, hi = int_range(d)
        return R.c(lo if d.kind == 'i' else 0)
    if core._is_int(x):
        t = x
    else:
        t = x.trunc()
    return wrapint(t, np.dtype('int64') if d.itemsize < 8 else d, d)


# ------------------------------------------------------------------------------------------ reductions
FN = {}


def fn(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def reduce_axis(a, axis, keepdims, f, sd=F64):
    a = tosym(a)
    if not isinstance(a, SymArray):
        return elem(f([a]))
    if axis is None:
        r = elem(f(a.elems()))
        if keepdims:
            return SymArray.from_list([r], (1,) * a.ndim, sd)
        return r
    axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    b = a.base_arr()
    keep = [i for i in range(a.ndim) if i not in axes]
    bt = np.transpose(b, keep + list(axes))
    kshape = tuple(b.shape[i] for i in keep)
    out = np.empty(kshape, dtype=object)
    for idx in np.ndindex(*kshape):
        out[idx] = elem(f(bt[idx].ravel().tolist()))
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else b.shape[i] for i in range(a.ndim)))
    return wrap(out, sd)


def _sum(xs):
    t = R.c(0)
    for x in xs:
        t = t + x if isinstance(x, C) else (C.of(t) + x if isinstance(t, C) else t + rr(x)) if not isinstance(x, C) else x + t
    return t


def rsum(xs):
    t = None
    for x in xs:
        x = x if isinstance(x, C) else rr(x)
        t = x if t is None else t + x if not (isinstance(x, C) and not isinstance(t, C)) else C.of(t) + x
    return R.c(0) if t is None else t


def _wh(a, where):
    return a


def typed(f):
    """reductions that calculate in a given data type"""
    @functools.wraps(f)
    def g(a, axis=None, dtype=None, out=None, **k):
        if dtype is None:
            return f(a, axis=axis, **k)
        d = norm_dtype(dtype)
        a = tosym(a)
        if d.kind in 'iu' and a._sd.kind not in 'iub' or d.kind not in 'iuf':
            raise Unsupported(f'reduction in {d}')
        r = f(astype(a, d), axis=axis, **k)
        if d.kind == 'f' and d.itemsize >= 8:
            return r
        return astype(r, d) if isinstance(r, SymArray) else astype(SymArray.from_list([r], (1,)), d).ravel()[0]
    return g


@fn('sum')
@typed
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    if where is not None and where is not True:
        a = mapel(lambda w, x: ite(_truth(w), rr(x), R.c(0)) if isinstance(_truth(w), SymBool) else (rr(x) if w else R.c(0)), where, a)
    r = reduce_axis(a, axis, keepdims, rsum)
    return r


@fn('prod')
def f_prod(a, axis=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: functools.reduce(lambda p, q: p * rr(q), xs, R.c(1)))


def mean_(xs):
    if not xs:
        return R.nanv()
    return rsum(xs) / len(xs)


@fn('mean')
@typed
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    if where is not None and where is not True:
        raise Unsupported('mean where')
    return reduce_axis(a, axis, keepdims, mean_)


def var_(xs, ddof=0):
    if not xs:
        return R.nanv()
    m = mean_(xs)
    return rsum([(rr(x) - m) * (rr(x) - m) for x in xs]) / (len(xs) - ddof)


@fn('var')
@typed
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    ddof = k.get('correction', ddof)
    return reduce_axis(a, axis, keepdims, lambda xs: var_(xs, ddof))


@fn('std')
@typed
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    ddof = k.get('correction', ddof)
    return reduce_axis(a, axis, keepdims, lambda xs: var_(xs, ddof).sqrt())


def _nonempty(xs, what):
    if not xs:
        raise ValueError(f'zero-size array to reduction operation {what} which has no identity')


def max_(xs):
    _nonempty(xs, 'maximum')
    return rmax([rr(x) for x in xs])


def min_(xs):
    _nonempty(xs, 'minimum')
    return rmin([rr(x) for x in xs])


@fn('max', 'amax')
def f_max(a, axis=None, out=None, keepdims=False, **k):
    r = reduce_axis(a, axis, keepdims, max_)
    if k.get('initial') is not None:
        r = do_ufunc(np.maximum, '__call__', r, k['initial'])
    return r


@fn('min', 'amin')
def f_min(a, axis=None, out=None, keepdims=False, **k):
    r = reduce_axis(a, axis, keepdims, min_)
    if k.get('initial') is not None:
        r = do_ufunc(np.minimum, '__call__', r, k['initial'])
    return r


@fn('ptp')
def f_ptp(a, axis=None, **k):
    return reduce_axis(a, axis, False, lambda xs: max_(xs) - min_(xs))


def drop_nan(xs):
    out = []
    for x in xs:
        x = rr(x).concretize_nan()
        if x.nan is not True:
            out.append(x)
    return out


@fn('nansum')
def f_nansum(a, axis=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: rsum(drop_nan(xs)))


@fn('nanmean')
def f_nanmean(a, axis=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: mean_(drop_nan(xs)))


@fn('nanstd')
def f_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: var_(drop_nan(xs), ddof).sqrt())


@fn('nanvar')
def f_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: var_(drop_nan(xs), ddof))


@fn('nanmax')
def f_nanmax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: (max_(drop_nan(xs)) if drop_nan(xs) else R.nanv()))


@fn('nanmin')
def f_nanmin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: (min_(drop_nan(xs)) if drop_nan(xs) else R.nanv()))


@fn('any')
def f_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: functools.reduce(_or, xs, False), BOOL)


@fn('all')
def f_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(a, axis, keepdims, lambda xs: functools.reduce(_and, xs, True), BOOL)


@fn('count_nonzero')
def f_cnz(a, axis=None, **k):
    r = reduce_axis(a, axis, False, lambda xs: rsum([ite(_truth(x), R.c(1), R.c(0)) for x in xs]))
    return int(r.cval()) if isinstance(r, R) and r.is_const() else r


# ------------------------------------------------------------------------------------------ ordering
def lt_total(a, b):
    """a strictly before b in numpy sort order (nan last). Branches."""
    if a.nan is True:
        return False
    if b.nan is True:
        return True
    return bool(a < b)


def sort_perm(xs):
    """stable argsort by insertion with branching comparisons (binary insertion)."""
    xs = [rr(x).concretize_nan() if not isinstance(x, (bool, SymBool)) else rr(x) for x in xs]
    order = []
    for i, x in enumerate(xs):
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if lt_total(x, xs[order[mid]]):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return order, xs


@fn('sort')
def f_sort(a, axis=-1, **k):
    a = tosym(a)
    if axis is None:
        a = a.ravel()
        axis = -1

    def s1(row):
        o, xs = sort_perm(row)
        return [xs[i] for i in o]
    return along(a, axis, s1, a._sd)


@fn('argsort')
def f_argsort(a, axis=-1, **k):
    a = tosym(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    r = along(a, axis, lambda row: sort_perm(row)[0], I64, native=True)
    return r


@fn('lexsort')
def f_lexsort(*a, **k):
    raise Unsupported('lexsort')


def along(a, axis, f, sd, native=False):
    b = np.moveaxis(a.base_arr(), axis, -1)
    out = None
    for idx in np.ndindex(*b.shape[:-1]):
        row = f(b[idx].tolist())
        if out is None:
            out = np.empty(b.shape[:-1] + (len(row),), dtype=np.int64 if native else object)
        for j, v in enumerate(row):
            out[idx + (j,)] = v
    if out is None:
        out = np.empty(b.shape, dtype=np.int64 if native else object)
    out = np.moveaxis(out, -1, axis)
    return out if native else SymArray.make(np.ascontiguousarray(out), sd)


def arg_(xs, better, nanwins=True):
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    xs = [rr(x).concretize_nan() for x in xs]
    for i, x in enumerate(xs):
        if x.nan is True:
            return i
    bi = 0
    for i in range(1, len(xs)):
        if bool(better(xs[i], xs[bi])):
            bi = i
    return bi


def arg_reduce(a, axis, better):
    a = tosym(a)
    if axis is None:
        return np.int64(arg_(a.elems(), better))
    b = np.moveaxis(a.base_arr(), axis, -1)
    out = np.empty(b.shape[:-1], dtype=np.int64)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = arg_(b[idx].tolist(), better)
    return out if out.ndim else np.int64(out[()])


@fn('argmin')
def f_argmin(a, axis=None, out=None, **k):
    return arg_reduce(a, axis, lambda x, y: x < y)


@fn('argmax')
def f_argmax(a, axis=None, out=None, **k):
    return arg_reduce(a, axis, lambda x, y: x > y)


@fn('nanargmin')
def f_nanargmin(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('nanargmin axis')
    xs = [rr(x).concretize_nan() for x in tosym(a).elems()]
    ids = [i for i, x in enumerate(xs) if x.nan is not True]
    if not ids:
        raise ValueError('All-NaN slice encountered')
    return np.int64(ids[arg_([xs[i] for i in ids], lambda x, y: x < y)])


@fn('nanargmax')
def f_nanargmax(a, axis=None, **k):
    xs = [rr(x).concretize_nan() for x in tosym(a).elems()]
    ids = [i for i, x in enumerate(xs) if x.nan is not True]
    if not ids:
        raise ValueError('All-NaN slice encountered')
    return np.int64(ids[arg_([xs[i] for i in ids], lambda x, y: x > y)])


def quant(xs, q, method='linear', issorted=False):
    """xs list of R, q R in [0,1]"""
    if not xs:
        return R.nanv()
    if not issorted:
        o, xs = sort_perm(xs)
        xs = [xs[i] for i in o]
    if xs[-1].nan is True:
        return R.nanv()
    n = len(xs)
    q = rr(q)
    v = q * (n - 1)
    if v.is_const():
        if v.cval() < 0 or v.cval() > n - 1:
            raise ValueError('Quantiles must be in the range [0, 1]')
        import math
        k = math.floor(v.cval())
        g = v.cval() - k
    else:
        if bool(v < 0) or bool(v > n - 1):
            raise ValueError('Quantiles must be in the range [0, 1]')
        k = int(v)
        g = v - k
    if k >= n - 1:
        return xs[n - 1]
    lo, hi = xs[k], xs[k + 1]
    if method == 'linear':
        return lo + (hi - lo) * g
    if method == 'lower':
        return lo
    if method == 'higher':
        return hi if not (isinstance(g, Fraction) and g == 0) else lo
    if method == 'midpoint':
        return lo if (isinstance(g, Fraction) and g == 0) else (lo + hi) / 2
    if method == 'nearest':
        return lo if g < Fraction(1, 2) else hi
    raise Unsupported(f'quantile method {method}')


def quantile_impl(a, q, axis, method, nan, scale=1):
    a = tosym(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('quantile axis')
    qs = tosym(q)
    xs = a.elems()
    if nan:
        xs = drop_nan(xs)
    if not xs:
        f = lambda qq: R.nanv()
    else:
        o, xs = sort_perm(xs)
        ss = [xs[i] for i in o]
        f = lambda qq: quant(ss, rr(qq) / scale, method, True)
    if isinstance(qs, SymArray):
        return mapel(f, qs)
    return f(qs)


@fn('quantile')
def f_quantile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
    return quantile_impl(a, q, axis, method, False)


@fn('nanquantile')
def f_nanquantile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
    return quantile_impl(a, q, axis, method, True)


@fn('percentile')
def f_percentile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
    return quantile_impl(a, q, axis, method, False, 100)


@fn('nanpercentile')
def f_nanpercentile(a, q, axis=None, out=None, overwrite_input=False, method='linear', keepdims=False, **k):
    return quantile_impl(a, q, axis, method, True, 100)


def med_(xs):
    return quant([rr(x) for x in xs], R.c(Fraction(1, 2)))


@fn('median')
def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return reduce_axis(a, axis, keepdims, med_)


@fn('nanmedian')
def f_nanmedian(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return reduce_axis(a, axis, keepdims, lambda xs: med_(drop_nan(xs)))


@fn('searchsorted')
def f_searchsorted(a, v, side='left', sorter=None):
    xs = [rr(x) for x in tosym(a).elems()]

    def one(v):
        v = rr(v).concretize_nan()
        if v.nan is True:
            return len(xs)
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            c = bool(xs[mid] < v) if side == 'left' else bool(xs[mid] <= v)
            if c:
                lo = mid + 1
            else:
                hi = mid
        return lo
    vs = tosym(v)
    if isinstance(vs, SymArray) and vs.ndim:
        return np.array([one(x) for x in vs.elems()], dtype=np.int64).reshape(vs.shape)
    return np.int64(one(vs.item() if isinstance(vs, SymArray) else vs))


@fn('digitize')
def f_digitize(x, bins, right=False):
    return FN['searchsorted'](bins, x, side='left' if right else 'right')


@fn('interp')
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xs = [rr(v) for v in tosym(xp).elems()]
    fs = [rr(v) for v in tosym(fp).elems()]
    if len(xs) != len(fs):
        raise ValueError('fp and xp are not of the same length.')

    def one(v):
        v = rr(v).concretize_nan()
        if v.nan is True:
            return v
        if bool(v > xs[-1]):
            return fs[-1] if right is None else rr(right)
        if bool(v < xs[0]):
            return fs[0] if left is None else rr(left)
        # largest j with xs[j] <= v  (numpy binary search)
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(v >= xs[mid]):
                lo = mid + 1
            else:
                hi = mid
        j = lo - 1
        if j >= len(xs) - 1:
            return fs[-1]
        if bool(xs[j] == v):
            return fs[j]
        return (fs[j + 1] - fs[j]) / (xs[j + 1] - xs[j]) * (v - xs[j]) + fs[j]
    vs = tosym(x)
    if isinstance(vs, SymArray):
        return mapel(one, vs)
    return one(vs)


# ------------------------------------------------------------------------------------------ selection
@fn('where')
def f_where(cond, x=None, y=None):
    if x is None:
        return FN['nonzero'](cond)
    sd = result_sd('n', [a for a in (x, y)])
    c = tosym(cond)

    def f(c, a, b):
        c = _truth(c)
        if isinstance(c, SymBool):
            if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
                return mkbool(z3.If(c.c, bz(a), bz(b)))
            return ite(c, rr(a), rr(b))
        return a if c else b
    return mapel(f, c, x, y, sd=sd)


@fn('nonzero')
def f_nonzero(a):
    a = tosym(a)
    m = np.array([bool(_truth(e)) for e in a.elems()], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


@fn('flatnonzero')
def f_flatnonzero(a):
    return FN['nonzero'](tosym(a).ravel())[0]


@fn('argwhere')
def f_argwhere(a):
    return np.transpose(FN['nonzero'](a))


@fn('select')
def f_select(condlist, choicelist, default=0):
    r = tosym(default)
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = FN['where'](c, v, r)
    return r


@fn('extract')
def f_extract(cond, arr):
    return tosym(arr).ravel()[tosym(cond).ravel()]


@fn('clip')
def f_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = do_ufunc(np.maximum, '__call__', r, a_min)
    if a_max is not None:
        r = do_ufunc(np.minimum, '__call__', r, a_max)
    return r


@fn('nan_to_num')
def f_ntn(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = rr(v)
        n = v.is_nan()
        if isinstance(n, bool):
            return R.of(nan) if n else v
        return ite(n, R.of(nan), R(v.n, v.d, False))
    r = mapel(f, x)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r


@fn('array_equal')
def f_array_equal(a, b, equal_nan=False):
    a, b = tosym(a), tosym(b)
    sa = a.shape if isinstance(a, SymArray) else ()
    sb = b.shape if isinstance(b, SymArray) else ()
    if sa != sb:
        return False
    eq = mapel(_cmpw('eq'), a, b, sd=BOOL)
    if equal_nan:
        eq = do_ufunc(np.logical_or, '__call__', eq, mapel(lambda x, y: _and(_isnan(x), _isnan(y)), a, b, sd=BOOL))
    return FN['all'](eq) if isinstance(eq, SymArray) else (bool(np.all(eq)) if isinstance(eq, np.ndarray) else eq)


def _isclose(rtol, atol, equal_nan):
    def f(x, y):
        x, y = rr(x), rr(y)
        c = abs(x - y) <= R.of(atol) + R.of(rtol) * abs(y)
        if equal_nan:
            c = _or(c, _and(_isnan(x), _isnan(y)))
        return c
    return f


@fn('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return mapel(_isclose(rtol, atol, equal_nan), a, b, sd=BOOL)


@fn('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = FN['isclose'](a, b, rtol, atol, equal_nan)
    return FN['all'](r) if is_sym(r) else bool(np.all(r))


@fn('unique')
def f_unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    if return_inverse:
        raise Unsupported('unique inverse')
    order, xs = sort_perm(tosym(a).elems())
    vals, idx, cnt = [], [], []
    for i in order:
        if vals and bool(xs[i] == vals[-1]):
            cnt[-1] += 1
            continue
        vals.append(xs[i])
        idx.append(i)
        cnt.append(1)
    r = SymArray.from_list(vals, (len(vals),), sdtype_of(a))
    out = [r]
    if return_index:
        out.append(np.array(idx))
    if return_counts:
        out.append(np.array(cnt))
    return out[0] if len(out) == 1 else tuple(out)


@fn('cumsum')
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = tosym(a)
    if axis is None:
        a = a.ravel()
        axis = 0

    def f(row):
        o = []
        for x in row:
            o.append(rr(x) if not o else o[-1] + rr(x))
        return o
    return along(a, axis, f, F64)


@fn('round', 'around', 'round_')
def f_round(a, decimals=0, out=None):
    a = tosym(a)
    if isinstance(a, R):
        return a.__round__(decimals) if decimals else a.rint()
    return mapel(lambda x: rr(x).__round__(decimals) if decimals else rr(x).rint(), a, sd=a._sd)


@fn('fix')
def f_fix(a, *r):
    return mapel(_m('trunc'), a)


@fn('isin', 'in1d')
def f_isin(a, b, **k):
    bs = tosym(b)
    bs = bs.elems() if isinstance(bs, SymArray) else [bs]
    return mapel(lambda x: functools.reduce(_or, [_cmpw('eq')(x, y) for y in bs], False), a, sd=BOOL)


@fn('bincount')
def f_bincount(x, weights=None, minlength=0):
    xs = [int(v) for v in (tosym(x).elems())]
    if weights is None:
        return np.bincount(xs, minlength=minlength)
    ws = [rr(w) for w in tosym(weights).elems()]
    n = builtins.max(builtins.max(xs) + 1 if xs else 0, minlength)
    out = [R.c(0)] * n
    for i, w in zip(xs, ws):
        out[i] = out[i] + w
    return SymArray.from_list(out, (n,))


@fn('average')
def f_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return FN['mean'](a, axis=axis)
    if axis is not None:
        raise Unsupported('average axis weights')
    a, w = tosym(a), tosym(weights)
    return f_sum(a * w) / f_sum(w)


@fn('histogram')
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    if density or weights is not None:
        raise Unsupported('histogram density/weights')
    xs = [rr(v) for v in tosym(a).elems()]
    if isinstance(bins, (list, tuple, np.ndarray)):
        edges = [rr(v) for v in tosym(bins).elems()]
        nb = len(edges) - 1
    else:
        nb = int(bins)
        if range is None:
            lo, hi = min_(xs), max_(xs)
        else:
            lo, hi = rr(range[0]), rr(range[1])
        if bool(lo == hi):
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        edges = [lo + (hi - lo) * Fraction(i, nb) for i in builtins.range(nb + 1)]
    cnt = [0] * nb
    for x in xs:
        if bool(x < edges[0]) or bool(x > edges[-1]):
            continue
        lo_, hi_ = 0, nb - 1
        while lo_ < hi_:
            mid = (lo_ + hi_ + 1) // 2
            if bool(x >= edges[mid]):
                lo_ = mid
            else:
                hi_ = mid - 1
        cnt[lo_] += 1
    return np.array(cnt, dtype=np.int64), SymArray.from_list(edges, (nb + 1,))


@fn('trapezoid', 'trapz')
def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = tosym(y)
    if y.ndim != 1:
        raise Unsupported('trapezoid nd')
    ys = [rr(v) for v in y.elems()]
    if x is None:
        ds = [R.of(dx)] * (len(ys) - 1)
    else:
        xs = [rr(v) for v in tosym(x).elems()]
        if len(xs) != len(ys):
            raise ValueError('operands could not be broadcast together')
        ds = [xs[i + 1] - xs[i] for i in builtins.range(len(xs) - 1)]
    return rsum([ds[i] * (ys[i] + ys[i + 1]) / 2 for i in builtins.range(len(ds))])


# ------------------------------------------------------------------------------------------ linear algebra
def cfrac(x):
    x = rr(x)
    if not x.is_const():
        raise Unsupported('symbolic matrix in linear solver')
    return x.cval()


def mat_frac(A):
    A = tosym(A)
    b = A.base_arr()
    return [[cfrac(b[i, j]) for j in range(b.shape[1])] for i in range(b.shape[0])]


def fmatmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), Fraction(0)) for j in range(len(B[0]))] for i in range(len(A))]


def ftrans(A):
    return [list(r) for r in zip(*A)]


def finv(A):
    n = len(A)
    M = [list(A[i]) + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def frref(A):
    M = [list(r) for r in A]
    piv = []
    r = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [x * iv for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    return M[:r], piv


def pinv(A):
    """exact Moore-Penrose inverse"""
    At = ftrans(A)
    G = finv(fmatmul(At, A))
    if G is not None:
        return fmatmul(G, At), len(A[0])
    Rr, piv = frref(A)
    if not piv:
        return [[Fraction(0)] * len(A) for _ in A[0]], 0
    Bc = [[row[c] for c in piv] for row in A]
    Bt, Ct = ftrans(Bc), ftrans(Rr)
    M1 = finv(fmatmul(Bt, Bc))
    M2 = finv(fmatmul(Rr, Ct))
    return fmatmul(fmatmul(Ct, M2), fmatmul(M1, Bt)), len(piv)


def nice_matrix(A):
    """design matrices built in native floats: entries denote nearby simple rationals"""
    return mat_frac(A)


def lstsq_impl(A, b):
    Am = mat_frac(A)
    bs = tosym(b)
    if bs.ndim != 1:
        raise Unsupported('lstsq with matrix rhs')
    xs = [rr(x) for x in bs.elems()]
    if not Am:
        raise Unsupported('empty lstsq')
    P, rank = pinv(Am)
    sol = [rsum([x * p for x, p in zip(xs, row)]) if row else R.c(0) for row in P]
    return SymArray.from_list(sol, (len(sol),)), Am, xs, rank


def np_lstsq(A, b, rcond=None):
    s, Am, xs, rank = lstsq_impl(A, b)
    res = SymArray.from_list([], (0,))
    if rank == len(Am[0]) and len(Am) > rank:
        sl = s.elems()
        r = [rsum([sl[j] * a for j, a in enumerate(row)]) - x for row, x in zip(Am, xs)]
        res = SymArray.from_list([rsum([e * e for e in r])], (1,))
    return s, res, rank, Opaque('singular values')


class Opaque:
    def __init__(self, what): self.__dict__['what'] = what
    def __getattr__(self, n):
        raise Unsupported(f'use of opaque {self.what}')
    def __iter__(self): raise Unsupported(f'use of opaque {self.what}')
    def __getitem__(self, k): raise Unsupported(f'use of opaque {self.what}')


def polyfit_hi(x, y, deg, *a, **k):
    """np.polyfit: highest power first"""
    if a or any(v is not None and v is not False for v in k.values()):
        raise Unsupported('polyfit options')
    xs = [rr(v) for v in tosym(x).elems()]
    A = [[v ** (deg - j) for j in range(deg + 1)] for v in xs]
    A = SymArray.from_list([e for row in A for e in row], (len(xs), deg + 1))
    return lstsq_any(A, y)


def lstsq_any(A, y):
    """least squares, design matrix possibly symbolic when it has at most 2 columns"""
    b = A.base_arr()
    if all(rr(v).is_const() for v in b.ravel().tolist()):
        return lstsq_impl(A, y)[0]
    if b.shape[1] != 2:
        raise Unsupported('symbolic design matrix')
    ys = [rr(v) for v in tosym(y).elems()]
    n = len(ys)
    c0 = [rr(v) for v in b[:, 0].tolist()]
    c1 = [rr(v) for v in b[:, 1].tolist()]
    s00, s01, s11 = (rsum([p * q for p, q in zip(u, v)]) for u, v in ((c0, c0), (c0, c1), (c1, c1)))
    t0, t1 = (rsum([p * q for p, q in zip(u, ys)]) for u in (c0, c1))
    det = s00 * s11 - s01 * s01
    return SymArray.from_list([(t0 * s11 - t1 * s01) / det, (t1 * s00 - t0 * s01) / det], (2,))


def polyfit_lo(x, y, deg, rcond=None, full=False, w=None):
    if full or w is not None:
        raise Unsupported('polyfit options')
    if isinstance(deg, (list, tuple, np.ndarray)):
        degs = [int(d) for d in deg]
        if degs != list(range(len(degs))):
            raise Unsupported('polyfit degree list')
        deg = degs[-1]
    xs = [rr(v) for v in tosym(x).elems()]
    A = [[v ** j for j in range(deg + 1)] for v in xs]
    A = SymArray.from_list([e for row in A for e in row], (len(xs), deg + 1))
    return lstsq_any(A, y)


def polyval_lo(x, c, tensor=True):
    cs = [rr(v) for v in tosym(c).elems()]

    def f(v):
        v = rr(v)
        r = R.c(0)
        for a in reversed(cs):
            r = r * v + a
        return r
    return mapel(f, x)


@fn('polyval')
def f_polyval(p, x):
    return polyval_lo(x, tosym(p)[::-1])


@fn('polyfit')
def f_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    return polyfit_hi(x, y, deg, full=full or None, w=w, cov=cov or None)


@fn('dot', 'inner')
def f_dot(a, b, out=None):
    a, b = tosym(a), tosym(b)
    if not isinstance(a, SymArray) or not isinstance(b, SymArray) or not a.ndim or not b.ndim:
        return a * b
    return matmul(a, b)


@fn('vdot')
def f_vdot(a, b):
    return rsum([rr(x) * rr(y) for x, y in zip(tosym(a).elems(), tosym(b).elems())])


def matmul(a, b):
    x, y = a.base_arr(), b.base_arr()
    v1, v2 = x.ndim == 1, y.ndim == 1
    if v1:
        x = x[None, :]
    if v2:
        y = y[:, None]
    if x.ndim != 2 or y.ndim != 2:
        raise Unsupported('matmul nd')
    if x.shape[1] != y.shape[0]:
        raise ValueError('matmul: shapes not aligned')
    out = np.empty((x.shape[0], y.shape[1]), dtype=object)
    for i in range(x.shape[0]):
        for j in range(y.shape[1]):
            out[i, j] = rsum([rr(p) * rr(q) for p, q in zip(x[i].tolist(), y[:, j].tolist())])
    if v1 and v2:
        return out[0, 0]
    if v1:
        out = out[0]
    elif v2:
        out = out[:, 0]
    return wrap(out)


@fn('matmul')
def f_matmul(a, b, out=None, **k):
    return matmul(tosym(a), tosym(b))


@fn('einsum')
def f_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    terms = ins.split(',')
    arrs = [tosym(o).base_arr() for o in ops]
    dims = {}
    for t, a in zip(terms, arrs):
        for c, n in zip(t, a.shape):
            dims[c] = n
    if '->' not in spec:
        out = ''.join(sorted(c for c in dims if ins.count(c) == 1))
    rest = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    import itertools
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        acc = R.c(0)
        for ri in itertools.product(*[range(dims[c]) for c in rest]):
            env = dict(zip(out, oi))
            env.update(zip(rest, ri))
            p = R.c(1)
            for t, a in zip(terms, arrs):
                p = p * rr(a[tuple(env[c] for c in t)])
            acc = acc + p
        res[oi] = acc
    return wrap(res)


def linalg_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    return reduce_axis(x, axis, keepdims, lambda xs: rsum([rr(v) * rr(v) for v in xs]).sqrt())


def linalg_pinv(A, *a, **k):
    P, _ = pinv(mat_frac(A))
    return SymArray.from_list([R.c(v) for row in P for v in row], (len(P), len(P[0])))


def linalg_inv(A):
    P = finv(mat_frac(A))
    if P is None:
        raise np.linalg.LinAlgError('Singular matrix')
    return SymArray.from_list([R.c(v) for row in P for v in row], (len(P), len(P[0])))


def linalg_solve(A, b):
    return FN['matmul'](linalg_inv(A), b)


# ------------------------------------------------------------------------------------------ FFT (exact, small sizes)
ROUNDED_DFT = [False]


def trig(n, k):
    """cos(2 pi k/n), sin(2 pi k/n) as exact R for n | 24, else Unsupported (or the double nearest to it where a harness allows this)"""
    if 24 % n and ROUNDED_DFT[0]:
        k %= n
        return (R.c(1), R.c(0)) if k == 0 else (R.c(Fraction(math.cos(2 * math.pi * k / n))), R.c(Fraction(math.sin(2 * math.pi * k / n))))
    if 24 % n:
        raise Unsupported(f'exact DFT of size {n}')
    k = (k * (24 // n)) % 24
    s2, s3 = R.c(2).sqrt(), R.c(3).sqrt()
    h = Fraction(1, 2)
    table = {0: (R.c(1), R.c(0)), 1: ((s2 * s3 + s2) / 4, (s2 * s3 - s2) / 4), 2: (s3 * h, R.c(h)), 3: (s2 * h, s2 * h)}

    def cs(k):
        k %= 24
        if k > 12:
            c, s = cs(24 - k)
            return c, -s
        if k > 6:
            c, s = cs(12 - k)
            return -c, s
        if k > 3:
            c, s = cs(6 - k)
            return s, c
        return table[k]
    return cs(k)


def same(a, b):
    if a is b:
        return True
    d = a - b
    return d.is_const() and d.cval() == 0


def dft1(row, inverse=False):
    n = len(row)
    row = [C.of(x) for x in row]
    if n > 1 and all(same(x.re, row[0].re) and same(x.im, row[0].im) for x in row[1:]):
        # constant: exact for every size
        z = C.of(R.c(0))
        return [row[0] if inverse else C(row[0].re * n, row[0].im * n)] + [z] * (n - 1)
    tw = [trig(n, k) for k in range(n)]
    out = []
    for k in range(n):
        re, im = R.c(0), R.c(0)
        for j, x in enumerate(row):
            c, s = tw[(k * j) % n]
            s = s if inverse else -s
            re = re + x.re * c - x.im * s
            im = im + x.re * s + x.im * c
        if inverse:
            re, im = re / n, im / n
        out.append(C(re, im))
    return out


def fft_axis(a, axis, inverse=False):
    a = tosym(a)
    return along(a, axis, lambda r: dft1(r, inverse), C128)


def f_fft2(a, s=None, axes=(-2, -1), norm=None):
    if s is not None or norm is not None:
        raise Unsupported('fft2 options')
    return fft_axis(fft_axis(a, axes[1]), axes[0])


def f_fft(a, n=None, axis=-1, norm=None):
    if n is not None or norm is not None:
        raise Unsupported('fft options')
    return fft_axis(a, axis)


def f_rfft(a, n=None, axis=-1, norm=None):
    r = f_fft(a, n, axis, norm)
    return np.moveaxis(np.moveaxis(r, axis, -1)[..., :r.shape[axis] // 2 + 1], -1, axis)


def f_ifft2(a, s=None, axes=(-2, -1), norm=None):
    return fft_axis(fft_axis(a, axes[1], True), axes[0], True)


def f_ifft(a, n=None, axis=-1, norm=None):
    return fft_axis(a, axis, True)


def f_fftfreq(n, d=1.0):
    d = R.of(d)
    ks = list(range(0, (n - 1) // 2 + 1)) + list(range(-(n // 2), 0))
    return SymArray.from_list([R.c(k) / (d * n) for k in ks], (n,))


def f_rfftfreq(n, d=1.0):
    d = R.of(d)
    return SymArray.from_list([R.c(k) / (d * n) for k in range(n // 2 + 1)], (n // 2 + 1,))


# ------------------------------------------------------------------------------------------ structural functions
STRUCT = set('''reshape ravel transpose permute_dims concatenate vstack hstack stack column_stack dstack row_stack flip flipud fliplr rot90
roll tile repeat squeeze expand_dims atleast_1d atleast_2d atleast_3d broadcast_to broadcast_arrays moveaxis swapaxes
rollaxis split array_split hsplit vsplit dsplit take delete insert append diag diagonal tril triu meshgrid copy
fftshift ifftshift compress resize block unstack matrix_transpose'''.split())
IMPL = set('diff ediff1d outer cross kron gradient ptp pad convolve_ take_along_axis nan_to_num apply_along_axis cov tensordot'.split())


def unbase(x):
    if isinstance(x, SymArray):
        return x.base_arr()
    if isinstance(x, (R, SymBool, C)):
        return SymArray.wrap0(x).base_arr()
    if isinstance(x, list):
        return [unbase(i) for i in x]
    if isinstance(x, tuple):
        return tuple(unbase(i) for i in x)
    return x


def collect_sd(x, acc):
    if isinstance(x, (SymArray, R, SymBool, C, np.ndarray)):
        s = sdtype_of(x)
        if s is not None:
            acc.append(s)
    elif isinstance(x, (list, tuple)):
        for i in x:
            collect_sd(i, acc)
    return acc


def normels(a):
    """object ndarray possibly containing raw python numbers -> elements normalised in place-safe copy if needed"""
    fl = a.ravel()
    if all(isinstance(e, (R, SymBool, bool, C)) for e in fl.tolist()):
        return a
    out = np.empty(fl.shape, dtype=object)
    for i, e in enumerate(fl.tolist()):
        out[i] = elem(e)
    return out.reshape(a.shape)


def rewrap(x, sd):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return wrap(normels(x), sd) if x.ndim else elem(x[()])
        return x
    if isinstance(x, list):
        return [rewrap(i, sd) for i in x]
    if isinstance(x, tuple):
        return tuple(rewrap(i, sd) for i in x)
    return x


def do_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if mod.startswith('numpy.linalg') or name in ('lstsq',) :
        sub = LINALG.get(name)
        if sub:
            return sub(*args, **kwargs)
    if mod.startswith('numpy.fft') and name in FFT:
        return FFT[name](*args, **kwargs)
    f = FN.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name in STRUCT:
        if name in ('concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'dstack'):
            args = (list(args[0]),) + tuple(args[1:]) if args else args
        sds = collect_sd(list(args) + list(kwargs.values()), [])
        sds = [s for s in sds if s.kind in 'fiubc']
        sd = np.result_type(*sds) if sds else F64
        if name in ('take', 'insert', 'repeat', 'roll', 'delete', 'reshape', 'compress', 'resize') and sds:
            sd = sds[0]
        if name == 'meshgrid':
            return [rewrap(np.ndarray.copy(o), sdtype_of(tosym(i)) if is_sym(i) else None) for o, i in
                    zip(np.meshgrid(*unbase(list(args)), **kwargs), _mesh_order(args, kwargs))]
        r = func(*unbase(tuple(args)), **{k: unbase(v) for k, v in kwargs.items()})
        return rewrap(r, sd)
    if name in IMPL:
        impl = getattr(func, '_implementation', None) or getattr(func, '__wrapped__', None)
        if impl is not None:
            args = tuple(tosym(a) if isinstance(a, (list,)) and has_sym(a) else a for a in args)
            return impl(*args, **kwargs)
    if name in ('shape',):
        a = tosym(args[0])
        return a.shape if isinstance(a, SymArray) else ()
    if name in ('size',):
        a = tosym(args[0])
        if len(args) > 1 or 'axis' in kwargs:
            return a.shape[args[1] if len(args) > 1 else kwargs['axis']]
        return a.size if isinstance(a, SymArray) else 1
    if name == 'ndim':
        a = tosym(args[0])
        return a.ndim if isinstance(a, SymArray) else 0
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        return like_fn(name, *args, **kwargs)
    if name in ('real', 'imag'):
        return getattr(tosym(args[0]), name)
    if name in ('result_type',):
        return np.result_type(*[sdtype_of(a) or a for a in args])
    if name == 'copyto':
        dst, src = args[0], args[1]
        w = kwargs.get('where', args[3] if len(args) > 3 else True)
        dst[...] = src if w is True else FN['where'](w, src, dst)
        return None
    if name == 'putmask':
        a, m, v = args
        a[m] = v
        return None
    if name == 'isrealobj':
        return True
    if name == 'iscomplexobj':
        return sdtype_of(args[0]).kind == 'c'
    if name in ('savetxt', 'tofile') and name in IO_HOOKS:
        return IO_HOOKS[name](*args, **kwargs)
    if name in ('may_share_memory', 'shares_memory'):
        return func(*[unbase(a) for a in args])
    if name in ('array2string', 'array_repr', 'array_str'):
        return repr(args[0])
    raise Unsupported(f'numpy function {name}')


def _mesh_order(args, kwargs):
    return args


def like_fn(name, a, *args, **kw):
    a = tosym(a)
    dt = kw.get('dtype', (args[-1] if name != 'full_like' and args else None))
    sd = norm_dtype(dt) if dt is not None else a._sd
    shape = kw.get('shape', a.shape)
    if name == 'full_like':
        return np_full(shape, kw.get('fill_value', args[0] if args else None), dtype=sd)
    v = 1 if name == 'ones_like' else 0
    if sd.kind in 'iub':
        return np.full(shape, v, dtype=sd)
    return np_full(shape, v, dtype=sd)


LINALG = {'lstsq': np_lstsq, 'norm': linalg_norm, 'pinv': linalg_pinv, 'inv': linalg_inv, 'solve': linalg_solve,
          'matmul': f_matmul}
FFT = {'fft2': f_fft2, 'fft': f_fft, 'rfft': f_rfft, 'ifft2': f_ifft2, 'ifft': f_ifft, 'fftn': f_fft2}

for _n in ('fftshift', 'ifftshift'):
    pass


# ------------------------------------------------------------------------------------------ the numpy front
def np_full(shape, v, dtype=None, order='C', **k):
    if isinstance(shape, R):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(x) for x in shape)
    sd = norm_dtype(dtype) if dtype is not None else None
    if sd is not None and sd.kind in 'iub' and not has_sym(v):
        return np.full(shape, v, dtype=sd)
    if sd is not None and sd.kind in 'OSUV':
        return np.full(shape, v, dtype=sd)
    if sd is None and isinstance(v, (bool, int)) and not isinstance(v, float):
        return np.full(shape, v)
    s = tosym(v)
    a = np.empty(shape, dtype=object)
    if isinstance(s, SymArray):
        a[...] = s.base_arr()
    else:
        for i in np.ndindex(*a.shape):
            a[i] = s
    return SymArray.make(a, sd or F64)


def np_zeros(shape, dtype=None, order='C', **k):
    if dtype is None:
        dtype = F64
    return np_full(shape, 0, dtype)


def np_ones(shape, dtype=None, order='C', **k):
    if dtype is None:
        dtype = F64
    return np_full(shape, 1, dtype)


def np_array(x, dtype=None, *a, copy=True, **k):
    if has_sym(x):
        s = tosym(x)
        if not isinstance(s, SymArray):
            s = SymArray.wrap0(s)
        elif isinstance(x, SymArray) and copy:
            s = s.copy()
        if dtype is not None:
            d = norm_dtype(dtype)
            if d != s._sd:
                s = astype(s, d) if s.ndim else SymArray.wrap0(rr(s.item()))
        nd = k.get('ndmin', 0)
        while isinstance(s, np.ndarray) and s.ndim < nd:
            s = s[None]
        return s
    if dtype is not None:
        dtype = norm_dtype(dtype)
    if dtype is not None and dtype.kind == 'f' and 'text' in IO_HOOKS and np.array(x).dtype.kind in 'US':
        return IO_HOOKS['text'](np.array(x, dtype, *a, copy=copy, **k))
    return np.array(x, dtype, *a, copy=copy, **k)


def np_asarray(x, dtype=None, *a, **k):
    k.pop('copy', None)
    if isinstance(x, SymArray) and (dtype is None or norm_dtype(dtype) == x._sd):
        return x
    if isinstance(x, np.ndarray) and not has_sym(x):
        return np.asarray(x, None if dtype is None else norm_dtype(dtype))
    return np_array(x, dtype, copy=False) if has_sym(x) else np.asarray(x, None if dtype is None else norm_dtype(dtype))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if num < 0:
        raise ValueError('Number of samples must be non-negative.')
    a, b = tosym(start), tosym(stop)
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        raise Unsupported('linspace of arrays')
    a, b = rr(a), rr(b)
    div = (num - 1) if endpoint else num
    step = (b - a) / div if div > 0 else R.nanv()
    vals = [a + step * i if i else a for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = b
    if dtype is not None and norm_dtype(dtype).kind in 'iu':
        r = np.array([int(v.floor()) for v in vals], dtype=norm_dtype(dtype))
    else:
        r = SymArray.from_list(vals, (num,))
    return (r, step) if retstep else r


def np_arange(*args, dtype=None, **k):
    if not has_sym(args) and all(isinstance(a, (int, np.integer)) for a in args):
        return np.arange(*args, dtype=None if dtype is None else norm_dtype(dtype), **k)
    if all(isinstance(a, (int, np.integer)) or (isinstance(a, R) and core._is_int(a)) for a in args):
        return np.arange(*[int(a) for a in args], dtype=None if dtype is None else norm_dtype(dtype))
    start, stop, step = R.c(0), None, R.c(1)
    if len(args) == 1:
        stop = rr(args[0])
    else:
        start, stop = rr(args[0]), rr(args[1])
        if len(args) > 2:
            step = rr(args[2])
    n = int(((stop - start) / step).ceil())
    n = max(n, 0)
    return SymArray.from_list([start + step * i for i in range(n)], (n,))


class Vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f = pyfunc
        functools.update_wrapper(self, pyfunc)

    def __call__(self, *args):
        r = mapel(self.f, *args)
        if not isinstance(r, np.ndarray):
            return SymArray.wrap0(r)
        return r


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(tuple(k.values())):
            return do_ufunc(self._u, '__call__', *a, **k)
        return self._u(*a, **k)

    def reduce(self, a, axis=0, **k):
        if has_sym(a):
            return do_ufunc(self._u, 'reduce', a, axis=axis, **k)
        return self._u.reduce(a, axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        if has_sym(a):
            return do_ufunc(self._u, 'accumulate', a, axis=axis, **k)
        return self._u.accumulate(a, axis=axis, **k)

    def outer(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return do_ufunc(self._u, 'outer', a, b)
        return self._u.outer(a, b, **k)

    def at(self, a, idx, b=None):
        if has_sym(a) or has_sym(b):
            if self._u is np.add:
                bs = tosym(b)
                ii = np.asarray(idx).ravel().tolist()
                bl = bs.elems() if isinstance(bs, SymArray) else [bs] * len(ii)
                for i, v in zip(ii, bl):
                    a[i] = a[i] + v
                return
            raise Unsupported('ufunc.at')
        return self._u.at(a, idx, b) if b is not None else self._u.at(a, idx)

    def __getattr__(self, n):
        return getattr(self._u, n)


class SubModule:
    def __init__(self, real, table, extra=None):
        self._real = real
        self._table = table
        self._extra = extra or {}

    def __getattr__(self, name):
        if name in self._extra:
            return self._extra[name]
        v = getattr(self._real, name)
        t = self._table.get(name)
        if t is not None:
            @functools.wraps(v)
            def f(*a, **k):
                if has_sym(a) or has_sym(tuple(k.values())):
                    return t(*a, **k)
                return v(*a, **k)
            return f
        if callable(v) and not isinstance(v, type):
            @functools.wraps(v)
            def g(*a, **k):
                if has_sym(a) or has_sym(tuple(k.values())):
                    raise Unsupported(f'{self._real.__name__}.{name}')
                return v(*a, **k)
            return g
        return v


_poly = SubModule(np.polynomial.polynomial, {'polyfit': polyfit_lo, 'polyval': polyval_lo})
_polymod = SubModule(np.polynomial, {}, {'polynomial': _poly})
_fftmod = SubModule(np.fft, {'fft2': f_fft2, 'fft': f_fft, 'rfft': f_rfft, 'ifft2': f_ifft2, 'ifft': f_ifft, 'fftn': f_fft2,
                             'fftshift': lambda *a, **k: do_function(np.fft.fftshift, a, k),
                             'ifftshift': lambda *a, **k: do_function(np.fft.ifftshift, a, k)},
                    {'fftfreq': f_fftfreq, 'rfftfreq': f_rfftfreq})
_linmod = SubModule(np.linalg, LINALG)

NP_EXTRA = {
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_zeros, 'full': np_full,
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'asfarray': np_asarray, 'asfortranarray': np_asarray,
    'linspace': np_linspace, 'arange': np_arange, 'vectorize': Vectorize, 'fft': _fftmod, 'linalg': _linmod,
    'polynomial': _polymod,
}


class _Float64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.float64, R))

    def __call__(cls, x=0.0):
        if isinstance(x, SymBool):
            return x.as_r()
        if isinstance(x, R):
            return x
        if has_sym(x):
            x = np_asarray(x)
            return x.ravel().view(np.ndarray)[0] if x.ndim == 0 else x
        return np.float64(x)

    def __eq__(cls, o):
        return o is np.float64 or o is cls

    def __hash__(cls):
        return hash(np.float64)


class Float64Shim(metaclass=_Float64Meta):
    """numpy.float64 for the analysed code: a conversion which keeps symbolic values"""
    dtype = F64


Float64Shim.__name__ = Float64Shim.__qualname__ = 'float64'


class NumpyFront(types.ModuleType):
    """What the analysed code gets for `import numpy`."""

    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}
        self.__dict__['_over'] = dict(NP_EXTRA)

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in self._over:
            w = self._over[name]
            if isinstance(w, types.FunctionType):
                w = _natfn(w)
            c[name] = w
            return w
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            w = UfuncProxy(v)
        elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            w = Float64Shim if v is np.float64 else v
        else:
            w = _wrapfn(name, v)
        c[name] = w
        return w


def _natfn(fn):
    @functools.wraps(fn)
    def f(*a, **k):
        return nat(fn(*a, **k))
    return f


def _wrapfn(name, v):
    @functools.wraps(v)
    def f(*a, **k):
        if has_sym(a) or has_sym(tuple(k.values())):
            return do_function(v, a, k)
        if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and np.asarray(a[0]).dtype.kind in 'f':
            return like_fn(name, *a, **k)
        if name in ('ones_like', 'zeros_like') and 'dtype' in k and norm_dtype(k['dtype']).kind == 'f':
            return like_fn(name, *a, **k)
        if 'dtype' in k and k['dtype'] is not None:
            k['dtype'] = norm_dtype(k['dtype'])
        return nat(v(*a, **k))
    return f


core._arr_ufunc = do_ufunc
core._arr_function = do_function
