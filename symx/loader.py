"""Loads /repo's current Python source into a private module graph in which numpy, scipy, math, struct, ... are the
symbolic fronts.  The source text is read from the working tree on every run and compiled unchanged."""
import builtins
import importlib
import math
import os
import sys
import types
import numpy as np
from . import core, arr, scipyfront
from .core import R, SymBool, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'surfalize'


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or issubclass(c, R)

    def __call__(cls, x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, SymBool):
            return x.as_r()
        if isinstance(x, np.ndarray) and x.dtype != object and not isinstance(x, arr.SymArray):
            return float(x)
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return cls(x.ravel().view(np.ndarray)[0])
        h = FLOAT_HOOK[0]
        if h is not None and isinstance(x, (str, bytes)) or hasattr(x, '__symx_float__'):
            return h(x)
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            return float(x)
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


FLOAT_HOOK = [None]
CURRENT = [None]


class FloatShim(metaclass=_FloatMeta):
    dtype = np.dtype('float64')
    __name__ = 'float'
    fromhex = float.fromhex


FloatShim.__name__ = 'float'
FloatShim.__qualname__ = 'float'


class MathFront(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v
        spec = {'sqrt': 'sqrt', 'hypot': None, 'atan': 'arctan', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp',
                'log': 'log', 'log10': 'log10', 'log2': 'log2', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'fabs': '__abs__',
                'atan2': 'arctan2', 'asin': 'arcsin', 'acos': 'arccos', 'pow': '__pow__'}

        def f(*a, **k):
            a = tuple(x.item() if isinstance(x, arr.SymArray) and x.size == 1 else x for x in a)
            if not any(isinstance(x, (R, SymBool)) for x in a) and not (a and isinstance(a[0], (list, tuple)) and arr.has_sym(a[0])):
                return v(*a, **k)
            if name == 'hypot':
                s = R.c(0)
                for x in a:
                    s = s + R.of(x) * R.of(x)
                return s.sqrt()
            if name in ('floor', 'ceil', 'trunc'):
                return {'floor': a[0].__floor__, 'ceil': a[0].__ceil__, 'trunc': a[0].__int__}[name]()
            if name == 'isnan':
                return bool(a[0].is_nan()) if not isinstance(a[0].is_nan(), bool) else a[0].is_nan()
            if name == 'isfinite':
                return not (isinstance(a[0], core.Inf) or bool(a[0].is_nan()))
            if name == 'isinf':
                return isinstance(a[0], core.Inf)
            if name == 'isclose':
                x, y = R.of(a[0]), R.of(a[1])
                rt, at = R.of(k.get('rel_tol', 1e-9)), R.of(k.get('abs_tol', 0.0))
                d = abs(x - y)
                return bool(arr._or(d <= rt * core.rmax([abs(x), abs(y)]), d <= at))
            if name == 'copysign':
                return arr._copysign(*a)
            if name in ('fsum', 'prod'):
                return (arr.rsum if name == 'fsum' else lambda xs: arr.FN['prod'](list(xs)))(list(a[0]))
            if name == 'fmod':
                x, y = R.of(a[0]), R.of(a[1])
                return x - y * (x / y).trunc()
            if name == 'modf':
                t = a[0].trunc()
                return a[0] - t, t
            if spec.get(name):
                r = getattr(R.of(a[0]), spec[name])(*a[1:])
                if name in ('sqrt', 'log', 'log10') and not (r.nan is False):
                    if r.nan is True or bool(r.is_nan()):
                        raise ValueError('math domain error')
                    r = R(r.n, r.d, False, r.nn)
                return r
            raise Unsupported(f'math.{name}')
        return f


class ImportlibFront(types.ModuleType):
    def __init__(self, loader):
        super().__init__('importlib')
        self._l = loader

    def import_module(self, name, package=None):
        if name.startswith('.'):
            name = importlib.util.resolve_name(name, package)
        if name == PKG or name.startswith(PKG + '.'):
            return self._l.load(name)
        return self._l.ext(name) or importlib.import_module(name)

    def __getattr__(self, n):
        return getattr(importlib, n)


class Loader:
    def __init__(self, repo=None, fronts=None):
        self.repo = repo or REPO
        self.modules = {}
        self.np = arr.NumpyFront()
        self.scipy = scipyfront.build()
        self.fronts = {'numpy': self.np, 'scipy': self.scipy, 'math': MathFront(), 'importlib': ImportlibFront(self)}
        self.fronts.update(fronts or {})
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['float'] = FloatShim
        self.code_files = set()

    def ext(self, name):
        """front for an external module name or None"""
        if name in self.fronts:
            return self.fronts[name]
        parts = name.split('.')
        if parts[0] in self.fronts:
            m = self.fronts[parts[0]]
            for p in parts[1:]:
                m = getattr(m, p)
            return m
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            name = importlib.util.resolve_name('.' * level + name, pkg)
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if not fromlist:
                return self.load(PKG)
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    if self._find(name + '.' + f):
                        self.load(name + '.' + f)
            return m
        parts = name.split('.')
        if parts[0] in self.fronts:
            m = self.ext(name)
            return m if fromlist else self.fronts[parts[0]]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        f = self._find(name)
        if not f:
            raise ModuleNotFoundError(f'No module named {name!r}')
        path, ispkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        code = compile(src, path, 'exec', dont_inherit=True)
        self.code_files.add(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if '.' in name:
            setattr(parent, name.rpartition('.')[2], m)
        return m
