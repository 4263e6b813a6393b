"""Harness environments.

A harness is a function `h(env, **params)`.  It is executed
  * symbolically  (SymEnv):  inputs are solver variables, `env.pkg(...)` is /repo's source executed on the symbolic fronts,
    every `check/eq/le` becomes a solver query over the whole path;
  * concretely    (ConcEnv): inputs are numbers from a solver model, `env.pkg(...)` is the real package, checks are evaluated
    with a float tolerance.  This is the replay that must reproduce a counterexample before it is reported, and the
    per-path validation of the encoding.
"""
import hashlib
import importlib
import math
import random
import sys
import warnings
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import (R, SymBool, Engine, Unsupported, PathAbort, Budget, mkbool, bz, Inf)
from .arr import SymArray, C, tosym


class Skip(BaseException):
    """concrete run left the assumptions"""


class CheckFailed(BaseException):
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail


class Stop(BaseException):
    """end of the path on purpose"""


def generic_value(name, lo, hi, seed=0):
    rnd = random.Random(int(hashlib.md5(f'{name}/{seed}'.encode()).hexdigest()[:12], 16))
    lo = -8 if lo is None else lo
    hi = 8 if hi is None else hi
    lo, hi = Fraction(lo), Fraction(hi)
    if hi - lo > 32:
        hi = lo + 32 if lo >= 0 or hi > 32 else hi
    # interior dyadic-ish point
    k = rnd.randint(1, 1023)
    return lo + (hi - lo) * Fraction(k, 1024)


# ------------------------------------------------------------------------------------------------- numeric evaluation
class NoValue(Exception):
    pass


class NumEval:
    """float evaluation of symbolic values under concrete inputs (validation of the encoding)"""

    def __init__(self, E, inputs):
        self.E, self.inputs, self.memo = E, inputs, {}

    def atom(self, i):
        if i in self.memo:
            v = self.memo[i]
            if v is None:
                raise NoValue()
            return v
        a = self.E.atoms[i]
        self.memo[i] = None
        if a.id in self.inputs:
            v = float(self.inputs[a.id])
        elif a.info is None:
            raise NoValue()
        else:
            k = a.info[0]
            if k == 'sqrt':
                v = math.sqrt(max(self.poly(a.info[1]), 0.0))
            elif k == 'max':
                v = max(self.R(x) for x in a.info[1])
            elif k == 'ite':
                v = self.R(a.info[2]) if self.boolv(a.info[1].c) else self.R(a.info[3])
            elif k == 'abs':
                v = abs(self.poly(a.info[1]))
            elif k == 'uf':
                fn = {'arctan': math.atan, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log,
                      'arctan2': math.atan2, 'log10': math.log10, 'tan': math.tan, 'log2': math.log2}.get(a.info[1])
                if fn is None:
                    raise NoValue()
                try:
                    v = fn(*[self.R(x) for x in a.info[2]])
                except (ValueError, OverflowError):
                    raise NoValue()
            elif k == 'pi':
                v = math.pi
            elif k == 'rnd':
                v = self.R(a.info[2])
            elif k == 'floor':
                v = float(math.floor(self.R(a.info[1]) if isinstance(a.info[1], R) else self.poly(a.info[1])))
            else:
                raise NoValue()
        self.memo[i] = v
        return v

    def poly(self, p):
        s = 0.0
        for m, c in p.t.items():
            t = float(c)
            for a, e in m:
                t *= self.atom(a) ** e
            s += t
        return s

    def R(self, r):
        if isinstance(r, Inf):
            return math.inf * r.s
        if r.nan is not False:
            if r.nan is True or self.boolv(r.nan):
                return math.nan
        v = self.poly(r.n)
        for q, e in r.d.values():
            d = self.poly(q)
            if d == 0:
                raise NoValue()
            v /= d ** e
        return v

    def boolv(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TRUE: return True
        if k == z3.Z3_OP_FALSE: return False
        if k == z3.Z3_OP_AND: return all(self.boolv(c) for c in ch)
        if k == z3.Z3_OP_OR: return any(self.boolv(c) for c in ch)
        if k == z3.Z3_OP_NOT: return not self.boolv(ch[0])
        if k == z3.Z3_OP_XOR: return self.boolv(ch[0]) != self.boolv(ch[1])
        if k == z3.Z3_OP_IMPLIES: return (not self.boolv(ch[0])) or self.boolv(ch[1])
        if k == z3.Z3_OP_ITE: return self.boolv(ch[1]) if self.boolv(ch[0]) else self.boolv(ch[2])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = self.boolv(ch[0]) == self.boolv(ch[1])
            else:
                a, b = self.num(ch[0]), self.num(ch[1])
                r = abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
            return r if k == z3.Z3_OP_EQ else not r
        a, b = self.num(ch[0]), self.num(ch[1])
        if k == z3.Z3_OP_LE: return a <= b
        if k == z3.Z3_OP_LT: return a < b
        if k == z3.Z3_OP_GE: return a >= b
        if k == z3.Z3_OP_GT: return a > b
        raise NoValue()

    def num(self, e):
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_int_value(e):
            return float(e.as_long())
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            nm = e.decl().name()
            return self.atom(int(nm[nm.rfind('!') + 1:]))
        if k == z3.Z3_OP_ADD: return sum(self.num(c) for c in ch)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for c in ch:
                r *= self.num(c)
            return r
        if k == z3.Z3_OP_SUB: return self.num(ch[0]) - sum(self.num(c) for c in ch[1:])
        if k == z3.Z3_OP_UMINUS: return -self.num(ch[0])
        if k == z3.Z3_OP_DIV: return self.num(ch[0]) / self.num(ch[1])
        if k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT): return self.num(ch[0])
        if k == z3.Z3_OP_ITE: return self.num(ch[1]) if self.boolv(ch[0]) else self.num(ch[2])
        raise NoValue()


# ------------------------------------------------------------------------------------------------- base
def absent(x):
    return x is None or isinstance(x, str)


class BaseEnv:
    symbolic = False

    def path(self, name):
        """a fresh file path in a scratch directory that is removed afterwards"""
        import os
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix='p', dir=os.environ.get('SYMX_SCRATCH'))
        self.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return os.path.join(d, name)

    def nonneg(self, label, a, **k):
        self.le(label, 0, a, **k)

    def eqs(self, label, xs, ys, **k):
        xs, ys = self.flat(xs), self.flat(ys)
        if not self.concrete(f'{label}: number of values', len(xs) == len(ys), f'{len(xs)} vs {len(ys)}'):
            return
        for i, (a, b) in enumerate(zip(xs, ys)):
            self.eq(f'{label}[{i}]', a, b, **k)

    def flat(self, x):
        if isinstance(x, np.ndarray):
            return x.ravel().tolist() if not isinstance(x, SymArray) else x.elems()
        if isinstance(x, (list, tuple)):
            out = []
            for y in x:
                out.extend(self.flat(y))
            return out
        return [x]

    def rows(self, x):
        """2D array -> list of lists of scalars"""
        if isinstance(x, SymArray):
            b = x.base_arr()
            return [[b[i, j] for j in range(b.shape[1])] for i in range(b.shape[0])]
        return [[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]

    def surface(self, data, sx, sy, cls=None):
        return self.pkg('surfalize').Surface(self.array(data) if isinstance(data, list) else data, sx, sy)

    def profile(self, data, step, axis=None):
        P = self.pkg('surfalize.profile').Profile
        data = self.array(data) if isinstance(data, list) else data
        return P(data, step, self.length_of(step, len(data))) if axis is None else P(data, step, self.length_of(step, len(data)), axis=axis)

    def length_of(self, step, n):
        return step * n

    pattern = None

    def _heights(self, name, cells, lo, hi):
        """self.pattern: heights are that function of (row, column), of which only scale and offset are variables"""
        if self.pattern is None:
            return lambda i, j: self.real(f'{name}{i}_{j}' if cells else f'{name}{j}', lo, hi)
        p = lambda i, j: self.pattern(i + ord(name[0]) % 7, j)
        if lo is None or hi is None:
            s, o = self.real(f'{name}_scale', Fraction(1, 2), 50), self.real(f'{name}_offset', -20, 20)
            return lambda i, j: s * p(i, j) + o
        # the pattern lies between 0 and 100
        s, o = self.real(f'{name}_scale', Fraction(1, 2), 1), self.real(f'{name}_offset', 0, Fraction(1, 2))
        w = Fraction(hi) - Fraction(lo)
        c = (lambda x: x) if self.symbolic else float
        return lambda i, j: c(lo) + c(w) * ((s * p(i, j)) * c(Fraction(1, 100)) + o * c(Fraction(100 - p(i, j), 100)))

    def grid(self, name, ny, nx, nan=None, lo=None, hi=None):
        """list of rows of symbolic heights; nan: iterable of (i,j) that are non-measured"""
        nan = set(nan or ())
        h = self._heights(name, True, lo, hi)
        return [[self.nan() if (i, j) in nan else h(i, j) for j in range(nx)] for i in range(ny)]

    def vec(self, name, n, nan=None, lo=None, hi=None):
        nan = set(nan or ())
        h = self._heights(name, False, lo, hi)
        return [self.nan() if i in nan else h(0, i) for i in range(n)]

    def steps(self, swap=False):
        a, b = self.real('sx', Fraction(1, 8), Fraction(3, 4)), self.real('sy', 1, 8)
        return (b, a) if swap else (a, b)

    def sum(self, xs):
        xs = list(xs)
        s = xs[0] if xs else 0
        for x in xs[1:]:
            s = s + x
        return s

    def mean(self, xs):
        xs = list(xs)
        return self.sum(xs) / len(xs)


# ------------------------------------------------------------------------------------------------- symbolic
_LOADERS = {}


def flat_rows(rows):
    return [x for r in rows for x in r] if isinstance(rows[0], list) else list(rows)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, engine, job, pkg_loader):
        self.E = engine
        self.job = job
        self.L = pkg_loader
        self.inputs = {}       # name -> (atom, lo, hi)
        self.order = []
        self.log = []          # (label, value) for validation
        self.nchecks = 0
        self.np = pkg_loader.np
        self.cleanup = []

    # inputs
    def real(self, name, lo=None, hi=None, strict_lo=False):
        if name in self.inputs:
            raise AssertionError('duplicate input ' + name)
        nn = lo is not None and lo >= 0
        a = self.E.new_atom(name, nn=nn)
        defs = []
        if lo is not None:
            defs.append(a.z > z3.RealVal(Fraction(lo)) if strict_lo else a.z >= z3.RealVal(Fraction(lo)))
        if hi is not None:
            defs.append(a.z <= z3.RealVal(Fraction(hi)))
        self.inputs[name] = (a, lo, hi, 'real')
        self.order.append(name)
        if defs:
            self.E.set_defs(a, defs)
        return R.atom(a)

    def pos(self, name, lo=Fraction(1, 8), hi=8):
        return self.real(name, lo, hi)

    def int_(self, name, lo, hi):
        a = self.E.new_atom(name, nn=lo >= 0, sort='int')
        self.E.set_defs(a, [a.iz >= lo, a.iz <= hi])
        self.inputs[name] = (a, lo, hi, 'int')
        self.order.append(name)
        return R.atom(a)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[core.concretize_int(self.int_(name, 0, len(options) - 1))]

    def concint(self, name, lo, hi):
        """integer input, one path per value"""
        return core.concretize_int(self.int_(name, lo, hi))

    def flag(self, name):
        return self.choice(name, [False, True])

    def nan(self):
        return R.nanv()

    def maybe_nan(self, name, value):
        """value, or NaN when the (symbolic) flag is set"""
        f = self.int_(name, 0, 1)
        v = R.of(value)
        return R(v.n, v.d, z3.simplify(f.z() == 1), v.nn)

    def num(self, v):
        return v if v is None else R.of(v)

    def array(self, rows):
        if rows and isinstance(rows[0], list):
            fl = [R.of(x) for r in rows for x in r]
            return SymArray.from_list(fl, (len(rows), len(rows[0])))
        return SymArray.from_list([R.of(x) for x in rows], (len(rows),))

    def iarray(self, rows):
        """array of integer type"""
        fl = flat_rows(rows)
        return SymArray.from_list([R.of(x) for x in fl], (len(rows), len(rows[0])) if isinstance(rows[0], list) else (len(rows),), np.dtype('int64'))

    def mask(self, rows):
        """boolean array from nested list of bool-likes"""
        if rows and isinstance(rows[0], list):
            return SymArray.from_list([x for r in rows for x in r], (len(rows), len(rows[0])), np.dtype(bool))
        return SymArray.from_list(list(rows), (len(rows),), np.dtype(bool))

    def pkg(self, name):
        return self.L.load(name)

    # logic
    def isnan(self, x):
        return R.of(x).is_nan()

    def sqrt(self, x): return R.of(x).sqrt()
    def abs(self, x): return abs(R.of(x))
    def max(self, xs): return core.rmax([R.of(x) for x in xs])
    def min(self, xs): return core.rmin([R.of(x) for x in xs])
    def ite(self, c, a, b): return core.ite(c, R.of(a), R.of(b))
    def pi(self): return core.PI()

    def and_(self, *cs):
        return mkbool(z3.And(*[bz(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return mkbool(z3.Or(*[bz(c) for c in cs])) if cs else False

    def not_(self, c):
        return mkbool(z3.Not(bz(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def truth(self, c):
        """force a Python bool (forks)"""
        return bool(c)

    def assume(self, c):
        self.E.assume(c)

    def assume_distinct(self, xs):
        xs = [R.of(x) for x in xs]
        for i in range(len(xs)):
            for j in range(i):
                self.assume(self.not_(xs[i] == xs[j]))

    def concval(self, x):
        """python number of a constant"""
        x = R.of(x)
        if not x.is_const():
            raise Unsupported('concval of symbolic')
        return x.cval()

    # checks
    def concrete(self, label, ok, detail=''):
        self.check(label, bool(ok), detail)
        return ok

    def check(self, label, cond, detail=''):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(cond) if not isinstance(cond, SymArray) else cond.elems()[0]
        if not isinstance(cond, SymBool):
            ok = bool(cond)
            self.E.stats['check_queries'] += 1
            if ok:
                self.E.stats['trivially'] += 1
                return
            self.job.violation(self, label, None, detail)
            return
        self._query(label, cond.c, None)

    def eq(self, label, a, b, tol=None, scale=None):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, C) or isinstance(b, C):
            a, b = C.of(a), C.of(b)
            self.eq(label + '.re', a.re, b.re)
            self.eq(label + '.im', a.im, b.im)
            return
        self.log.append((label, a))
        if isinstance(a, Inf) or isinstance(b, Inf):
            self.check(label, isinstance(a, Inf) and isinstance(b, Inf) and a.s == b.s)
            return
        self.E.stats['check_queries'] += 1
        na, nb = bz(a.nan), bz(b.nan)
        d = R(a.n, a.d) - R(b.n, b.d)
        if not d.n.t and z3.is_true(z3.simplify(na == nb)):
            self.E.stats['trivially'] += 1
            return
        bothnan = z3.And(na, nb)
        nonenan = z3.And(z3.Not(na), z3.Not(nb))
        goal = z3.Or(bothnan, z3.And(nonenan, bz(d.n.z() == 0) if d.n.t else z3.BoolVal(True)))
        if a.nan is True or b.nan is True:
            goal = na == nb
        strong = None
        if d.n.t:
            dz = d.z()
            strong = z3.Or(na != nb, dz >= z3.RealVal('1/100'), dz <= z3.RealVal('-1/100'))
        self._query(label, z3.simplify(goal), strong, counted=True)

    def le(self, label, a, b, tol=None):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        a, b = self._norm(a), self._norm(b)
        self.log.append((label, a))
        if isinstance(a, Inf) or isinstance(b, Inf):
            self.check(label, a <= b)
            return
        c = a <= b
        self.E.stats['check_queries'] += 1
        if not isinstance(c, SymBool):
            if c:
                self.E.stats['trivially'] += 1
            else:
                self.job.violation(self, label, None, f'{a} > {b}')
            return
        strong = None
        d = R(a.n, a.d) - R(b.n, b.d)
        s = d >= R.c(Fraction(1, 100))
        strong = z3.Or(bz(a.nan), bz(b.nan), bz(s))
        self._query(label, c.c, strong, counted=True)

    def lt(self, label, a, b):
        """strict; concretely evaluated as <= with tolerance"""
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        c = self._norm(a) < self._norm(b)
        if isinstance(c, SymBool):
            self._query(label, c.c, None)
        else:
            self.check(label, c)

    def _norm(self, x):
        if isinstance(x, SymArray):
            if x.size != 1:
                raise AssertionError('scalar expected')
            x = x.elems()[0]
        if isinstance(x, C):
            return x
        if x is None or isinstance(x, str):
            raise AssertionError(f'number expected, got {x!r}')
        return R.of(x)

    def observe(self, label, x):
        self.log.append((label, self._norm(x)))

    def _query(self, label, goal, strong, counted=False):
        E = self.E
        if not counted:
            E.stats['check_queries'] += 1
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            E.stats['trivially'] += 1
            return
        r, _ = self.job.solve(self, z3.Not(goal))
        if r == z3.unsat:
            E.stats['discharged'] += 1
            return
        if r == z3.sat:
            self.job.violation(self, label, z3.Not(goal), '', strong)
            return
        E.stats['unknown'] += 1
        self.job.unknown(self, label, z3.Not(goal), strong)

    def raises(self, label, f, exc=Exception):
        """f() must raise exc"""
        self.nchecks += 1
        self.E.stats['check_queries'] += 1
        try:
            f()
        except exc:
            self.E.stats['trivially'] += 1
            return True
        except Unsupported as e:
            # went on past the point where it should have refused the input; only counts if the replay confirms it
            self.job.violation(self, label, None, f'no exception before: {e}')
            return False
        self.job.violation(self, label, None, 'no exception')
        return False

    def attempt(self, f):
        """(ok, value-or-exception)"""
        try:
            return True, f()
        except Exception as e:
            return False, e

    # bytes and text
    def pack(self, fmt, *vals):
        from . import sio
        return sio.fronts()['struct'].pack(fmt, *vals)

    def bytes_of(self, vals, dtype):
        from . import sio
        d = np.dtype(dtype)
        return sio.tobytes(SymArray.from_list([R.of(v) for v in vals], (len(vals),), d))

    def text(self, x, spec=''):
        return format(x, spec)

    def close(self, label, a, b, eps, scale=None):
        """|a - b| <= eps * scale (by default |b| + 1e-9)"""
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        na, nb = self.isnan(a), self.isnan(b)
        if na is True or nb is True:
            self.check(label, na is True and nb is True, f'{a} vs {b}')
            return
        d = R.of(a) - R.of(b)
        if not isinstance(d, Inf) and d.nan is False and (d.is_const() and d.cval() == 0 or scale is None and proportional(d, R.of(b), Fraction(eps))):
            self.nchecks += 1
            self.E.stats['check_queries'] += 1
            self.E.stats['trivially'] += 1
            return
        if scale is None:
            scale = abs(R.of(b)) + R.c(Fraction(1, 10 ** 9))
        self.le(label, abs(d), R.of(scale) * R.c(Fraction(eps)))


def proportional(d, b, eps):
    """d is c b for a number |c| <= eps, by the normal forms alone"""
    if isinstance(b, Inf) or b.nan is not False or not b.n.t:
        return False
    p, q = d.n, b.n
    if {k: e for k, (_, e) in d.d.items()} != {k: e for k, (_, e) in b.d.items()}:
        p, q = p * b.den_poly(), q * d.den_poly()
    if p.t.keys() != q.t.keys():
        return False
    m = next(iter(q.t))
    c = p.t[m] / q.t[m]
    return abs(c) <= eps and all(p.t[k] == c * v for k, v in q.t.items())


# ------------------------------------------------------------------------------------------------- concrete
class ConcEnv(BaseEnv):
    symbolic = False
    TOL = 1e-6

    def __init__(self, inputs, seed=0):
        self.inputs = inputs
        self.used = {}
        self.log = []
        self.nchecks = 0
        self.seed = seed
        self.np = np
        self.known_labels = ()
        self.known_failed = []
        self.cleanup = []

    def _in(self, name, lo, hi):
        v = self.inputs.get(name)
        if v is None:
            v = generic_value(name, lo, hi, self.seed)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, strict_lo=False):
        return float(self._in(name, lo, hi))

    def pos(self, name, lo=Fraction(1, 8), hi=8):
        return self.real(name, lo, hi)

    def int_(self, name, lo, hi):
        return int(self._in(name, lo, hi))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int_(name, 0, len(options) - 1)]

    def concint(self, name, lo, hi):
        return self.int_(name, lo, hi)

    def flag(self, name):
        return self.choice(name, [False, True])

    def nan(self):
        return float('nan')

    def maybe_nan(self, name, value):
        return float('nan') if self.int_(name, 0, 1) else value

    def num(self, v):
        return v if v is None else float(v)

    def array(self, rows):
        return np.array([[float(x) for x in r] for r in rows] if rows and isinstance(rows[0], list) else [float(x) for x in rows])

    def iarray(self, rows):
        return np.array(rows, dtype='int64')

    def mask(self, rows):
        return np.array(rows, dtype=bool)

    def pkg(self, name):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return importlib.import_module(name)

    def isnan(self, x):
        return bool(np.isnan(x))

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else math.nan
    def abs(self, x): return abs(x)
    def max(self, xs): return float(np.max(list(xs)))
    def min(self, xs): return float(np.min(list(xs)))
    def ite(self, c, a, b): return a if c else b
    def pi(self): return math.pi
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not bool(c)
    def implies(self, a, b): return (not a) or bool(b)
    def truth(self, c): return bool(c)

    def assume(self, c):
        if not c:
            raise Skip()

    def assume_distinct(self, xs):
        pass

    def concval(self, x):
        return x

    def fail(self, label, detail):
        if any(label.startswith(k) for k in self.known_labels):
            self.known_failed.append((label, detail))
            return
        raise CheckFailed(label, detail)

    def concrete(self, label, ok, detail=''):
        self.check(label, ok, detail)
        return ok

    def check(self, label, cond, detail=''):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.fail(label, detail or 'condition is false')

    def _norm(self, x):
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)[0] if x.size == 1 else x
        if isinstance(x, (complex, np.complexfloating)):
            return complex(x)
        return float(x)

    def eq(self, label, a, b, tol=None, scale=None):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, complex) or isinstance(b, complex):
            if not abs(a - b) <= self.TOL * max(1, abs(a), abs(b)):
                self.fail(label, f'{a!r} != {b!r}')
            return
        self.log.append((label, a))
        if math.isnan(a) and math.isnan(b):
            return
        if a == b:
            return
        t = self.TOL if tol is None else tol
        if not abs(a - b) <= t * max(1.0, abs(a), abs(b), 0 if scale is None else abs(float(scale))):
            self.fail(label, f'{a!r} != expected {b!r}')

    def le(self, label, a, b, tol=None):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        a, b = self._norm(a), self._norm(b)
        self.log.append((label, a))
        t = self.TOL if tol is None else tol
        if not a <= b + t * max(1.0, min(abs(a), abs(b))):
            self.fail(label, f'{a!r} > {b!r}')

    def lt(self, label, a, b):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.le(label, a, b)

    def observe(self, label, x):
        self.log.append((label, self._norm(x)))

    def raises(self, label, f, exc=Exception):
        self.nchecks += 1
        try:
            f()
        except exc:
            return True
        self.fail(label, 'no exception')
        return False

    def attempt(self, f):
        try:
            return True, f()
        except Exception as e:
            return False, e

    def pack(self, fmt, *vals):
        import struct
        return struct.pack(fmt, *vals)

    def bytes_of(self, vals, dtype):
        d = np.dtype(dtype)
        return np.array([float(v) for v in vals] if d.kind == 'f' else [int(v) for v in vals]).astype(d).tobytes()

    def text(self, x, spec=''):
        return format(x, spec)

    def close(self, label, a, b, eps, scale=None):
        if absent(a) or absent(b):
            self.check(label, absent(a) == absent(b) and a == b, f'number expected, got {a!r} and {b!r}')
            return
        self.nchecks += 1
        a, b = float(a), float(b)
        if scale is None:
            scale = abs(b) + 1e-9
        if math.isnan(a) or math.isnan(b):
            if not (math.isnan(a) and math.isnan(b)):
                self.fail(label, f'{a!r} vs expected {b!r}')
            return
        if not abs(a - b) <= float(eps) * abs(float(scale)) * (1 + 1e-9) + 1e-13 * max(abs(a), abs(b)):
            self.fail(label, f'{a!r} != expected {b!r} (allowed {float(eps) * abs(float(scale))})')
