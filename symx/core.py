"""Symbolic values and the path-exploration engine.

A value of the analysed program is an `R`: an exact rational function (num/den over polynomials with
rational coefficients whose indeterminates are *atoms*) together with a NaN flag.  Atoms are either
solver variables (program inputs) or named results of an operation that is not a ring operation
(sqrt, abs, max, ite, floor, uninterpreted function ...), each with its defining constraint.
`SymBool` wraps a z3 Bool; asking for its truth value makes the engine branch.
The engine explores all feasible branch sequences by re-execution.
"""
import sys
import time
from fractions import Fraction
import z3

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(BaseException):
    """The analysed code did something the encoding does not model: the path is inconclusive."""


class PathAbort(BaseException):
    """Path infeasible / abandoned."""


class Budget(BaseException):
    pass


# ----------------------------------------------------------------------------------------------- engine
class Engine:
    """One symbolic execution session of one harness."""
    cur = None

    def __init__(self, max_paths=2000, time_limit=60.0, solver_timeout_ms=4000, check_timeout_ms=20000):
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.solver_timeout = solver_timeout_ms
        self.check_timeout = check_timeout_ms
        self.stats = dict(paths=0, branches=0, branch_queries=0, check_queries=0, discharged=0, trivially=0,
                          unknown=0, solver_s=0.0, unsupported=0, infeasible=0, assumed_feasible=0)
        self.exhausted = True
        self.stop_reason = None
        self.unsupported_msgs = {}

    # --- per-path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.atoms = []          # list of Atom
        self.memo = {}
        self.pc = []             # list of z3 Bool
        self.solver = z3.Solver()
        self.solver.set('timeout', self.solver_timeout)
        self.synced = set()
        self._ac = {}
        self.flags = set()
        self.sign_memo = {}
        self.inputs = {}         # name -> Atom or concrete
        self.input_order = []

    def time_up(self):
        return time.time() > self.deadline

    # --- atoms
    def new_atom(self, name, defs=(), sq=None, nn=False, sort='real', deps=()):
        a = Atom(len(self.atoms), name, sq, nn, sort)
        self.atoms.append(a)
        a.defs = defs
        return a

    def set_defs(self, atom, defs):
        atom.defs = list(defs)

    def atoms_of(self, expr):
        """ids of atoms occurring in a z3 expression (not transitively through definitions)"""
        cache = self._ac
        hit = cache.get(expr.get_id())
        if hit is not None:
            return hit[1]
        out = set()
        seen = set()
        st = [expr]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            h = cache.get(i)
            if h is not None:
                out |= h[1]
                continue
            if e.num_args() == 0:
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = e.decl().name()
                    k = nm.rfind('!')
                    if k >= 0:
                        out.add(int(nm[k + 1:]))
            else:
                st.extend(e.children())
        cache[expr.get_id()] = (expr, out)
        return out

    def closure(self, ids):
        """atoms reachable through definitions"""
        todo = list(ids)
        seen = set(ids)
        while todo:
            a = self.atoms[todo.pop()]
            for d in a.defs:
                for j in self.atoms_of(d):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
        return seen

    def sync_defs(self, expr=None):
        if expr is None:
            return
        todo = [i for i in self.atoms_of(expr) if i not in self.synced]
        while todo:
            i = todo.pop()
            if i in self.synced:
                continue
            self.synced.add(i)
            for d in self.atoms[i].defs:
                self.solver.add(d)
                todo.extend(j for j in self.atoms_of(d) if j not in self.synced)

    def timed_check(self, solver, *assumptions):
        t = time.time()
        try:
            r = solver.check(*assumptions)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats['solver_s'] += time.time() - t
        return r

    def add(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.pc.append(c)
        self.sync_defs(c)
        self.solver.add(c)

    def feasible(self, c):
        self.sync_defs(c)
        self.stats['branch_queries'] += 1
        self.solver.push()
        self.solver.add(c)
        r = self.timed_check(self.solver)
        self.solver.pop()
        return r

    def branch(self, c):
        """c: z3 BoolRef. Returns python bool; forks."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.time_up():
            self.exhausted = False
            self.stop_reason = 'time'
            raise Budget()
        self.stats['branches'] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.add(c if d[0] else z3.Not(c))
            return d[0]
        self.pos += 1
        rt = self.feasible(c)
        if rt == z3.unsat:
            self.decisions.append((False, False))
            self.add(z3.Not(c))
            return False
        rf = self.feasible(z3.Not(c))
        if rf == z3.unsat:
            self.decisions.append((True, False))
            self.add(c)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.stats['assumed_feasible'] += 1
            self.flags.add('assumed-feasible')
        self.decisions.append((True, True))
        self.add(c)
        return True

    def known(self, c, timeout=None):
        """Is c implied by the path condition?"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.feasible(z3.Not(c)) == z3.unsat

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.c
        if isinstance(c, bool) or type(c).__name__ in ('bool_', 'bool'):
            if not c:
                raise PathAbort()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add(c)

    def check_feasible_now(self):
        self.sync_defs()
        self.stats['branch_queries'] += 1
        r = self.timed_check(self.solver)
        if r == z3.unsat:
            raise PathAbort()
        return r



def eng():
    return Engine.cur


class Atom:
    __slots__ = ('id', 'name', 'sq', 'nn', 'z', 'defs', 'sort', 'iz', 'info')

    def __init__(self, id, name, sq, nn, sort):
        self.id = id
        self.name = name
        self.sq = sq          # Poly replaced for atom**2, or None
        self.nn = nn
        self.sort = sort
        self.info = None
        if sort == 'int':
            self.iz = z3.Int(f'{name}!{id}')
            self.z = z3.ToReal(self.iz)
        else:
            self.iz = None
            self.z = z3.Real(f'{name}!{id}')
        self.defs = ()


# ----------------------------------------------------------------------------------------------- polynomials
class Poly:
    """Polynomial with Fraction coefficients. terms: dict monomial -> Fraction; monomial: tuple of (atomid, exp)."""
    __slots__ = ('t', '_key', '_z')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._z = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): F1})

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), F0)

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        if k == 1:
            return self
        if not k:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        if len(self.t) * len(o.t) > 400000:
            raise Unsupported('polynomial too large')
        out = {}
        pend = []
        E = eng()
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = mono_mul(m1, m2, E)
                c = c1 * c2
                if red is None:
                    v = out.get(m)
                    if v is None:
                        out[m] = c
                    else:
                        v += c
                        if v:
                            out[m] = v
                        else:
                            del out[m]
                else:
                    pend.append((m, c, red))
        p = Poly(out)
        for m, c, red in pend:
            q = Poly({m: c})
            for r, e in red:
                for _ in range(e):
                    q = q * r
            p = p + q
        return p

    def lead(self):
        """leading monomial in a fixed order"""
        return max(self.t, key=lambda m: (sum(e for _, e in m), m))

    def monic(self):
        """(c, p) with self = c*p and p canonical (leading coefficient 1)"""
        c = self.t[self.lead()]
        return c, self.scale(1 / c)

    def primitive_sign(self):
        return 1 if self.t[self.lead()] > 0 else -1

    def z(self):
        if self._z is None:
            E = eng()
            terms = []
            for m, c in self.t.items():
                f = []
                for a, e in m:
                    f.extend([E.atoms[a].z] * e)
                if not f:
                    terms.append(z3.RealVal(c))
                    continue
                pr = f[0] if len(f) == 1 else z3.Product(*f)
                terms.append(pr if c == 1 else z3.RealVal(c) * pr)
            if not terms:
                self._z = z3.RealVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(*terms)
        return self._z

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m in sorted(self.t):
            c = self.t[m]
            out.append('*'.join([str(c)] + [f'{eng().atoms[a].name}_{a}' + (f'^{e}' if e > 1 else '') for a, e in m]))
        return '+'.join(out)


def mono_mul(m1, m2, E):
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    red = None
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a in list(d):
        e = d[a]
        if e >= 2:
            sq = E.atoms[a].sq
            if sq is not None:
                if red is None:
                    red = []
                red.append((sq, e // 2))
                if e % 2:
                    d[a] = 1
                else:
                    del d[a]
    return tuple(sorted(d.items())), red


P0 = Poly({})
P1 = Poly({(): F1})


def poly_sqrt(p):
    """Exact square root polynomial of p or None (only simple cases)."""
    if not p.t:
        return P0
    lm = p.lead()
    c = p.t[lm]
    rc = frac_sqrt(c)
    if rc is None or any(e % 2 for _, e in lm):
        return None
    q = Poly({tuple((a, e // 2) for a, e in lm): rc})
    ql = q.lead()
    for _ in range(40):
        r = p + (q * q).neg()
        if not r.t:
            return q
        rl = r.lead()
        d = dict(rl)
        for a, e in ql:
            d[a] = d.get(a, 0) - e
            if d[a] < 0:
                return None
            if d[a] == 0:
                del d[a]
        nt = Poly({tuple(sorted(d.items())): r.t[rl] / (2 * rc)})
        if nt.lead() in q.t:
            return None
        q = q + nt
        if len(q.t) > 12:
            return None
    return None


def isqrt_exact(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def frac_sqrt(f):
    if f < 0:
        return None
    a, b = isqrt_exact(f.numerator), isqrt_exact(f.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


def square_part(n):
    """n = s*s*k with small-prime extraction; returns (s, k)"""
    s, k = 1, n
    p = 2
    while p * p <= k and p < 2000:
        while k % (p * p) == 0:
            k //= p * p
            s *= p
        p += 1
    r = isqrt_exact(k)
    if r is not None:
        return s * r, 1
    return s, k


# ----------------------------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('c',)
    __array_priority__ = 1000

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return eng().branch(self.c)

    def __invert__(self):
        return mkbool(z3.Not(self.c))

    def logical_not(self):
        return mkbool(z3.Not(self.c))

    def __and__(self, o):
        if isinstance(o, R):
            return NotImplemented
        return mkbool(z3.And(self.c, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, R):
            return NotImplemented
        return mkbool(z3.Or(self.c, bz(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.c, bz(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ('bool_', 'bool'):
            return mkbool(self.c == bz(o))
        return self.as_r() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return self.c.hash()

    def as_r(self):
        return ite(self, R.c(1), R.c(0))

    def __add__(self, o): return self.as_r() + o
    def __radd__(self, o): return R.of(o) + self.as_r()
    def __mul__(self, o): return self.as_r() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.as_r() - o
    def __rsub__(self, o): return R.of(o) - self.as_r()
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))

    def __array_ufunc__(self, ufunc, method, *a, **k):
        return _arr_ufunc(ufunc, method, *a, **k)

    def __array_function__(self, func, types, args, kwargs):
        return _arr_function(func, args, kwargs)

    def __repr__(self):
        return f'SymBool({self.c})'

    # numpy bool_ methods
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self


_arr_ufunc = None
_arr_function = None


def mkbool(c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def bz(b):
    """z3 Bool of a bool-like"""
    if isinstance(b, SymBool):
        return b.c
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def bor(*bs):
    out = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        out.append(b)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


# ----------------------------------------------------------------------------------------------- reals
def to_frac(f):
    """Python number -> Fraction. A float denotes the simplest rational within 1 ulp (real-arithmetic model)."""
    if isinstance(f, Fraction):
        return f
    if isinstance(f, int):
        return Fraction(f)
    f = float(f)
    ex = Fraction(f)
    if ex.denominator <= 1 << 20:
        return ex
    for d in (1000, 10 ** 6):
        g = ex.limit_denominator(d)
        if g and abs(ex - g) <= abs(ex) * Fraction(1, 2 ** 52):
            return g
    g = Fraction(repr(f))
    return g


class R:
    """Rational function num/den with NaN flag. nan: False | True | z3 Bool (True also stands for any non-finite)."""
    __slots__ = ('n', 'd', 'nan', 'nn', '_z')
    __array_priority__ = 1000

    def __init__(self, n, d=None, nan=False, nn=False):
        self.n = n
        self.d = d or {}      # key -> (Poly, exp)
        self.nan = nan
        self.nn = nn
        self._z = None

    # --- construction
    @staticmethod
    def c(v):
        v = to_frac(v)
        return R(Poly.const(v), nn=v >= 0)

    @staticmethod
    def nanv():
        return R(P0, nan=True)

    @staticmethod
    def of(v):
        if isinstance(v, R):
            return v
        if isinstance(v, SymBool):
            return v.as_r()
        if isinstance(v, bool):
            return R.c(int(v))
        if isinstance(v, (int, Fraction)):
            return R.c(v)
        if isinstance(v, z3.ArithRef):
            raise Unsupported('raw z3')
        try:
            f = float(v)
        except (TypeError, ValueError):
            raise Unsupported(f'cannot convert {type(v)} to real')
        if f != f:
            return R.nanv()
        if f in (float('inf'), float('-inf')):
            return Inf(1 if f > 0 else -1)
        if hasattr(v, 'dtype') and getattr(v.dtype, 'kind', '') in 'iub':
            return R.c(int(v))
        return R.c(f)

    @staticmethod
    def atom(a):
        return R(Poly.atom(a), nn=a.nn)

    # --- predicates
    def is_const(self):
        return not self.d and self.n.is_const() and self.nan is False

    def cval(self):
        return self.n.cval()

    def is_nan(self):
        """bool | SymBool"""
        return self.nan if isinstance(self.nan, bool) else mkbool(self.nan)

    def concretize_nan(self):
        if not isinstance(self.nan, bool):
            if eng().branch(self.nan):
                return R.nanv()
            return R(self.n, self.d, False, self.nn)
        return self

    # --- z3
    def den_poly(self):
        p = P1
        for q, e in self.d.values():
            for _ in range(e):
                p = p * q
        return p

    def z(self):
        """z3 term of the value (meaningful when not nan)"""
        if self._z is None:
            if not self.d:
                self._z = self.n.z()
            else:
                d = [q.z() for q, e in self.d.values() for _ in range(e)]
                self._z = self.n.z() / (d[0] if len(d) == 1 else z3.Product(*d))
        return self._z

    # --- arithmetic
    def __add__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Inf):
            return o + self
        nan = _nanor(self, o)
        if nan is True:
            return R.nanv()
        nn = self.nn and o.nn
        if not self.d and not o.d:
            return R(self.n + o.n, None, nan, nn)
        return _addfrac(self, o, nan, nn)
    __radd__ = __add__

    def __neg__(self):
        return R(self.n.neg(), self.d, self.nan)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Inf):
            return (-o) + self
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Inf):
            return o * self
        nan = _nanor(self, o)
        if nan is True:
            return R.nanv()
        nn = (self.nn and o.nn) or (self is o) or (self.n.key() == o.n.key() and self.d.keys() == o.d.keys())
        if not self.d and not o.d:
            return R(self.n * o.n, None, nan, nn)
        n1, n2 = self.n, o.n
        d = {}
        for k, (q, e) in self.d.items():
            d[k] = (q, e)
        for k, (q, e) in o.d.items():
            d[k] = (q, d[k][1] + e) if k in d else (q, e)
        n1 = _cancel(n1, d)
        n2 = _cancel(n2, d)
        n = n1 * n2
        n, d = _normden(n, d)
        return R(n, d, nan, nn)
    __rmul__ = __mul__

    def inv(self):
        """1/self with nan flag on zero"""
        E = eng()
        nan = self.nan
        n = self.n
        if not n.t:
            return R.nanv()
        if n.is_const():
            num = self.den_poly().scale(1 / n.cval())
            return R(num, None, nan, self.nn)
        if not _known_nonzero(self):
            nan = bor(nan, n.z() == 0)
        num = self.den_poly()
        if len(n.t) == 1:
            (m, c), = n.t.items()
            d = {}
            for a, e in m:
                p = Poly({((a, 1),): F1})
                d[p.key()] = (p, e)
            num = num.scale(1 / c)
        else:
            c, p = n.monic()
            num = num.scale(1 / c)
            # common monomial factor extraction
            common = None
            for m in p.t:
                dm = dict(m)
                common = dm if common is None else {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common:
                    break
            d = {}
            if common:
                t = {}
                for m, c2 in p.t.items():
                    dm = dict(m)
                    for a, e in common.items():
                        dm[a] -= e
                        if dm[a] == 0:
                            del dm[a]
                    t[tuple(sorted(dm.items()))] = c2
                p = Poly(t)
                for a, e in common.items():
                    q = Poly({((a, 1),): F1})
                    d[q.key()] = (q, e)
            r = poly_sqrt(p)
            if r is not None and len(r.t) > 1:
                c3, r = r.monic()
                num = num.scale(1 / (c3 * c3))
                d[r.key()] = (r, 2)
            else:
                d[p.key()] = (p, 1)
        n2, d = _normden(num, d)
        return R(n2, d, nan, self.nn)

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Inf):
            return R(P0, None, self.nan)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o * self.inv()

    def __pow__(self, e):
        e = _coerce(e)
        if e is NotImplemented:
            return e
        if e.is_const():
            v = e.cval()
            if v.denominator == 1:
                k = int(v)
                if k == 0:
                    return R(P1, None, self.nan, True)
                b = self if k > 0 else self.inv()
                r = b
                for _ in range(abs(k) - 1):
                    r = r * b
                r.nn = r.nn or k % 2 == 0 or self.nn
                return r
            if v == Fraction(1, 2):
                return self.sqrt()
            if v == Fraction(-1, 2):
                return self.sqrt().inv()
        return ufun('pow', self, e)

    def __rpow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o ** self

    def __floordiv__(self, o):
        o = _coerce(o)
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (_coerce(o) / self).floor()

    def __mod__(self, o):
        o = _coerce(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return _coerce(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        if self.is_const():
            return R.c(abs(self.cval()))
        if self.nn:
            return self
        if self.nan is True:
            return self
        # |n/d| = |n| / |d|
        if not self.d:
            return _absr(self.n, self.nan)
        num = _absr(self.n, self.nan)
        for q, e in self.d.values():
            s = psign(q)
            if s > 0 or e % 2 == 0:
                f = R(P1, {q.key(): (q, e)})
            elif s < 0:
                f = R(Poly.const(Fraction(-1) ** e), {q.key(): (q, e)})
            else:
                f = _absr(q, False).inv()
                f = R(f.n, f.d, False, True)
                g = f
                for _ in range(e - 1):
                    g = g * f
                f = g
            num = num * f
        num.nn = True
        return num
    absolute = fabs = __abs__

    def sqrt(self):
        E = eng()
        nan = self.nan
        if nan is True:
            return self
        if self.is_const():
            v = self.cval()
            if v < 0:
                return R.nanv()
            r = frac_sqrt(v)
            if r is not None:
                return R.c(r)
        if not self.nn and not self.is_const():
            if not known(self >= 0):
                neg = bz(self < 0)
                nan = bor(nan, neg)
        # sqrt(n / prod q^e)
        n = self.n
        outd = {}
        for k, (q, e) in self.d.items():
            # q^e = q^(2*ceil(e/2)) / (q if odd)
            h = (e + 1) // 2
            if e % 2:
                n = n * q
            s = psign(q)
            if s >= 0 and (s > 0 or e % 2):
                qq = q
                outd[k] = (qq, h)
            elif s < 0:
                outd[k] = (q, h)
                if h % 2:
                    n = n  # sign handled below
                    outd['neg'] = outd.get('neg', 1) * -1
            else:
                aq = _absr(q, False)
                outd[aq.n.key()] = (aq.n, h)
        sgn = outd.pop('neg', 1)
        r = _sqrt_poly(n)
        if outd:
            nn, dd = _normden(r.n, dict(outd))
            r = R(nn, dd, False, True)
        if sgn < 0:
            r = -r
        r = R(r.n, r.d, nan, True)
        return r

    def square(self):
        return self * self

    def conjugate(self): return self
    def reciprocal(self): return self.inv()

    def floor(self):
        if self.is_const():
            import math
            return R.c(math.floor(self.cval()))
        if self.nan is True:
            return self
        if _is_int(self):
            return self
        E = eng()
        lg = log10_arg(self)
        if lg is not None:
            return R(decade(lg).n, None, self.nan)
        key = ('floor', self.n.key(), frozenset((k, e) for k, (q, e) in self.d.items()))
        a = E.memo.get(key)
        if a is None:
            a = E.new_atom('floor', sort='int')
            v = self.z()
            E.set_defs(a, [a.z <= v, v < a.z + 1])
            a.info = ('floor', self)
            E.memo[key] = a
        return R(Poly.atom(a), None, self.nan, self.nn)

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self.is_const():
            return R.c(int(self.cval()))
        if self.nn:
            return self.floor()
        return ite(self >= 0, self.floor(), self.ceil())

    def rint(self):
        f = self.floor()
        d = self - f
        half = Fraction(1, 2)
        if d < half:
            return f
        if d > half:
            return f + 1
        return f if int(f) % 2 == 0 else f + 1

    def __floor__(self): return self.floor().__int__()
    def __ceil__(self): return self.ceil().__int__()
    def __trunc__(self): return self.__int__()

    def __int__(self):
        """Concretise by forking over the feasible integer parts (truncation toward zero)."""
        x = self.concretize_nan()
        if x.nan is True:
            raise ValueError('cannot convert float NaN to integer')
        if x.is_const():
            return int(x.cval())
        t = x.trunc()
        return concretize_int(t)

    def __index__(self):
        if not _is_int(self):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            x = self.concretize_nan()
            if x.nan is True:
                raise ValueError('cannot convert float NaN to integer')
            r = x.rint()
            return int(r) if nd is None else r
        k = Fraction(10) ** int(nd)
        if self.is_const():
            return R.c(Fraction(round(self.cval() * k)) / k)
        if FINE[0] is not None and nd >= FINE[0]:
            return self
        return rounded(self, Fraction(1, 2) / k, ('round', nd))

    def round(self, nd=0):
        return self.__round__(nd) if nd else self.rint()

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if self.nan is True:
            return float('nan')
        raise Unsupported('float() of a symbolic value in native code')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    # --- comparison
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, Inf):
            if self.nan is True:
                return False
            r = {'lt': o.s > 0, 'le': o.s > 0, 'gt': o.s < 0, 'ge': o.s < 0, 'eq': False}[op]
            return r if self.nan is False else mkbool(z3.And(z3.Not(bz(self.nan)), z3.BoolVal(r)))
        nan = _nanor(self, o)
        if nan is True:
            return False
        diff = R(self.n, self.d) - R(o.n, o.d)
        n = diff.n
        if n.is_const() and not diff.d:
            v = n.cval()
            r = {'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0, 'eq': v == 0}[op]
            if nan is False:
                return r
            return mkbool(z3.And(z3.Not(nan), z3.BoolVal(r)))
        if not n.t:
            r = op in ('le', 'ge', 'eq')
        elif op == 'eq':
            r = n.z() == 0
        else:
            p = n
            sg = 1
            for q, e in diff.d.values():
                if e % 2:
                    s = psign(q)
                    if s > 0:
                        pass
                    elif s < 0:
                        sg = -sg
                    else:
                        p = p * q
            if sg < 0:
                p = p.neg()
            # normalise scale for readability/robustness
            z = p.z()
            r = {'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0}[op]
        if nan is not False:
            r = z3.And(z3.Not(nan), bz(r))
        return mkbool(bz(r))

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return True
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.n.key(), frozenset((k, e) for k, (q, e) in self.d.items())))

    def __repr__(self):
        if self.nan is True:
            return 'nan'
        if self.is_const():
            v = self.cval()
            return str(v) if v.denominator == 1 else f'{v.numerator}/{v.denominator}'
        s = f'R({self.n!r}'
        if self.d:
            s += ' / ' + ' '.join(f'({q!r})^{e}' for q, e in self.d.values())
        if self.nan is not False:
            s += ' nan?'
        return s + ')'
    def __str__(self):
        return self.__format__('')

    def __format__(self, spec):
        h = FORMAT_HOOK[0]
        if h is not None:
            return h(self, spec)
        if self.is_const():
            return format(float(self.cval()), spec)
        return repr(self)

    # --- numpy protocol
    def __array_ufunc__(self, ufunc, method, *a, **k):
        return _arr_ufunc(ufunc, method, *a, **k)

    def __array_function__(self, func, types, args, kwargs):
        return _arr_function(func, args, kwargs)

    # numpy-scalar-like attributes
    shape = ()
    ndim = 0
    size = 1
    real = property(lambda self: self)
    imag = property(lambda self: R.c(0))

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('int64') if _is_int(self) and not self.is_const() else numpy.dtype('float64')

    def item(self, *a): return self
    def astype(self, dt, *a, **k):
        import numpy
        from .arr import SymArray
        return SymArray.wrap0(self).astype(dt)[()]
    def is_integer(self):
        return self == self.floor()
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def exp(self): return ufun('exp', self)
    def log(self): return ufun('log', self)
    def log10(self): return ufun('log10', self)
    def log2(self): return ufun('log2', self)
    def sin(self): return ufun('sin', self)
    def cos(self): return ufun('cos', self)
    def tan(self): return ufun('tan', self)
    def arctan(self): return ufun('arctan', self)
    def arcsin(self): return ufun('arcsin', self)
    def arccos(self): return ufun('arccos', self)
    def arctan2(self, o): return ufun('arctan2', self, R.of(o))
    def hypot(self, o): return (self * self + R.of(o) * R.of(o)).sqrt()
    def rad2deg(self): return self * R.c(to_frac(180)) / PI()
    def deg2rad(self): return self * PI() / 180
    degrees = rad2deg
    radians = deg2rad
    def isfinite(self): return mkbool(z3.Not(bz(self.nan)))
    def sign(self):
        if self > 0:
            return R.c(1)
        if self < 0:
            return R.c(-1)
        return R.c(0)

    def __getattr__(self, name):
        raise AttributeError(name)


FORMAT_HOOK = [None]


class Inf(R):
    """+-infinity constant (only produced by explicit np.inf)."""
    __slots__ = ('s',)

    def __init__(self, s):
        super().__init__(P0, None, False)
        self.s = s

    def is_const(self): return False
    def is_nan(self): return False
    def __neg__(self): return Inf(-self.s)
    def __add__(self, o): return self
    __radd__ = __add__
    def __sub__(self, o): return self
    def __rsub__(self, o): return -self
    def __mul__(self, o):
        o = R.of(o)
        if o > 0:
            return self
        if o < 0:
            return -self
        return R.nanv()
    __rmul__ = __mul__
    def __truediv__(self, o): return self * o
    def __rtruediv__(self, o): return R.c(0)
    def __abs__(self): return Inf(1)
    def _cmp(self, o, op):
        o = _coerce(o)
        if isinstance(o, Inf):
            a, b = self.s, o.s
        else:
            if o.nan is True:
                return False
            a, b = self.s, 0
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b}[op]
    def isfinite(self): return False
    def __hash__(self): return hash(('inf', self.s))
    def __float__(self): return float('inf') * self.s
    def __repr__(self): return 'inf' if self.s > 0 else '-inf'
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return not self._cmp(o, 'eq')
    def arctan(self): return PI() / 2 * self.s
    def floor(self): return self
    def sqrt(self): return self
    def __int__(self): raise OverflowError('cannot convert float infinity to integer')
    def concretize_nan(self): return self


def PI():
    import math
    return R.c(Fraction(math.pi))


def _coerce(o):
    if isinstance(o, R):
        return o
    if isinstance(o, SymBool):
        return o.as_r()
    if isinstance(o, (bool, int, float, Fraction)):
        return R.of(o)
    import numpy as np
    if isinstance(o, np.generic):
        if isinstance(o, np.complexfloating):
            raise Unsupported('complex')
        if isinstance(o, (np.number, np.bool_)):
            return R.of(o.item())
        return NotImplemented
    if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
        return R.of(o.item())
    return NotImplemented


def _nanor(a, b):
    if a.nan is False:
        return b.nan
    if b.nan is False:
        return a.nan
    return bor(a.nan, b.nan)


def _addfrac(a, b, nan, nn):
    # least common denominator over factors
    d = dict(a.d)
    for k, (q, e) in b.d.items():
        if k not in d or d[k][1] < e:
            d[k] = (q, e)

    def lift(x):
        n = x.n
        for k, (q, e) in d.items():
            have = x.d[k][1] if k in x.d else 0
            for _ in range(e - have):
                n = n * q
        return n
    n = lift(a) + lift(b)
    if not n.t:
        return R(P0, None, nan, True)
    d = dict(d)
    n = _cancel(n, d)
    return R(n, d, nan, nn)


def _cancel(n, d):
    """Cancel factors of d from n (in place on d): monomial factors and exact equality up to a constant."""
    if not n.t:
        d.clear()
        return n
    for k in list(d):
        q, e = d[k]
        if len(q.t) == 1:
            (m, c), = q.t.items()
            a = m[0][0]
            k2 = e
            for mm in n.t:
                k2 = min(k2, dict(mm).get(a, 0))
                if not k2:
                    break
            if k2:
                t = {}
                for mm, cc in n.t.items():
                    dm = dict(mm)
                    dm[a] -= k2
                    if not dm[a]:
                        del dm[a]
                    t[tuple(sorted(dm.items()))] = cc
                n = Poly(t)
                if e == k2:
                    del d[k]
                else:
                    d[k] = (q, e - k2)
        elif len(n.t) == len(q.t):
            c, p = n.monic()
            if p.key() == k:
                n = Poly.const(c)
                if e == 1:
                    del d[k]
                else:
                    d[k] = (q, e - 1)
        elif len(n.t) > len(q.t) and len(n.t) <= 400:
            quo = poly_divexact(n, q)
            if quo is not None:
                n = quo
                if e == 1:
                    del d[k]
                else:
                    d[k] = (q, e - 1)
    return n


def poly_divexact(n, q, limit=120):
    E = eng()
    ids = n.atoms() | q.atoms()
    if any(E.atoms[a].sq is not None for a in ids):
        return None
    ql = q.lead()
    qc = q.t[ql]
    dq = dict(ql)
    quo = {}
    rem = n
    for _ in range(limit):
        if not rem.t:
            return Poly(quo)
        rl = rem.lead()
        d = dict(rl)
        for a, e in dq.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        m = tuple(sorted(d.items()))
        c = rem.t[rl] / qc
        quo[m] = c
        rem = rem + (q * Poly({m: c})).neg()
        if len(rem.t) > 2000:
            return None
    return None


def _normden(n, d):
    """Reduce squared sqrt/abs atoms in the denominator."""
    E = eng()
    for k in list(d):
        q, e = d[k]
        if len(q.t) == 1 and e >= 2:
            (m, c), = q.t.items()
            if len(m) == 1:
                a = E.atoms[m[0][0]]
                if a.sq is not None:
                    del d[k]
                    if e % 2:
                        d[k] = (q, 1)
                    r = R(a.sq)
                    iv = _inv_nocheck(r.n)
                    for _ in range(e // 2):
                        n = n * iv.n
                        for kk, (qq, ee) in iv.d.items():
                            d[kk] = (qq, d[kk][1] + ee) if kk in d else (qq, ee)
                    return _normden(_cancel(n, d), d)
    return n, d


def _inv_nocheck(p):
    if p.is_const():
        return R(Poly.const(1 / p.cval()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        d = {}
        for a, e in m:
            q = Poly({((a, 1),): F1})
            d[q.key()] = (q, e)
        return R(Poly.const(1 / c), d)
    c, q = p.monic()
    s = poly_sqrt(q)
    if s is not None and len(s.t) > 1:
        c3, s = s.monic()
        return R(Poly.const(1 / (c * c3 * c3)), {s.key(): (s, 2)})
    return R(Poly.const(1 / c), {q.key(): (q, 1)})


def _known_nonzero(r):
    E = eng()
    p = r.n
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return all(psign(Poly({((a, 1),): F1}), nz=True) != 0 for a, e in m)
    return psign(p, nz=True) != 0


def psign(p, nz=False):
    """Known sign of polynomial under the path condition: 1, -1, 0 unknown. With nz: 2 if only known nonzero."""
    if p.is_const():
        v = p.cval()
        return (v > 0) - (v < 0)
    E = eng()
    key = (p.key(), len(E.pc), nz)
    s = E.sign_memo.get(key)
    if s is not None:
        return s
    # syntactic: all coefficients same sign and all atoms known nonneg, with at least one positive term
    z = p.z()
    old = E.solver_timeout
    E.solver.set('timeout', 1500)
    s = 0
    try:
        if E.feasible(z <= 0) == z3.unsat:
            s = 1
        elif E.feasible(z >= 0) == z3.unsat:
            s = -1
        elif nz and E.feasible(z == 0) == z3.unsat:
            s = 2
    finally:
        E.solver.set('timeout', old)
    E.sign_memo[key] = s
    return s


def known(b):
    if isinstance(b, SymBool):
        return eng().known(b.c)
    return bool(b)


def _absr(p, nan):
    if not p.t:
        return R(P0, None, nan, True)
    if p.is_const():
        return R(Poly.const(abs(p.cval())), None, nan, True)
    E = eng()
    c, q = p.monic()
    if len(q.t) == 1:
        # product of atoms: |a*b| = |a||b|
        (m, _), = q.t.items()
        r = R.c(abs(c))
        if len(m) > 1 or m[0][1] > 1:
            for a, e in m:
                base = _absr(Poly({((a, 1),): F1}), False)
                if e % 2 == 0:
                    base = R(Poly({((a, 1),): F1}))
                    base.nn = False
                for _ in range(e):
                    r = r * base
            return R(r.n, r.d, nan, True)
        if E.atoms[m[0][0]].nn:
            return R(q.scale(abs(c)), None, nan, True)
    key = ('abs', q.key())
    a = E.memo.get(key)
    if a is None:
        a = E.new_atom('abs', sq=q * q, nn=True)
        z = q.z()
        E.set_defs(a, [a.z >= 0, a.z >= z, a.z >= -z, z3.Or(a.z == z, a.z == -z)])
        a.info = ('abs', q)
        E.memo[key] = a
    return R(Poly.atom(a).scale(abs(c)), None, nan, True)


def _sqrt_poly(n):
    """sqrt of polynomial n (assumed >= 0)."""
    if not n.t:
        return R.c(0)
    E = eng()
    c, q = n.monic()
    if c < 0:
        c, q = -c, q.neg()
    # sqrt(c) = s * sqrt(k) / den
    num = c.numerator * c.denominator
    s, k = square_part(num)
    coef = Fraction(s, c.denominator)
    r = R.c(coef)
    if k != 1:
        if not q.is_const() and len(q.t) > 1:
            # keep non-square constant as separate atom
            pass
        r = r * _sqrt_atom(Poly.const(Fraction(k)))
    if q.is_const():
        if q.cval() < 0:
            return R.nanv()
        return r
    ps = poly_sqrt(q)
    if ps is not None:
        return r * _absr(ps, False)
    return r * _sqrt_atom(q)


def _sqrt_atom(q):
    E = eng()
    key = ('sqrt', q.key())
    a = E.memo.get(key)
    if a is None:
        a = E.new_atom('sqrt', sq=q, nn=True)
        E.set_defs(a, [a.z >= 0, a.z * a.z == q.z()])
        a.info = ('sqrt', q)
        E.memo[key] = a
    return R(Poly.atom(a), None, False, True)


def rkey(x):
    if isinstance(x, Inf):
        return ('inf', x.s)
    return (x.n.key(), frozenset((k, e) for k, (q, e) in x.d.items()))


def ufun(name, *args):
    """Uninterpreted deterministic function of real arguments."""
    E = eng()
    args = [R.of(a) for a in args]
    if any(a.nan is True for a in args):
        return R.nanv()
    nan = False
    for a in args:
        nan = bor(nan, a.nan)
    if all(a.is_const() for a in args):
        import math
        if name in ('arctan', 'arctan2'):
            y, x = args[0].cval(), (args[1].cval() if name == 'arctan2' else Fraction(1))
            if y == 0 or x == 0 or abs(y) == abs(x):
                m = Fraction(round(math.atan2(y, x) * 4 / math.pi), 4)
                return PI() * m
        fn = {'arctan': math.atan, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log,
              'arctan2': math.atan2, 'log10': math.log10, 'pow': math.pow, 'tan': math.tan, 'log2': math.log2,
              'arcsin': math.asin, 'arccos': math.acos}.get(name)
        if fn:
            try:
                return R.c(Fraction(fn(*[float(a.cval()) for a in args])).limit_denominator(10**15))
            except (ValueError, OverflowError):
                return R.nanv()
    if name == 'log' or name == 'log10':
        if not known(args[0] > 0):
            nan = bor(nan, bz(args[0] <= 0))
    if name in ('arctan', 'sin', 'tan', 'arcsin', 'cos') and args[0].n.t:
        # odd / even functions share one atom for x and -x
        if args[0].n.t[min(args[0].n.t)] < 0:
            neg = R(args[0].n.scale(-1), args[0].d, args[0].nan)
            r = ufun(name, neg)
            return r if name == 'cos' else -r
    key = ('uf', name, tuple(rkey(a) for a in args))
    a = E.memo.get(key)
    if a is None:
        a = E.new_atom(name)
        f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
        defs = [a.z == f(*[x.z() for x in args])]
        h = z3.RealVal(Fraction(3141592653589793, 2 * 10 ** 15))
        if name in ('sin', 'cos'):
            defs += [a.z <= 1, a.z >= -1]
        if name == 'arctan':
            x = args[0].z()
            defs += [a.z < h, a.z > -h, (a.z > 0) == (x > 0), (a.z < 0) == (x < 0)]
        if name == 'arctan2':
            y, x = args[0].z(), args[1].z()
            defs += [a.z <= 2 * h, a.z >= -2 * h, z3.Implies(y > 0, z3.And(a.z > 0, a.z < 2 * h)),
                     z3.Implies(y < 0, z3.And(a.z < 0, a.z > -2 * h))]
        if name == 'exp':
            defs += [a.z > 0]
        E.set_defs(a, defs)
        a.info = ('uf', name, args)
        E.memo[key] = a
    return R(Poly.atom(a), None, nan)


def log10_arg(x):
    """y when x is the decadic logarithm of y"""
    if len(x.n.t) == 1 and not x.d:
        (m, c), = x.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            i = eng().atoms[m[0][0]].info
            if i and i[0] == 'uf' and i[1] == 'log10':
                return i[2][0]
    return None


def decade(y):
    """floor(log10(y)) by case distinction on the decade of y > 0"""
    for e in sorted(range(-16, 17), key=abs):
        if Fraction(10) ** e <= y and y < Fraction(10) ** (e + 1):
            return R.c(e)
    raise Unsupported('decade of a number outside 1e-16..1e17')


# decimal places from which on rounding is neglected (None: never); set by harnesses that state it
FINE = [None]


def rounded(x, eps_abs, tag, eps_rel=F0):
    """Deterministic rounding of x: an atom within eps of x."""
    E = eng()
    if x.nan is True:
        return x
    key = ('rnd', tag, rkey(x))
    a = E.memo.get(key)
    if a is None:
        a = E.new_atom('rnd')
        z = x.z()
        if eps_rel:
            e = z3.RealVal(eps_rel) * z3.If(z >= 0, z, -z) + z3.RealVal(eps_abs)
        else:
            e = z3.RealVal(eps_abs)
        E.set_defs(a, [a.z - z <= e, z - a.z <= e])
        a.info = ('rnd', tag, x)
        E.memo[key] = a
    r = R(Poly.atom(a), None, x.nan)
    return r


def ite(c, a, b):
    """c: bool|SymBool ; a,b: R"""
    if isinstance(c, bool) or not isinstance(c, SymBool):
        return a if c else b
    a, b = R.of(a), R.of(b)
    if isinstance(a, Inf) or isinstance(b, Inf):
        return a if bool(c) else b
    same = rkey(a) == rkey(b)
    E = eng()
    # nan part
    if a.nan is False and b.nan is False:
        nan = False
    else:
        nan = z3.simplify(z3.If(c.c, bz(a.nan), bz(b.nan)))
        if z3.is_true(nan):
            return R.nanv()
        if z3.is_false(nan):
            nan = False
    if same or a.nan is True or b.nan is True:
        src = b if a.nan is True else a
        return R(src.n, src.d, nan, src.nn)
    key = ('ite', c.c.get_id(), rkey(a), rkey(b))
    at = E.memo.get(key)
    if at is None:
        at = E.new_atom('ite', nn=a.nn and b.nn)
        E.set_defs(at, [z3.If(c.c, at.z == a.z(), at.z == b.z())] + ([at.z >= 0] if at.nn else []))
        at.info = ('ite', c, a, b)
        E.memo[key] = at
    return R(Poly.atom(at), None, nan, at.nn)


def rmax(xs):
    """max of a non-empty list of R (nan propagates)."""
    E = eng()
    xs = [R.of(x) for x in xs]
    nan = False
    for x in xs:
        nan = bor(nan, x.nan)
    if nan is True:
        return R.nanv()
    infs = [x for x in xs if isinstance(x, Inf)]
    if any(x.s > 0 for x in infs):
        return infs[0]
    xs = [x for x in xs if not isinstance(x, Inf)]
    if not xs:
        return infs[0]
    flat = {}
    for x in xs:
        if not x.d and len(x.n.t) == 1:
            (m, c), = x.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = E.atoms[m[0][0]]
                if a.info and a.info[0] == 'max':
                    for y in a.info[1]:
                        flat[rkey(y)] = y
                    continue
        flat[rkey(x)] = R(x.n, x.d, False, x.nn)
    consts = [x for x in flat.values() if x.is_const()]
    if len(consts) > 1:
        best = max(consts, key=lambda r: r.cval())
        for x in consts:
            flat.pop(rkey(x), None)
        flat[rkey(best)] = best
    if len(flat) == 1:
        x = next(iter(flat.values()))
        return R(x.n, x.d, nan, x.nn)
    # canonical form under common translation and positive scaling
    vals = list(flat.values())
    shift, scale = None, F1
    if all(not x.d for x in vals):
        monos = {}
        for x in vals:
            for m in x.n.t:
                monos[m] = None
        sh = {}
        for m in monos:
            cs = [x.n.t.get(m, F0) for x in vals]
            cnt = {}
            for c in cs:
                cnt[c] = cnt.get(c, 0) + 1
            best = max(cnt.values())
            c = min(k for k, v in cnt.items() if v == best)
            if c:
                sh[m] = c
        if sh:
            sp = Poly(sh)
            neg = sp.neg()
            vals = [R(x.n + neg, None, False, False) for x in vals]
            shift = sp
        left = {m for x in vals for m in x.n.t}
        if len(left) == 1 and () not in left:
            # multiples of one monomial: the sign of the monomial decides
            m, = left
            sg = 1 if all(E.atoms[i].nn or e % 2 == 0 for i, e in m) else psign(Poly({m: F1}))
            if sg:
                best = max(vals, key=lambda x: sg * x.n.t.get(m, F0))
                n = best.n + shift if shift is not None else best.n
                return R(n, None, nan, all(x.nn for x in flat.values()))
        mc = max(abs(c) for x in vals for c in x.n.t.values())
        if mc != 1:
            scale = mc
            vals = [R(x.n.scale(1 / mc), None, False, False) for x in vals]
    key = ('max', frozenset(rkey(x) for x in vals))
    a = E.memo.get(key)
    if a is None:
        nn = any(x.nn for x in vals)
        a = E.new_atom('max', nn=nn)
        zs = [x.z() for x in vals]
        E.set_defs(a, [a.z >= z for z in zs] + [z3.Or(*[a.z == z for z in zs])])
        a.info = ('max', vals)
        E.memo[key] = a
    p = Poly.atom(a).scale(scale)
    if shift is not None:
        p = p + shift
    return R(p, None, nan, any(x.nn for x in flat.values()) or (shift is None and a.nn))


def rmin(xs):
    xs = [R.of(x) for x in xs]
    r = -rmax([-x for x in xs])
    if all(x.nn for x in xs):
        r.nn = True
    return r


def _is_int(r):
    """Syntactically integer-valued?"""
    if isinstance(r, Inf) or r.d:
        return False
    E = eng()
    for m, c in r.n.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if E.atoms[a].sort != 'int':
                at = E.atoms[a]
                if at.info and at.info[0] == 'ite' and _is_int(at.info[2]) and _is_int(at.info[3]):
                    continue
                if at.info and at.info[0] == 'max' and all(_is_int(x) for x in at.info[1]):
                    continue
                return False
    return True


def concretize_int(t, limit=200):
    """t: integer-valued R. Fork over feasible values."""
    E = eng()
    t = t.concretize_nan()
    if t.is_const():
        return int(t.cval())
    z = t.z()
    for _ in range(limit):
        # deterministic choice: decided by stored decision values
        if E.pos < len(E.prefix):
            d = E.prefix[E.pos]
            v = d[2]
        else:
            E.sync_defs(z)
            r = E.timed_check(E.solver)
            E.stats['branch_queries'] += 1
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Unsupported('cannot concretise integer (solver unknown)')
            m = E.solver.model()
            mv = m.eval(z, model_completion=True)
            try:
                v = int(mv.as_fraction())
            except Exception:
                raise Unsupported('integer concretisation: non-rational model')
        if E.branch_val(z == v, v):
            return v
    raise Unsupported('too many integer values')


def _branch_val(self, c, v):
    if self.time_up():
        self.exhausted = False
        self.stop_reason = 'time'
        raise Budget()
    self.stats['branches'] += 1
    if self.pos < len(self.prefix):
        d = self.prefix[self.pos]
        self.pos += 1
        self.decisions.append(d)
        self.add(c if d[0] else z3.Not(c))
        return d[0]
    self.pos += 1
    rf = self.feasible(z3.Not(c))
    self.decisions.append((True, rf != z3.unsat, v))
    self.add(c)
    return True


Engine.branch_val = _branch_val


def _explore(self, run_path):
    stack = [[]]
    results = []
    Engine.cur = self
    while stack:
        if self.stats['paths'] >= self.max_paths:
            self.exhausted = False
            self.stop_reason = 'max_paths'
            break
        if self.time_up():
            self.exhausted = False
            self.stop_reason = 'time'
            break
        prefix = stack.pop()
        self.reset_path(prefix)
        stop = False
        try:
            r = run_path()
            self.stats['paths'] += 1
            if r is not None:
                results.append(r)
                stop = r == 'STOP'
        except PathAbort:
            self.stats['infeasible'] += 1
        except Budget:
            self.exhausted = False
            self.stop_reason = self.stop_reason or 'time'
            break
        if stop:
            self.exhausted = False
            self.stop_reason = 'violation'
            break
        for i in range(len(prefix), len(self.decisions)):
            d = self.decisions[i]
            if d[1]:
                alt = (not d[0], False) + tuple(d[2:])
                stack.append(self.decisions[:i] + [alt])
    return results


Engine.explore = _explore
