"""Numbers crossing a byte or text boundary.

A symbolic number that the analysed code serialises is replaced by a unique concrete stand-in of the requested encoding and
recorded in a per-path table; reading the same encoding back yields the number again (rounded as the encoding rounds).  All
other file machinery (buffers, files, zip, zlib, lzma, regular expressions) then runs natively on the stand-ins.  Anything
else that is read (a different offset, byte order, width, field) gives a meaningless concrete number and the check on the
result fails; the replay on the real code decides.
"""
import io
import re
import struct
import types
from fractions import Fraction
import numpy as np
from . import core, arr, loader
from .core import R, Inf, SymBool, Unsupported, eng, rounded
from .arr import SymArray, f32round, wrapint, to_int_elem, norm_dtype

KIND = {'f': ('f', 4), 'd': ('f', 8), 'e': ('f', 2), 'b': ('i', 1), 'B': ('u', 1), 'h': ('i', 2), 'H': ('u', 2), 'i': ('i', 4), 'I': ('u', 4),
        'l': ('i', 4), 'L': ('u', 4), 'q': ('i', 8), 'Q': ('u', 8), '?': ('b', 1)}


class Table:
    def __init__(self):
        self.n = 0
        self.f = {}        # (size, float value) -> R
        self.i = {}        # (size, bits) -> (R, kind)
        self.t = {}        # float value of the text -> R
        self.seen = {}


def table():
    m = eng().memo
    t = m.get('sio')
    if t is None:
        t = m['sio'] = Table()
    return t


def const_num(x, kind):
    v = x.cval()
    return float(v) if kind == 'f' else int(v)


def put(x, kind, size):
    """native number standing for R x in the given binary encoding"""
    x = R.of(x)
    if isinstance(x, Inf):
        return float('inf') * x.s
    x = x.concretize_nan()
    if x.nan is True:
        return float('nan')
    if x.is_const():
        return const_num(x, kind)
    T = table()
    if kind == 'b':
        return bool(x)
    if kind == 'f':
        if size == 4:
            x = f32round(x)
        elif size == 2:
            raise Unsupported('half precision')
        if x.is_const():
            return const_num(x, kind)
    key = (kind, size, core.rkey(x))
    if key in T.seen:
        return T.seen[key]
    T.n += 1
    if kind == 'f':
        if size == 8:
            v = struct.unpack('<d', struct.pack('<Q', 0x4D3B5A17C3000000 + T.n * 0x10301))[0]
        else:
            v = struct.unpack('<f', struct.pack('<I', 0x5D3B1000 + T.n * 7))[0]
        T.f[size, v] = x
    else:
        base = {1: 0x53, 2: 0x5B31, 4: 0x5B3A9C11, 8: 0x5B3A9C11D2E4F601}[size]
        v = base + T.n * (1 if size < 4 else 0x1003)
        if size == 1 and v > 0x7F:
            raise Unsupported('too many symbolic bytes')
        T.i[size, v] = (x, kind)
    T.seen[key] = v
    return v


def get(v, kind, size):
    """R for a native number read in the given encoding, or the number itself"""
    T = table()
    if kind == 'f':
        if not T.f:
            return v
        return T.f.get((size, float(v)), v)
    if kind in 'iu' and T.i:
        bits = int(v) & ((1 << (8 * size)) - 1)
        h = T.i.get((size, bits))
        if h is not None:
            x, k = h
            return x if k == kind else wrapint(x, np.dtype(f'{k}{size}'), np.dtype(f'{kind}{size}'))
    return v


# ------------------------------------------------------------------------------------------------ struct
def fmt_items(fmt):
    """list of (code, size in items) of a struct format"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    f = fmt.lstrip('@=<>!')
    out = []
    for cnt, c in re.findall(r'(\d*)\s*([a-zA-Z?])', f):
        if c == 'x':
            continue
        if c in 'sp':
            out.append(c)
        else:
            out.extend([c] * (int(cnt) if cnt else 1))
    return out


def pack_vals(fmt, vals):
    items = fmt_items(fmt)
    if len(items) != len(vals):
        return vals
    out = []
    for c, v in zip(items, vals):
        if isinstance(v, SymArray) and v.size == 1:
            v = v.elems()[0]
        if isinstance(v, SymBool):
            v = bool(v)
        if isinstance(v, R):
            if c in 'sp' or c not in KIND:
                raise struct.error("argument for 's' must be a bytes object")
            kind, size = KIND[c]
            if c in 'lL' and isinstance(fmt, str) and fmt[:1] in '' + '@':
                size = 8
            if c in 'lL' and not fmt[:1] in ('<', '>', '=', '!'):
                size = 8
            if kind in 'iu':
                if v.is_const():
                    if v.cval().denominator != 1 or not core._is_int(v):
                        raise struct.error('required argument is not an integer')
                elif not core._is_int(v):
                    raise struct.error('required argument is not an integer')
                lo, hi = arr.int_range(np.dtype(f'{kind}{size}'))
                if v < lo or v > hi:
                    raise struct.error('argument out of range')
            if kind == 'f' and size == 4 and not v.is_const() and v.nan is False:
                pass
            v = put(v, kind, size)
        out.append(v)
    return out


def unpack_vals(fmt, vals):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    out = []
    for c, v in zip(fmt_items(fmt), vals):
        if c in KIND and KIND[c][0] in 'fiu' and not isinstance(v, bytes):
            kind, size = KIND[c]
            if c in 'lL' and fmt[:1] not in ('<', '>', '=', '!'):
                size = 8
            v = get(v, kind, size)
        out.append(v)
    return tuple(out)


class StructFront(types.ModuleType):
    def __init__(self):
        super().__init__('struct')
        self.error = struct.error
        self.calcsize = struct.calcsize
        front = self

        class Struct:
            def __init__(self, format):
                self._s = struct.Struct(format)
                self.format, self.size = self._s.format, self._s.size

            def pack(self, *v): return front.pack(self.format, *v)
            def unpack(self, b): return front.unpack(self.format, b)
            def unpack_from(self, b, offset=0): return front.unpack_from(self.format, b, offset)
            def iter_unpack(self, b): return front.iter_unpack(self.format, b)
            def pack_into(self, buf, off, *v): return front.pack_into(self.format, buf, off, *v)
        self.Struct = Struct

    def pack(self, fmt, *vals): return struct.pack(fmt, *pack_vals(fmt, vals))
    def pack_into(self, fmt, buf, off, *vals): return struct.pack_into(fmt, buf, off, *pack_vals(fmt, vals))
    def unpack(self, fmt, b): return unpack_vals(fmt, struct.unpack(fmt, b))
    def unpack_from(self, fmt, b, offset=0): return unpack_vals(fmt, struct.unpack_from(fmt, b, offset))
    def iter_unpack(self, fmt, b): return (unpack_vals(fmt, t) for t in struct.iter_unpack(fmt, b))


# ------------------------------------------------------------------------------------------------ arrays
def native(a):
    """ndarray of a's declared dtype holding stand-ins"""
    d = a._sd
    if d.kind not in 'fiub':
        raise Unsupported(f'serialising {d}')
    out = np.empty(a.shape, dtype=d)
    b = a.base_arr()
    for idx in np.ndindex(*a.shape):
        v = b[idx]
        out[idx] = put(v, d.kind, d.itemsize) if isinstance(v, (R, SymBool)) else v
    return out


def tobytes(a, order='C'):
    return native(a).tobytes(order)


def tofile(a, f, sep='', format='%s'):
    n = native(a)
    if hasattr(f, 'write'):
        f.fileno()          # numpy needs a real file
        if sep:
            raise Unsupported('tofile with separator')
        f.write(n.tobytes())
        return
    n.tofile(f, sep, format)


def lift(n, readonly=False):
    """native array read from bytes -> SymArray when it holds stand-ins"""
    T = table()
    d = n.dtype
    if d.kind not in 'fiu' or n.size > 2 ** 20 or not (T.f or T.i or T.t):
        return arr.nat(n)
    flat = [get(v, d.kind, d.itemsize) for v in n.ravel().tolist()]
    if n.size > 4096 and not any(isinstance(v, R) for v in flat):
        return arr.nat(n)
    s = SymArray.from_list([R.of(v) for v in flat], n.shape, d)
    if readonly:
        s.flags.writeable = False
    return s


def frombuffer(buffer, dtype=float, count=-1, offset=0, like=None):
    n = np.frombuffer(buffer, norm_dtype(dtype), count, offset)
    return lift(n, not n.flags.writeable)


def fromfile(f, dtype=float, count=-1, sep='', offset=0, like=None):
    d = norm_dtype(dtype)
    if sep:
        raise Unsupported('fromfile with separator')
    if hasattr(f, 'read'):
        f.fileno()
        if offset:
            f.seek(offset, 1)
        b = f.read() if count < 0 else f.read(count * d.itemsize)
        return lift(np.frombuffer(b[:len(b) // d.itemsize * d.itemsize], d).copy())
    return lift(np.fromfile(f, d, count, sep, offset))


def text_lift(n):
    T = table()
    if not T.t or n.dtype.kind != 'f':
        return arr.nat(n)
    flat = [T.t.get(v, v) for v in n.ravel().tolist()]
    if not any(isinstance(v, R) for v in flat):
        return arr.nat(n)
    return SymArray.from_list([R.of(v) for v in flat], n.shape, n.dtype)


def fromstring(s, dtype=float, count=-1, sep='', like=None):
    if sep == '':
        return lift(np.frombuffer(s, norm_dtype(dtype), count).copy())
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return text_lift(np.fromstring(s, norm_dtype(dtype), count, sep=sep))


def _textreader(name):
    def f(*a, **k):
        if 'dtype' in k:
            k['dtype'] = norm_dtype(k['dtype'])
        if k.get('converters') is not None:
            raise Unsupported(f'{name} with converters')
        r = getattr(np, name)(*a, **k)
        if isinstance(r, (tuple, list)):
            return type(r)(text_lift(x) for x in r)
        return text_lift(r)
    return f


# ------------------------------------------------------------------------------------------------ text
def fmt(x, spec):
    x = x.concretize_nan()
    if isinstance(x, Inf):
        return format(float('inf') * x.s, spec)
    if x.nan is True:
        return format(float('nan'), spec)
    if x.is_const():
        v = x.cval()
        if core._is_int(x) and v.denominator == 1 and (spec[-1:] == 'd'):
            return format(int(v), spec)
        return format(float(v), spec)
    T = table()
    m = re.fullmatch(r'(?:(.)?[<>=^])?[+\- ]?#?0?(\d+)?,?(?:\.(\d+))?([eEfFgGdn]?)', spec)
    if not m:
        raise Unsupported(f'format {spec}')
    key = ('t', spec, core.rkey(x))
    if key in T.seen:
        return T.seen[key]
    prec, ty = m.group(3), m.group(4)
    if ty == 'd':
        if not core._is_int(x):
            raise ValueError(f"Unknown format code 'd' for object of type 'float'")
        r = x
    elif prec is None and ty in ('',):
        r = x
    else:
        p = 6 if prec is None else int(prec)
        if ty in ('f', 'F'):
            r = rounded(x, Fraction(1, 2) / 10 ** p, ('txt', spec))
        else:
            if ty in ('g', 'G', 'n', ''):
                p = max(p, 1) - 1
            r = rounded(x, Fraction(0), ('txt', spec), Fraction(1, 2) / 10 ** p)
    for _ in range(5000):
        T.n += 1
        v = 60731 + T.n if ty == 'd' else 7.3117 + T.n * 0.0131 if prec is None or int(prec) > 3 else 7.3 + T.n
        s = format(v, spec)
        fv = float(s)
        if fv not in T.t:
            break
    else:
        raise Unsupported(f'format {spec}: no free stand-in')
    T.t[fv] = r
    T.seen[key] = s
    return s


def parse_float(x):
    if hasattr(x, '__symx_float__'):
        return x.__symx_float__()
    v = float(x)
    return table().t.get(v, v)


def install():
    core.FORMAT_HOOK[0] = fmt
    loader.FLOAT_HOOK[0] = parse_float
    arr.IO_HOOKS['tobytes'] = tobytes
    arr.IO_HOOKS['tofile'] = tofile
    arr.IO_HOOKS['text'] = text_lift
    arr.NP_EXTRA.update(frombuffer=frombuffer, fromfile=fromfile, fromstring=fromstring, loadtxt=_textreader('loadtxt'), genfromtxt=_textreader('genfromtxt'))


_F = {}


def fronts():
    if not _F:
        install()
        _F['struct'] = StructFront()
    return _F
