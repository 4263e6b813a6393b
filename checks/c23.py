"""Formats are recognised by the given format, the suffix or the contents of the file."""
import io
import os
import warnings
from fractions import Fraction
from .common import H, flatten
from .c21 import FORMATS, same, steps_, tag, PAT, E32
from . import c22
NOTE = 'heights, step sizes and the spelling (upper or lower case, letter by letter) are arbitrary; formats are enumerated'

MAGIC = {'.al3d': b'AliconaImaging', '.sdf': b'bISO-1.0', '.sflz': None, '.sur': b'DIGITAL SURF', '.tmd': b'Binary TrueMap Data File v2.0'}
WRITE = list(MAGIC)


def data(env, mode):
    f = env.real('fac', 1, 2)
    return [[f * x for x in row] for row in PAT]


def spell(env, s):
    """any mixture of upper and lower case"""
    return ''.join(c.upper() if c.isalpha() and env.flag(f'upper{k}') else c for k, c in enumerate(s))


def scale_of(env, z):
    return env.max(flatten(z))


def content(env, blob, fmt, z, st):
    S = env.pkg('surfalize').Surface
    m = MAGIC[fmt]
    if m:
        env.concrete(f'contents are of type {fmt}', blob.startswith(m), repr(blob[:20]))
    r = S.load(io.BytesIO(blob), format=fmt)
    same(env, r, z, st, E32, scale_of(env, z))


def written(env, fmt, how):
    z = data(env, 'scale')
    st = steps_(env)
    s = env.surface(z, *st)
    kw = {}
    name = 'x'
    if how == 'suffix':
        name += spell(env, fmt)
    elif how == 'format':           # no suffix
        kw['format'] = spell(env, fmt)
    elif how == 'both':             # the format overrides the suffix
        other = env.choice('other', [f for f in WRITE + ['.abc', '.xyz'] if f != fmt])
        name += other
        kw['format'] = fmt
    if how == 'buffer':
        b = io.BytesIO()
        s.save(b, format=spell(env, fmt))
        blob = b.getvalue()
    else:
        p = env.path(name)
        if env.flag('pathlib'):
            import pathlib
            p = pathlib.Path(p)
        s.save(p, **kw)
        with open(p, 'rb') as f:
            blob = f.read()
    content(env, blob, fmt, z, st)


def loaded(env, fmt, how):
    S = env.pkg('surfalize').Surface
    z = data(env, 'scale')
    st = steps_(env)
    b = io.BytesIO()
    env.surface(z, *st).save(b, format=fmt)
    blob = b.getvalue()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if how == 'buffer':
            c = io.BytesIO(blob)
            r = S.load(c, format=spell(env, fmt))
            env.concrete('position of the buffer', c.tell() == 0)
        elif how == 'wrong buffer':
            c = io.BytesIO(blob)
            r = S.load(c, format=env.choice('other', [f for f in WRITE + ['.abc', '.vk4', '.x3p', '.fits'] if f != fmt]))
            env.concrete('position of the buffer', c.tell() == 0)
        else:
            kw = {}
            if how == 'suffix':
                name = 'x' + spell(env, fmt)
            elif how == 'format':
                name = 'x' + env.choice('other', ['', '.abc', '.tmd' if fmt == '.sur' else '.sur'])
                kw['format'] = spell(env, fmt)
            elif how == 'contents':
                name = 'x' + env.choice('other', ['', '.abc', '.xyz', '.plu', '.vk6', '.gwy'] + [f for f in WRITE if f != fmt])
            p = env.path(name)
            with open(p, 'wb') as f:
                f.write(blob)
            r = S.load(p, **kw)
            with open(p, 'rb') as f:
                env.concrete('the file is unchanged', f.read() == blob)
    same(env, r, z, st, E32, scale_of(env, z))
    told = [str(x.message) for x in w if 'suffix' in str(x.message)]
    if how in ('suffix', 'format', 'buffer'):
        env.concrete('no warning about the type', not told, str(told))
    elif how == 'contents':
        env.concrete('warning about the type', len(told) == 1 and fmt in told[0], str(told))


def foreign(env, build, sfx, how, **kw):
    """files of other programs under a wrong name, with another spelling, or as a buffer with a wrong format"""
    if how == 'spelling':
        kind = dict(name='x' + spell(env, sfx))
    elif how == 'format':
        kind = dict(name='x' + env.choice('other', ['', '.abc', '.sur']), format=sfx)
    elif how == 'contents':
        kind = dict(name='x' + env.choice('other', [o for o in ('', '.abc', '.sur', '.vk4', '.opd', '.xyz') if o != sfx]))
    else:
        kind = dict(buffer=True, format=env.choice('other', [o for o in ('.abc', '.sur', '.gwy', '.tmd') if o != sfx]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        build(env, 2, 3, kind=kind, **kw)


def refused(env):
    S = env.pkg('surfalize').Surface
    X = env.pkg('surfalize.exceptions')
    z = data(env, 'scale')
    s = env.surface(z, *steps_(env))
    case = env.choice('case', ['suffix', 'format', 'none', 'buffer', 'read only', 'missing', 'garbage', 'garbage buffer', 'empty', 'type'])
    p = env.path('x.abc')
    before = b'old contents'

    def keep():
        with open(p, 'rb') as f:
            env.concrete('the existing file is kept', f.read() == before)
    if case in ('suffix', 'none', 'format', 'read only'):
        if case == 'none':
            p = env.path('x')
        if case == 'format':
            p = env.path('x.sur')
        if case == 'read only':
            p = env.path('x.' + env.choice('fmt', ['vk4', 'plu', 'opd', 'gwy', 'xyz', 'nms', 'dat', 'x3p']))
        with open(p, 'wb') as f:
            f.write(before)
        env.raises('saving', lambda: s.save(p, **({'format': '.abc'} if case == 'format' else {})), ValueError if case == 'none' else X.UnsupportedFileFormatError)
        keep()
    elif case == 'buffer':
        b = io.BytesIO()
        env.raises('saving without format', lambda: s.save(b), ValueError)
        env.raises('saving with an unknown format', lambda: s.save(b, format='.abc'), X.UnsupportedFileFormatError)
        env.concrete('nothing is written', b.getvalue() == b'')
    elif case == 'missing':
        env.raises('loading a file that does not exist', lambda: S.load(env.path('no.sur')), FileNotFoundError)
    elif case == 'type':
        env.raises('loading a number', lambda: S.load(3), Exception)
        env.raises('loading nothing', lambda: S.load(None), Exception)
    else:
        n = env.concint('n', 1, 6)
        blob = b'' if case == 'empty' else bytes((i * 37 + n * 11) % 256 for i in range(37 ** (n // 2) + n))
        if case == 'garbage buffer':
            env.raises('loading', lambda: S.load(io.BytesIO(blob), format='.sur'))
        else:
            q = env.path('g' + env.choice('fmt', ['.sur', '.abc', '', '.vk4', '.gwy', '.plu', '.dat', '.xyz', '.fits']))
            with open(q, 'wb') as f:
                f.write(blob)
            env.raises('loading', lambda: S.load(q))


def position(env, fmt):
    """a buffer keeps its position, wherever that is and whether or not a surface can be loaded"""
    S = env.pkg('surfalize').Surface
    z = data(env, 'scale')
    b = io.BytesIO()
    env.surface(z, *steps_(env)).save(b, format=fmt)
    k = env.choice('before', [0, 1, 8])
    blob = bytes(range(k)) + b.getvalue() + (b'' if env.flag('complete') else b'xyz')
    c = (lambda x: io.BufferedReader(io.BytesIO(x)))(blob) if env.flag('reader') else io.BytesIO(blob)
    at = env.choice('at', ['start', 'surface', 'end', 'beyond'])
    p = {'start': 0, 'surface': k, 'end': len(blob), 'beyond': len(blob) + 3}[at]
    for kw in ({'format': fmt}, {}, {'format': '.abc'}, {'format': '.sur' if fmt != '.sur' else '.tmd'}):
        c.seek(p)
        env.attempt(lambda: S.load(c, **kw))
        env.concrete('position of the buffer', c.tell() == p, f'{c.tell()} instead of {p} {kw}')


FOREIGN = [('.vk4', c22.vk4, dict(bits=16, suffix='.vk4', layers=False, dz=100)), ('.vk6', c22.vk4, dict(bits=32, suffix='.vk6', layers=False, dz=100)), ('.vk7', c22.vk4, dict(bits=32, suffix='.vk7', layers=False, dz=100)), ('.fits', c22.fits, dict(bitpix=-64)),
           ('.os3d', c22.os3d, {}), ('.zmg', c22.zmg, dict(comment=2)), ('.opd', c22.opd, dict(dtype='<f4')), ('.dat', c22.dat, dict(fmt=1, res=1)), ('.dat', c22.dat, dict(fmt=3, res=2)),
           ('.x3p', c22.x3p, dict(dt='D')), ('.gwy', c22.gwy, {}), ('.sdf', c22.sdf_ascii, {}), ('.sdf', c22.sdf_binary, dict(dt=5)), ('.al3d', c22.al3d, dict(invalid='nan')), ('.tmd', c22.tmd, {}),
           ('.sur', c22.sur, dict(bits=16)), ('.sur', c22.sur, dict(bits=32, compressed=2, missing=True))]
NOMAGIC = [('.nms', c22.nms, {}), ('.xyz', c22.xyz, {}), ('.plu', c22.plu, {}), ('.plux', c22.plux, {})]


# bytes that identify the format, where more than four
IDENT = {'.al3d': 17, '.sdf': 8, '.sur': 12, '.tmd': 29, '.fits': 6, '.os3d': 10, '.opd': 11}


def altered(env, build, sfx, at=0, **kw):
    """the identification at the start of the file is wrong"""
    n = IDENT.get(sfx, 4)

    def cut(blob):
        k = env.choice('byte', sorted({0, 1, 2, 3, n // 2, n - 1}))
        return blob[:at + k] + bytes([blob[at + k] ^ (1 if blob[at + k] else 255)]) + blob[at + k + 1:]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            build(env, 2, 3, kind=dict(format=sfx, cut=cut), **kw)
        except c22.Refused:
            env.concrete('refused', True)
            return
    env.concrete('a file with wrong identification is refused', False)


def altered_own(env, sfx, **kw):
    S = env.pkg('surfalize').Surface
    z = data(env, 'scale')
    b = io.BytesIO()
    env.surface(z, *steps_(env)).save(b, format=sfx, **kw)
    n = IDENT.get(sfx, 4)
    b, k = b.getvalue(), env.choice('byte', sorted({0, 1, 2, 3, n // 2, n - 1}))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env.raises('a file with wrong identification is refused', lambda: S.load(io.BytesIO(b[:k] + bytes([b[k] ^ 1]) + b[k + 1:]), format=sfx), Exception)


def harnesses(tier):
    hs = []
    B = '2x3 heights of arbitrary scale, arbitrary steps; '
    for fmt in WRITE:
        for how in ('suffix', 'format', 'both', 'buffer'):
            hs.append(H(f'save {fmt} by {how}', written, fmt=fmt, how=how, time=90, bounds=B + 'every spelling'))
        hs.append(H(f'position {fmt}', position, fmt=fmt, time=90, max_paths=600, bounds=B + 'position at the start, at the surface, at the end, beyond'))
        for how in ('suffix', 'format', 'contents', 'buffer', 'wrong buffer'):
            hs.append(H(f'load {fmt} by {how}', loaded, fmt=fmt, how=how, time=90, max_paths=600, bounds=B + 'every spelling, other suffixes'))
    for k, (fmt, fn, kw) in enumerate(FOREIGN):
        for how in ('spelling', 'format', 'contents', 'wrong buffer'):
            hs.append(H(f'foreign {k} {fmt} by {how}', foreign, build=fn, sfx=fmt, how=how, time=60, bounds=B, **kw))
    for k, (fmt, fn, kw) in enumerate(NOMAGIC):
        for how in ('spelling', 'format'):
            hs.append(H(f'foreign {fmt} by {how}', foreign, build=fn, sfx=fmt, how=how, time=60, bounds=B, **kw))
    hs.append(H('refused', refused, time=90, max_paths=400, bounds='unknown formats, garbage'))
    for sfx, kw in FORMATS:
        hs.append(H(f'identification {tag(sfx, kw)}', altered_own, sfx=sfx, time=60, bounds='2x3; bytes of the identification', **kw))
    for k, (sfx, fn, kw) in enumerate(FOREIGN):
        if not sfx.startswith('.vk'):
            hs.append(H(f'identification {k} {sfx}', altered, build=fn, sfx=sfx, time=60, bounds='2x3; bytes of the identification', **kw))
    return hs
