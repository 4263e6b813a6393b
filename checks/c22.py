"""Files of other instruments and programs are read as their format states."""
import hashlib
import io
import struct
import zipfile
import zlib
from fractions import Fraction
import numpy as np
from .common import H, flatten
from .c21 import same, E32
NOTE = 'the files are built byte by byte from the format descriptions, independently of the library; heights and step sizes are arbitrary (stand-ins, symx/sio.py), sizes and unit names are enumerated'

class Refused(Exception):
    pass


class Endless(BaseException):
    pass


class Finite(io.BytesIO):
    """a buffer that notices a reader that goes on reading behind its end"""
    over = 0

    def _count(self, r, n):
        if not r and n != 0:
            self.over += 1
            if self.over > 20000:
                raise Endless
        return r

    def read(self, n=-1):
        return self._count(super().read(n), n)

    def readline(self, n=-1):
        return self._count(super().readline(n), n)

    def readinto(self, b):
        n = super().readinto(b)
        self._count(n, len(b))
        return n


S12 = Fraction(1, 10 ** 12)


def load(env, blob, suffix, kind='format', **kw):
    S = env.pkg('surfalize').Surface
    if kind == 'format':
        try:
            r = S.load(Finite(blob), format=suffix, **kw)
        except Endless:
            env.concrete('loading ends', False)
            raise
        if kw.get('read_image_layers') and r.image_layers:
            plain = S.load(io.BytesIO(blob), format=suffix, **{k: v for k, v in kw.items() if k != 'read_image_layers'})
            env.concrete('image layers only when asked for', not plain.image_layers, str(list(plain.image_layers)))
            env.concrete('size without image layers', tuple(plain.size) == tuple(r.size))
            env.eqs('heights without image layers', plain.data, env.flat(r.data))
        return r
    if kind == 'magic':
        return S.load(io.BytesIO(blob), **kw)
    if isinstance(kind, dict):
        if kind.get('format'):
            kw['format'] = kind['format']
        if kind.get('cut'):
            env.damaged = True
            kw['read_image_layers'] = False
            blob = kind['cut'](blob)
            try:
                return S.load(Finite(blob), **kw)
            except Endless:
                env.concrete('loading ends', False)
                raise Refused
            except Exception:
                raise Refused
        if kind.get('buffer'):
            b = io.BytesIO(blob)
            try:
                return S.load(b, **kw)
            finally:
                env.concrete('position of the buffer', b.tell() == 0, str(b.tell()))
        p = env.path(kind['name'])
    else:
        p = env.path('foreign' + suffix)
    with open(p, 'wb') as f:
        f.write(blob)
    return S.load(p, **kw)


def step(env, name, lo=Fraction(1, 1000), hi=1000):
    return env.real(name, lo, hi)


def few(ny, nx):
    """positions with arbitrary values: all of them, or those around the borders and the multiples of 128 in large files"""
    n = ny * nx
    if n <= 64:
        return set(range(n))
    return {k for k in (0, 1, nx - 1, nx, n - nx - 1, n - nx, n - 2, n - 1, n // 2, 126, 127, 128, 254, 255, 256, 257, 258, 510, 511, 512, 513) if 0 <= k < n}


def ints(env, ny, nx, lo, hi, name='q'):
    f = few(ny, nx)
    w = min(hi - lo, 1000)
    return [[env.int_(f'{name}{i}_{j}', lo, hi) if i * nx + j in f else (lo + hi - w) // 2 + (i * 37 + j * 11) % w for j in range(nx)] for i in range(ny)]


def reals(env, ny, nx, lo=-1000, hi=1000, nan=()):
    f = few(ny, nx)
    fixed = lambda i, j: env.num(Fraction((i * 37 + j * 11) % 101 - 30, 8))
    return [[env.nan() if (i, j) in nan else env.real(f'z{i}_{j}', lo, hi) if i * nx + j in f else fixed(i, j) for j in range(nx)] for i in range(ny)]


def heights(env, r, want, eps, offset_free=False, scale=None):
    ny, nx = len(want), len(want[0])
    if not env.concrete('size', tuple(r.data.shape) == (ny, nx), f'{r.data.shape}'):
        return
    got = env.rows(r.data)
    g0, w0 = (got[0][0], want[0][0]) if offset_free else (0, 0)
    keep = few(ny, nx) if ny * nx > 3000 else None
    for i in range(ny):
        for j in range(nx):
            if keep is not None and i * nx + j not in keep and (i * nx + j) % 97:
                continue
            w = want[i][j]
            if env.isnan(w) is True:
                env.check(f'missing {i},{j}', env.isnan(got[i][j]))
                continue
            env.close(f'height {i},{j}', got[i][j] - g0 if offset_free else got[i][j], w - w0 if offset_free else w, eps, scale)


def steps(env, r, sx, sy, eps=E32):
    env.close('step_x', r.step_x, sx, eps, sx)
    env.close('step_y', r.step_y, sy, eps, sy)
    env.eq('width', r.width_um, r.step_x * (r.size.x - 1))
    env.eq('height', r.height_um, r.step_y * (r.size.y - 1))


def editable(env, r):
    r[0, 0] = 5
    env.eq('editable', env.rows(r.data)[0][0], 5)


def image(env, r, name, want):
    if getattr(env, 'damaged', False):
        return
    if not env.concrete(f'image layer {name}', name in r.image_layers, str(list(r.image_layers))):
        return
    d = r.image_layers[name].data
    env.concrete(f'size of image layer {name}', tuple(d.shape) == np.shape(want), str(d.shape))
    env.eqs(f'image layer {name}', d, np.asarray(want).ravel().tolist())


IMG = lambda ny, nx, k=1: np.array([[(i * 7 + j * 3 + k) % 200 + 1 for j in range(nx)] for i in range(ny)], dtype='uint8')
RGB = lambda ny, nx: np.stack([IMG(ny, nx, 1), IMG(ny, nx, 20), IMG(ny, nx, 50)], axis=-1)


def picture(ny, nx, kind):
    """an image that is gray, coloured, or gray but for one channel of one pixel"""
    if kind in (False, 'colour'):
        return RGB(ny, nx)
    img = np.stack([IMG(ny, nx)] * 3, axis=-1)
    if isinstance(kind, int) and kind is not True:
        img[ny - 1 if kind != 1 else 0, kind % nx, kind] ^= 1
    return img


def pictured(env, r, img, stacked=True):
    if getattr(env, 'damaged', False):
        return
    gray = bool(np.all(img == img[:, :, :1]))
    image(env, r, 'Grayscale' if gray else 'RGB', img[:, :, 0] if gray else img)
    env.concrete('one kind of image', ('RGB' in r.image_layers) != ('Grayscale' in r.image_layers), str(list(r.image_layers)))


class Blob:
    """a file assembled at stated offsets"""

    def __init__(self, env, size):
        self.env, self.b = env, bytearray(size)

    def put(self, off, fmt, *v):
        s = self.env.pack(fmt, *v)
        self.raw(off, s)

    def raw(self, off, s):
        if len(self.b) < off + len(s):
            self.b.extend(b'\0' * (off + len(s) - len(self.b)))
        self.b[off:off + len(s)] = s

    def done(self):
        return bytes(self.b)


# ---------------------------------------------------------------------------------------------- formats
def nms(env, ny, nx, kind):
    q = ints(env, ny, nx, 0, 65534)
    lo = env.real('zmin', -100, 100)
    rng = env.real('range', Fraction(1, 100), 100)
    sx, sy = step(env, 'sx'), step(env, 'sy')
    f = Blob(env, 3468)
    f.put(16, '<2d', lo, lo + rng)
    f.raw(1076, b'2022-02-09T13:25')
    f.put(1368, '<2I', nx, ny)
    f.put(1376, '<2d', sx * 1000, sy * 1000)
    f.raw(3468, env.bytes_of(flatten(q), '<u2') + IMG(ny, nx).tobytes())
    r = load(env, f.done(), '.nms', kind, read_image_layers=True)
    steps(env, r, sx, sy, S12)
    heights(env, r, [[x * rng / 65534 for x in row] for row in q], Fraction(1, 10 ** 8), offset_free=True, scale=rng)
    image(env, r, 'Grayscale', IMG(ny, nx))
    editable(env, r)


def xyz(env, ny, nx, kind, columns=False):
    z = reals(env, ny, nx)
    sx, sy = step(env, 'sx', Fraction(1, 100), 100), step(env, 'sy', Fraction(1, 100), 100)
    ox = env.real('ox', -1000, 1000)
    t = ''
    for i, j in [(i, j) for j in range(nx) for i in range(ny)] if columns else [(i, j) for i in range(ny) for j in range(nx)]:
        t += f'{env.text((ox + j * sx) / 10 ** 6)} {env.text(i * sy / 10 ** 6)} {env.text(z[i][j] / 10 ** 6)}\n'
    r = load(env, t.encode(), '.xyz', kind)
    heights(env, r, z, Fraction(1, 10 ** 8))
    if nx > 1:
        env.close('step_x', r.step_x, sx, Fraction(1, 10 ** 8), sx * 1000 if not env.symbolic else sx)
    if ny > 1:
        env.close('step_y', r.step_y, sy, Fraction(1, 10 ** 8), sy)
    editable(env, r)


def card(k, v):
    return f'{k:<8}= {v}'.ljust(80)[:80]


def fits_block(cards):
    t = ''.join(cards) + 'END'.ljust(80)
    t += ' ' * (-len(t) % 2880)
    return t.encode('ascii')


def pad(b):
    return b + b'\0' * (-len(b) % 2880)


def fits(env, ny, nx, bitpix, mask=False, unitx='m', unity='m', unitz='m', suffix='.fits', extra=0, kind='format', order=0, cards=0, scaled=False):
    d = {8: 'uint8', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}[bitpix]
    U = {'m': 10 ** 6, 'mm': 1000, 'um': 1, 'nm': Fraction(1, 1000)}
    if bitpix > 0:
        z = ints(env, ny, nx, *((0, 200) if bitpix == 8 else (-30000, 30000)))
    elif ny * nx > 20:
        f = env.real('fac', Fraction(1, 100), 100)
        z = [[f * ((i * 7 + j * 5) % 31) for j in range(nx)] for i in range(ny)]
    else:
        z = reals(env, ny, nx)
    sx, sy = step(env, 'sx'), step(env, 'sy')
    md, mh = env.real('md', Fraction(1, 1000), 1000), env.real('mh', Fraction(1, 1000), 1000)
    primary = [card('SIMPLE', 'T'), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', 'T'), 'COMMENT a = b / c'.ljust(80),
               card('DELTAX', env.text(sx) + ' / step'), card('DELTAY', env.text(sy)), card('UNITX', f"'{unitx:<8}'"), card('UNITY', f"'{unity:<8}' / unit"), card('UNITZ', f"'{unitz:<8}'"),
               f'HIERARCH UnitMultiplicatorDeltas = {env.text(md)}'.ljust(80), f'HIERARCH UnitMultiplicatorHeights = {env.text(mh)}'.ljust(80)]
    primary += [card(f'KEY{i}', i) for i in range(extra)]

    def ext(name, bp, data):
        c = [card('XTENSION', "'IMAGE   '"), card('BITPIX', bp), card('NAXIS', 2), card('NAXIS1', nx), card('NAXIS2', ny), card('PCOUNT', 0), card('GCOUNT', 1)]
        c += [card(f'KEY{k}', f"'a/b = {k}' / text") if k % 3 else f'HISTORY step {k}'.ljust(80) for k in range(cards)]
        c += ["CONTINUE  'no value here'".ljust(80), '        further remarks'.ljust(80), 'NOTE'.ljust(80)] if cards else []
        c += [card('EXTNAME', f"'{name:<8}' / layer")]
        if scaled and name == 'HEIGHTS':
            c += [card('BSCALE', env.text(bs)), card('BZERO', env.text(bz) + ' / offset')] + ([card('BLANK', -32768)] if bitpix > 8 else [])
        return fits_block(c) + pad(data)
    bs, bz = (env.real('bs', Fraction(1, 100), 100), env.real('bz', -1000, 1000)) if scaled else (1, 0)
    if scaled and bitpix > 8:
        z[0][nx - 1] = env.nan()
    m = np.ones((ny, nx), dtype='uint8')
    parts = [ext('HEIGHTS', bitpix, env.bytes_of([-32768 if bitpix > 0 and env.isnan(v) is True else v for v in flatten(z)], d))]
    if mask:
        m[0, nx - 1] = m[ny - 1, 0] = 0
        parts.append(ext('MASK', 8, m.tobytes()))
    parts.append(ext('INTENSITY', 8, IMG(ny, nx).tobytes()))
    if order:
        parts = parts[::-1]
    r = load(env, fits_block(primary) + b''.join(parts), suffix, kind, read_image_layers=True)
    want = [[env.nan() if not m[i, j] or env.isnan(z[i][j]) is True else (z[i][j] * bs + bz) * mh * U[unitz] for j in range(nx)] for i in range(ny)]
    steps(env, r, sx * md * U[unitx], sy * md * U[unity], Fraction(1, 10 ** 8))
    if scaled:
        heights(env, r, want, Fraction(1, 10 ** 6), scale=1000 * 100 * mh * U[unitz])
    else:
        heights(env, r, want, E32 if bitpix == -32 else Fraction(1, 10 ** 8))
    image(env, r, 'Intensity', IMG(ny, nx))
    editable(env, r)


def os3d(env, ny, nx, kind, img=False):
    from PIL import Image
    z = reals(env, ny, nx)
    z[0][nx - 1] = env.nan()
    # the format names every height below -3e38 a non-measured point, whatever its exact value
    gap = env.choice('mark of the point that was not measured', [-3.4028234663852886e38, -3.3e38, -3.1e38]) if ny * nx <= 6 else -3.4028234663852886e38
    raw = [[gap if env.isnan(x) is True else x for x in row] for row in z]
    sx, sy = step(env, 'sx'), step(env, 'sy')
    b = b'OmniSurf3D' + struct.pack('<iii', 1, 1, 6) + b'Sample' + struct.pack('<i', 19) + b'2020-05-17 10:11:12' + struct.pack('<ii', nx, ny)
    b += env.pack('<4d', sx, sy, 0.0, 0.0) + env.bytes_of(flatten(raw), '<f4')
    rgb = RGB(ny, nx)
    if img:
        t = io.BytesIO()
        Image.fromarray(rgb).save(t, 'png')
        b += b'\x01' + t.getvalue()
    else:
        b += b'\0'
    r = load(env, b, '.os3d', kind, read_image_layers=True)
    steps(env, r, sx, sy, S12)
    heights(env, r, z, E32)
    if img:
        image(env, r, 'RGBA', rgb)
    else:
        env.concrete('no image', not r.image_layers)
    editable(env, r)


def plu(env, ny, nx, kind, gray=True):
    z = reals(env, ny, nx)
    z[ny - 1][0] = env.nan()
    sx, sy = step(env, 'sx'), step(env, 'sy')
    f = Blob(env, 500)
    f.raw(0, b'Tue Mar  3 10:11:12 2020')
    f.put(388, '<3I', ny, nx, 1)
    f.put(404, '<2f', sx, sy)
    img = picture(ny, nx, gray)
    f.raw(500, env.bytes_of([1000001 if env.isnan(x) is True else x for x in flatten(z)], '<f4') + bytes(16) + img.tobytes())
    r = load(env, f.done(), '.plu', kind, read_image_layers=True)
    steps(env, r, sx, sy)
    heights(env, r, z, E32)
    pictured(env, r, img)
    editable(env, r)


def zipped(files, compression=zipfile.ZIP_DEFLATED):
    t = io.BytesIO()
    with zipfile.ZipFile(t, 'w', compression) as a:
        for n, c in files.items():
            a.writestr(n, c)
    return t.getvalue()


def plux(env, ny, nx, kind, layers=True, info=True, gray=False):
    z = reals(env, ny, nx)
    sx, sy = step(env, 'sx'), step(env, 'sy')
    xml = f'''<?xml version="1.0" encoding="UTF-8"?><xml><GENERAL><DATE>2020-05-17 10:11:12</DATE><IMAGE_SIZE_X>{nx}</IMAGE_SIZE_X><IMAGE_SIZE_Y>{ny}</IMAGE_SIZE_Y><FOV_X>{env.text(sx)}</FOV_X><FOV_Y>{env.text(sy)}</FOV_Y></GENERAL>''' + \
        ('<INFO><ITEM_0><NAME>Objective</NAME><VALUE>50x</VALUE></ITEM_0></INFO>' if info else '') + '</xml>'
    img = picture(ny, nx, gray)
    files = {'LAYER_0.raw': env.bytes_of(flatten(z), '<f4'), 'index.xml': xml}
    if layers:
        files['LAYER_0.stack.raw'] = img.tobytes()
    r = load(env, zipped(files), '.plux', kind, read_image_layers=True)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, z, E32)
    if layers:
        pictured(env, r, img)
    else:
        env.concrete('no image', not r.image_layers)
    editable(env, r)


def vk4_bytes(env, q, bits, sx, sy, dz):
    """steps and height unit in picometres"""
    ny, nx = len(q), len(q[0])
    f = Blob(env, 12)
    f.raw(0, b'VK4_')
    MC, CP = 84, 1000
    rgb, lrgb = RGB(ny, nx), RGB(ny, nx)[:, ::-1]
    CL = CP + 20 + 3 * ny * nx + 5
    LI = CL + 20 + 3 * ny * nx + 3
    laser = IMG(ny, nx).astype('<u2') * 11
    HE = LI + 28 + 768 + 2 * ny * nx + 7
    ST = HE + 28 + 768 + (bits // 8) * ny * nx + 2
    for off, v in ((12, MC), (16, CP), (20, CL), (24, LI), (36, HE), (76, ST)):
        f.put(off, '<I', v)
    f.put(MC, '<I', 300)
    for k, v in enumerate((2021, 3, 4, 5, 6, 7)):
        f.put(MC + 4 + 4 * k, '<I', v)
    # settings of the display and the instrument that have no influence on the heights
    other = env.choice('settings', [0, 3])
    for k in (*range(8, 18), 19, 20, *range(25, 38), *range(50, 59), *range(60, 77)):
        f.put(MC + 4 * k, '<I', other * (k % 5))
    f.put(MC + 72, '<I', 10)
    f.put(MC + 96, '<I', 500)
    pal = (0, 2 ** bits - 1) if not other else (9, 1)
    f.put(MC + 168, '<3I', sx, sy, dz)
    for off, im in ((CP, rgb), (CL, lrgb)):
        f.put(off, '<5I', nx, ny, 24, 0, 3 * nx * ny)
        f.raw(off + 20, im[:, :, ::-1].tobytes())
    f.put(LI, '<7I', nx, ny, 16, 0, 2 * nx * ny, 0, 65535)
    f.raw(LI + 28 + 768, laser.tobytes())
    f.put(HE, '<7I', nx, ny, bits, 0, (bits // 8) * nx * ny, *pal)
    f.raw(HE + 28 + 768, env.bytes_of(flatten(q), f'<u{bits // 8}'))
    f.raw(ST, struct.pack('<I', 5) + 'title'.encode('utf-16-le') + struct.pack('<I', 4) + 'lens'.encode('utf-16-le'))
    return f.done(), rgb, lrgb, laser


def vk4(env, ny, nx, bits, suffix, kind, layers=True, dz=None):
    q = ints(env, ny, nx, 0, 2 ** bits - 1)
    sx, sy, dz = env.int_('sx', 1000, 10 ** 7), env.int_('sy', 1000, 10 ** 7), dz if dz is not None else env.int_('dz', 1, 10 ** 5)
    b, rgb, lrgb, laser = vk4_bytes(env, q, bits, sx, sy, dz)
    if suffix != '.vk4':
        b = suffix[1:].upper().encode() + b'\0' * 7 + zipped({'Vk4File': b, 'other': b'abc'})
    r = load(env, b, suffix, kind, read_image_layers=layers)
    M = 10 ** 6
    steps(env, r, sx * Fraction(1, M) if env.symbolic else sx / M, sy * Fraction(1, M) if env.symbolic else sy / M, S12)
    heights(env, r, [[x * dz * Fraction(1, M) if env.symbolic else x * dz / M for x in row] for row in q], S12)
    if layers:
        image(env, r, 'RGB', rgb)
        image(env, r, 'Laser+RGB', lrgb)
        image(env, r, 'Laser', laser)
    editable(env, r)


def zmg(env, ny, nx, kind, comment):
    q = ints(env, ny, nx, -32768, 32767)
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 10 ** 5), 100)
    b = b'Zeta-Instruments'.ljust(85, b' ') + struct.pack('<II', nx, ny) + bytes(4) + env.pack('<3f', sx, sy, sz) + bytes(8) + struct.pack('<I', comment) + bytes(84) + b'x' * comment
    b += env.bytes_of(flatten(q), '<i2')
    r = load(env, b, '.zmg', kind)
    steps(env, r, sx, sy)
    heights(env, r, [[x * sz for x in row] for row in q], E32)
    editable(env, r)


def opd(env, ny, nx, dtype, kind, labels=('Wavelength', 'Mult', 'Aspect', 'Pixel_size'), before=0):
    item = {'<i2': 2, '<f4': 4, 'u1': 1}[dtype]
    nan = (1, 0) if dtype != 'u1' and ny > 1 else None
    if dtype == '<f4':
        z = reals(env, ny, nx)
    else:
        z = ints(env, ny, nx, *((-32767, 32766) if item == 2 else (0, 255)))
    if nan:
        z[nan[0]][nan[1]] = env.nan()
    bad = 32767 if item == 2 else 1e38
    sx, asp = step(env, 'sx'), env.real('aspect', Fraction(1, 4), 4)
    wl, mult = env.real('wl', 100, 1000), env.int_('mult', 1, 10000)
    # column after column, every column from the bottom to the top
    cols = [z[ny - 1 - k][c] for c in range(nx) for k in range(ny)]
    arr = struct.pack('<HHH', nx, ny, item) + env.bytes_of([bad if env.isnan(v) is True else v for v in cols], dtype)
    blocks = [('RAW_DATA', 3, arr)]
    img = IMG(ny, nx)
    blocks.append(('Image', 3, struct.pack('<HHH', nx, ny, 1) + img[::-1].T.copy().tobytes()))
    vals = {'Wavelength': (7, env.pack('<f', wl)), 'Mult': (6, env.pack('<h', mult)), 'Aspect': (7, env.pack('<f', asp)), 'Pixel_size': (7, env.pack('<f', sx / 1000))}
    for n in labels:
        blocks.append((n, *vals[n]))
    blocks += [('Title', 5, b'Test'.ljust(20, b'\0')), ('Date', 5, b'03/04/2020'.ljust(12, b'\0')), ('Time', 5, b'10:11:12'.ljust(12, b'\0')), ('Empty', 5, bytes(4))]
    for k in range(before):
        blocks.insert(0, blocks.pop())
    ent = lambda n, t, s: n.encode().ljust(16, b'\0') + struct.pack('<hlH', t, s, 0)
    b = b'\x01\x00' + ent('Directory', 1, 24 * (len(blocks) + 1)) + b''.join(ent(n, t, len(c)) for n, t, c in blocks) + b''.join(c for _, _, c in blocks)
    r = load(env, b, '.opd', kind, read_image_layers=True)
    k = (wl / 1000 if 'Wavelength' in labels else Fraction(1, 1000) if env.symbolic else 1e-3)
    if 'Mult' in labels:
        k = k / mult
    x = sx if 'Pixel_size' in labels else 1000
    steps(env, r, x, x * asp if 'Aspect' in labels else x)
    heights(env, r, [[v if env.isnan(v) is True else v * k for v in row] for row in z], E32)
    image(env, r, 'Grayscale', img)
    editable(env, r)


def dat(env, ny, nx, fmt, res, kind, intensity=0, bad=False):
    q = ints(env, ny, nx, -10 ** 8, 10 ** 8)
    q[0][nx - 1] = env.nan()
    sx = step(env, 'sx')
    w, sc, ob = env.real('wl', Fraction(1, 10), 2), env.real('sc', Fraction(1, 4), 1), env.real('ob', Fraction(1, 2), 2)
    f = Blob(env, 834 if fmt < 3 else 4096)
    f.raw(0, {1: b"\x88\x1b\x03\x6f", 2: b"\x88\x1b\x03\x70", 3: b"\x88\x1b\x03\x71"}[fmt])
    f.put(4, '>HI', fmt, 834 if fmt < 3 else 4096)
    if intensity:
        f.put(52, '>HHHhI', nx, ny, intensity, 255, 2 * nx * ny * intensity)
    f.put(68, '>HHI', nx, ny, 4 * nx * ny)
    f.put(164, '>ff', sc, w / 10 ** 6)
    f.put(176, '>f', ob)
    f.put(184, '>f', sx / 10 ** 6)
    f.put(218, '>h', res)
    o = len(f.b)
    img = [IMG(ny, nx, k).astype('>u2') for k in range(intensity)]
    if bad:     # points without intensity
        img[0][0, nx - 1] = 65535
    if intensity:
        s = np.stack(img, axis=-1).astype('>u2').tobytes()
        f.raw(o, s)
        o += len(s)
    limit = env.choice('mark of the points that were not measured', [2147483640, 2147483641, 2147483647]) if ny * nx <= 6 and any(env.isnan(v) is True for v in flatten(q)) else 2147483640
    f.raw(o, env.bytes_of([limit if env.isnan(v) is True else v for v in flatten(q)], '>i4'))
    r = load(env, f.done(), '.dat', kind, read_image_layers=bool(intensity) and kind != 'path')
    steps(env, r, sx, sx)
    R = {1: 4096, 2: 32768, 3: 131072}[res]
    heights(env, r, [[v if env.isnan(v) is True else v * sc * w * ob / R for v in row] for row in q], E32)
    if intensity and kind != 'path':
        if intensity == 1:
            image(env, r, 'Intensity', img[0])
        else:
            for k in range(intensity):
                image(env, r, f'Intensity_{k}', img[k])
    editable(env, r)


def x3p(env, ny, nx, dt, kind, record2=True, lf='\n'):
    d = {'F': '<f4', 'D': '<f8', 'I': '<u2', 'L': '<u4'}[dt]
    sx, sy = step(env, 'sx'), step(env, 'sy')
    inc = None
    if dt in 'IL':
        q = ints(env, ny, nx, 0, 30000)
        inc = env.real('inc', Fraction(1, 10 ** 4), 10)
        z = [[x * inc for x in row] for row in q]
        raw = flatten(q)
    else:
        z = reals(env, ny, nx, nan=((ny - 1, nx - 1),))
        raw = [x / 10 ** 6 for x in flatten(z)]
    cz = f'<Increment>{env.text(inc / 10 ** 6)}</Increment>' if inc is not None else ''
    xml = f'''<?xml version="1.0" encoding="UTF-8"?>
<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes><CX><AxisType>I</AxisType><DataType>D</DataType><Increment>{env.text(sx / 10 ** 6)}</Increment><Offset>0</Offset></CX><CY><AxisType>I</AxisType><DataType>D</DataType><Increment>{env.text(sy / 10 ** 6)}</Increment><Offset>0</Offset></CY><CZ><AxisType>A</AxisType><DataType>{dt}</DataType>{cz}</CZ></Axes></Record1>'''
    if record2:
        xml += '<Record2><Date>2020-05-17T10:11:12</Date><Instrument><Manufacturer>X</Manufacturer></Instrument><CalibrationDate>2020-05-17T10:11:12</CalibrationDate></Record2>'
    xml += f'<Record3><MatrixDimension><SizeX>{nx}</SizeX><SizeY>{ny}</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3><Record4><ChecksumFile>md5checksum.hex</ChecksumFile></Record4></p:ISO5436_2>'
    xml = xml.encode()
    b = zipped({'main.xml': xml, 'bindata/data.bin': env.bytes_of(raw, d), 'md5checksum.hex': hashlib.md5(xml).hexdigest() + ' *main.xml' + lf})
    r = load(env, b, '.x3p', kind)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, z, E32 if dt == 'F' else Fraction(1, 10 ** 8))
    editable(env, r)


class Gwy:
    def __init__(self, env):
        self.env = env

    def comp(self, name, t, v):
        e = self.env
        b = name.encode() + b'\0' + t.encode()
        if t == 'i':
            return b + struct.pack('<i', v)
        if t == 'd':
            return b + e.pack('<d', v)
        if t == 'b':
            return b + struct.pack('b', v)
        if t == 's':
            return b + v.encode() + b'\0'
        if t == 'o':
            return b + v
        if t == 'D':
            return b + struct.pack('<I', len(v)) + e.bytes_of(v, '<f8')
        if t == 'O':
            return b + struct.pack('<I', len(v)) + b''.join(v)
        if t == 'S':
            return b + struct.pack('<I', len(v)) + b''.join(x.encode() + b'\0' for x in v)
        raise KeyError(t)

    def obj(self, name, *comps):
        c = b''.join(comps)
        return name.encode() + b'\0' + struct.pack('<I', len(c)) + c

    def unit(self, u):
        return self.obj('GwySIUnit', self.comp('unitstr', 's', u))

    def field(self, z, xreal, yreal, uxy, uz):
        c = [self.comp('xres', 'i', len(z[0])), self.comp('yres', 'i', len(z)), self.comp('xreal', 'd', xreal), self.comp('yreal', 'd', yreal), self.comp('si_unit_xy', 'o', self.unit(uxy))]
        if uz is not None:
            c.append(self.comp('si_unit_z', 'o', self.unit(uz)))
        c.append(self.comp('data', 'D', flatten(z)))
        return self.obj('GwyDataField', *c)


def gwy(env, ny, nx, kind, uxy='m', uz='m', mask=False, key=0, others='', encoding='utf-8', title='Topography'):
    U = {'m': 10 ** 6, 'mm': 1000, 'um': 1, 'µm': 1, 'nm': Fraction(1, 1000)}
    f = (lambda u: Fraction(U[u])) if env.symbolic else (lambda u: float(U[u]))
    z = reals(env, ny, nx)
    sx, sy = step(env, 'sx'), step(env, 'sy')
    g = Gwy(env)
    fld = g.field([[x / f(uz) for x in row] for row in z], sx * nx / f(uxy), sy * ny / f(uxy), uxy, uz)
    comps = [g.comp('/filename', 's', 'abc')]
    img = [[float(v) for v in row] for row in IMG(ny, nx)]
    m = [[0.0] * nx for _ in range(ny)]
    decoy = g.field([[7.0] * nx] * ny, 1.0, 1.0, uxy, 'nm' if 'l' in others else 'm^2')
    if 'i' in others:       # a picture without unit of the heights, before the heights
        comps += [g.comp('/5/data', 'o', g.field(img, sx * nx / f(uxy), sy * ny / f(uxy), uxy, None)), g.comp('/5/data/title', 's', 'Intensity')]
    if 'u' in others:       # another quantity with a lower number
        comps += [g.comp('/1/data', 'o', decoy), g.comp('/1/data/title', 's', 'Height squared')]
    if 'n' in others:       # another length with a lower number, but not a height
        comps += [g.comp('/2/data', 'o', g.field([[7.0] * nx] * ny, 1.0, 1.0, uxy, 'm')), g.comp('/2/data/title', 's', 'Error')]
    if 'k' in others:       # another height with a higher number
        comps += [g.comp('/11/data', 'o', g.field([[7.0] * nx] * ny, 1.0, 1.0, uxy, 'm')), g.comp('/11/data/title', 's', 'Topography 2')]
    comps += [g.comp(f'/{key}/data', 'o', fld), g.comp(f'/{key}/data/title', 's', title), g.comp(f'/{key}/base/palette', 's', 'Gray'), g.comp(f'/{key}/data/visible', 'b', 1)]
    comps += [g.comp(f'/{key}/meta', 'o', g.obj('GwyContainer', g.comp('Operator', 's', 'Tom')))]
    if 'g' in others:       # graphs, volume data and other things that are no channels
        comps[:0] = [g.comp('/4/graph/lastid', 'i', 1), g.comp('/brick/0/title', 's', 'Volume height'), g.comp('/xyz/3/visible', 'b', 1)]
        comps += [g.comp('/brick/1/preview', 'o', decoy), g.comp('/surface/8/title', 's', 'Topo'), g.comp('/6/graph/graph/1/visible', 'b', 0)]
    for c, n, w, u in (('x', 0, 1, uxy), ('y', 1, 0, uxy), ('z', 0, 0, 'm^2')):      # pictures of another size or scale are no layers
        if c in others:
            comps += [g.comp('/13/data', 'o', g.field([[7.0] * (nx + w)] * (ny + n), 1.0, 1.0, u, None)), g.comp('/13/data/title', 's', 'Preview')]
    if 't' in others:       # a height without title
        comps += [g.comp('/12/data', 'o', g.field([[7.0] * nx] * ny, 1.0, 1.0, uxy, 'm'))]
    if mask:
        m[0][nx - 1] = m[ny - 1][0] = 1.0
        comps.append(g.comp(f'/{key}/mask', 'o', g.field(m, sx * nx, sy * ny, uxy, None)))
    comps += [g.comp('strings', 'S', ['a', 'bc']), g.comp('objects', 'O', [g.unit('m'), g.unit('nm')])]
    r = load(env, b'GWYP' + g.obj('GwyContainer', *comps), '.gwy', kind, read_image_layers=True)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, [[env.nan() if m[i][j] else z[i][j] for j in range(nx)] for i in range(ny)], Fraction(1, 10 ** 8))
    if 'i' in others:
        image(env, r, 'Intensity', img)
    if not getattr(env, 'damaged', False):
        env.concrete('only pictures are image layers', set(r.image_layers) == ({'Intensity'} if 'i' in others else set()), str(list(r.image_layers)))
    env.concrete('no layer of another size', getattr(env, 'damaged', False) or 'Preview' not in r.image_layers, str(list(r.image_layers)))
    editable(env, r)


def sdf_binary(env, ny, nx, dt, kind):
    d, lo, bad = {5: ('<i2', -2 ** 15 + 1, -2 ** 15), 6: ('<i4', -2 ** 31 + 1, -2 ** 31), 7: ('<f8', None, None)}[dt]
    z = ints(env, ny, nx, lo, -lo) if dt < 7 else reals(env, ny, nx)
    z[0][nx - 1] = env.nan()
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 10 ** 4), 10)
    b = b'bISO-1.0' + b'TestManuf ' + b'170520201011' + b'170520201011' + struct.pack('<HH', nx, ny) + env.pack('<3d', sx / 10 ** 6, sy / 10 ** 6, sz / 10 ** 6) + struct.pack('<dBBB', -1.0, 0, dt, 0)
    b += env.bytes_of([(bad if bad is not None else env.nan()) if env.isnan(v) is True else v for v in flatten(z)], d)
    r = load(env, b, '.sdf', kind)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, [[v if env.isnan(v) is True else v * sz for v in row] for row in z], Fraction(1, 10 ** 8))
    editable(env, r)


def sdf_ascii(env, ny, nx, kind, eol='\n', dt=7, trailer='', bad=True):
    z = reals(env, ny, nx)
    if bad:
        z[ny - 1][0] = env.nan()
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 10 ** 4), 10)
    L = ['aISO-1.0', 'ManufacID   = TestManuf', 'CreateDate  = 170520201011', 'ModDate     = 170520201011', f'NumPoints   = {nx}', f'NumProfiles = {ny}', f'Xscale      = {env.text(sx / 10 ** 6)}',
         f'Yscale      = {env.text(sy / 10 ** 6)}', f'Zscale      = {env.text(sz / 10 ** 6)}', 'Zresolution = -1', 'Compression = 0', f'DataType    = {dt}', 'CheckType   = 0', '*']
    for row in z:
        L.append('  '.join('BAD' if env.isnan(v) is True else env.text(v) for v in row))
    L += ['*', trailer, '*', '']
    r = load(env, eol.join(L).encode('ascii'), '.sdf', kind)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, [[v if env.isnan(v) is True else v * sz for v in row] for row in z], Fraction(1, 10 ** 8))
    if trailer:
        env.concrete('trailer', r.metadata.get('OperatorName') == 'Tom Jones', str(r.metadata))
    editable(env, r)


def al3d(env, ny, nx, kind, invalid, offset=1000, extra=()):
    z = reals(env, ny, nx)
    z[ny - 1][0] = env.nan()
    sx, sy = step(env, 'sx'), step(env, 'sy')
    tags = {'Cols': nx, 'Rows': ny, 'PixelSizeXMeter': env.text(sx / 10 ** 6), 'PixelSizeYMeter': env.text(sy / 10 ** 6), 'DepthImageOffset': offset, 'InvalidPixelValue': invalid, 'NumberOfPlanes': 0, 'IconOffset': 0, 'TextureImageOffset': 0}
    for e in extra:
        tags[e] = 'x'
    tag = lambda k, v: struct.pack('20s30s2s', k.encode(), str(v).encode(), b'\r\n')
    b = b'AliconaImaging\0\r\n' + tag('Version', 1) + tag('TagCount', len(tags)) + b''.join(tag(k, v) for k, v in tags.items())
    b = b.ljust(offset, b'\0') + env.bytes_of([env.nan() if env.isnan(v) is True and invalid == 'nan' else float(invalid) if env.isnan(v) is True else v / 10 ** 6 for v in flatten(z)], '<f4')
    r = load(env, b, '.al3d', kind)
    steps(env, r, sx, sy, Fraction(1, 10 ** 8))
    heights(env, r, z, E32)
    editable(env, r)


def tmd(env, ny, nx, kind):
    z = reals(env, ny, nx)
    sx, sy = step(env, 'sx'), step(env, 'sy')
    b = b'Binary TrueMap Data File v2.0\r\n\0' + b'abc'.ljust(24, b' ') + struct.pack('<II', nx, ny) + env.pack('<2f', sx * nx, sy * ny) + struct.pack('<2f', 0.0, 0.0) + env.bytes_of(flatten(z), '<f4')
    r = load(env, b, '.tmd', kind)
    steps(env, r, sx, sy)
    heights(env, r, z, E32)
    editable(env, r)


def sur_object(env, q, bits, sx, sy, sz, ux, uy, uz, missing, minp, maxp, typ, n=1, compressed=0, comment=b'', private=b'', codec='latin-1', ascii_=False, oz=0, who=(b'NAME', b'OP')):
    ny, nx = len(q), len(q[0])
    f = Blob(env, 512)
    raw = env.bytes_of(flatten(q), f'<i{bits // 8}') if not isinstance(q, np.ndarray) else q.astype(f'<i{bits // 8}').tobytes()
    body = raw
    size = 0
    if compressed:
        step_ = max(1, len(raw) // compressed)
        parts = [raw[i:i + step_] for i in range(0, len(raw), step_)]
        z = [zlib.compress(p) for p in parts]
        body = struct.pack('<I', len(parts)) + b''.join(struct.pack('<II', len(p), len(c)) for p, c in zip(parts, z)) + b''.join(z)
        size = len(body)
    f.raw(0, b'DSCOMPRESSED' if compressed else b'DIGITAL SURF')
    f.put(12, '<4h', 0, n, 1, typ)
    f.raw(20, who[0].ljust(30) + who[1].ljust(30))
    f.put(80, '<5h', 0, 0, 0, int(missing), 0)
    f.put(98, '<hii', bits, minp, maxp)
    f.put(108, '<iii', nx, ny, nx * ny)
    f.put(120, '<3f', sx, sy, sz)
    for k, s in enumerate(('X', 'Y', 'Z', ux, uy, uz, ux, uy, uz)):
        f.raw(132 + 16 * k, (s.encode(codec) if not ascii_ or 'µ' in s else s.encode('ascii')).ljust(16))
    f.put(276, '<3f', 1.0, 1.0, 1.0)
    f.put(306, '<7h', 1, 2, 3, 4, 5, 2020, 1)
    f.put(324, '<I', size)
    f.put(334, '<hh', len(comment), len(private))
    f.put(474, '<f', oz)
    return f.done() + comment + private + body


UNITS = {'m': 10 ** 6, 'meter': 10 ** 6, 'dm': 10 ** 5, 'decimeter': 10 ** 5, 'cm': 10 ** 4, 'centimeter': 10 ** 4, 'mm': 1000, 'millimeter': 1000, 'um': 1, 'µm': 1, 'μm': 1, '㎛': 1,
         'micrometer': 1, 'nm': Fraction(1, 1000), 'nanometer': Fraction(1, 1000), 'pm': Fraction(1, 10 ** 6), 'picometer': Fraction(1, 10 ** 6), 'UM': 1, 'Mm': 1000, 'NM': Fraction(1, 1000), 'Micrometer': 1, 'CM': 10 ** 4}
CODECS = ['utf_8', 'latin_1', 'cp1252', 'cp437', 'cp850', 'cp1251', 'mac_roman', 'iso8859_15', 'cp1253', 'cp037', 'shift_jis', 'iso8859_4', 'koi8_r']


def units(env, axis):
    """every spelling of a unit"""
    u = env.choice('unit', list(UNITS))
    f = (lambda n: Fraction(UNITS[n])) if env.symbolic else (lambda n: float(UNITS[n]))
    q = ints(env, 2, 3, -32000, 32000)
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 1000), 10)
    U = ['nm', 'mm', 'cm']
    U[axis] = u
    b = sur_object(env, q, 16, sx, sy, sz, *U, False, -32000, 32000, 2, codec='utf-8')
    r = load(env, b, '.sur', 'format', encoding='utf-8')
    steps(env, r, sx * f(U[0]), sy * f(U[1]))
    heights(env, r, [[v * sz * f(U[2]) for v in row] for row in q], E32)


def decodings(env):
    """the sign of the micrometre written in one code page and read in another"""
    a, b = env.choice('written', CODECS), env.choice('read', CODECS)
    try:
        raw = 'µ'.encode(a)
        s = raw.decode(b)
        if s.strip() != s or 'm'.encode(a) != b'm' or b'm'.decode(b) != 'm':
            return
    except UnicodeError:
        return
    q = ints(env, 1, 2, -32000, 32000)
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 1000), 10)
    f = sur_object(env, q, 16, sx, sy, sz, 'µm', 'mm', 'nm', False, -32000, 32000, 2, codec=a, ascii_=True)
    try:
        f.decode(b)
    except UnicodeError:
        pass
    r = load(env, f, '.sur', 'format', encoding=b)
    steps(env, r, sx, sy * 1000)
    heights(env, r, [[v * sz / 1000 for v in row] for row in q], E32)


def sur(env, ny, nx, bits, kind, ux='µm', uy='µm', uz='µm', missing=False, offset=False, compressed=0, typ=2, comment=b'', private=b'', encoding='auto', gray=False, who=(b'NAME', b'OP')):
    U = {'m': 10 ** 6, 'mm': 1000, 'um': 1, 'µm': 1, 'nm': Fraction(1, 1000)}
    f = (lambda u: Fraction(U[u])) if env.symbolic else (lambda u: float(U[u]))
    lo, hi = (-32000, 32000) if bits == 16 else (-2 * 10 ** 9, 2 * 10 ** 9)
    q = ints(env, ny, nx, lo, hi)
    if missing:
        q[0][nx - 1] = env.nan()
    sx, sy, sz = step(env, 'sx'), step(env, 'sy'), env.real('sz', Fraction(1, 1000), 10)
    raw = [[lo - 2 if env.isnan(v) is True else v for v in row] for row in q]
    oz = env.real('oz', -1000, 1000) if offset else 0
    b = sur_object(env, raw, bits, sx, sy, sz, ux, uy, uz, missing, lo, hi, typ, n=1, oz=oz, compressed=compressed, comment=comment, private=private, who=who)
    rgb = picture(ny, nx, gray).astype(int)
    if typ == 16:
        for k in range(3):
            b += sur_object(env, rgb[:, :, k], 16, 1.0, 1.0, 1.0, ux, uy, uz, False, 0, 255, 12)
        b += sur_object(env, IMG(ny, nx).astype(int), 16, 1.0, 1.0, 1.0, ux, uy, uz, False, 0, 255, 10)
    r = load(env, b, '.sur', kind, read_image_layers=True, encoding=encoding)
    steps(env, r, sx * f(ux), sy * f(uy))
    heights(env, r, [[v if env.isnan(v) is True else (v * sz + oz) * f(uz) for v in row] for row in q], E32, scale=(10 ** 6 * (1 if bits == 16 else 10 ** 5)) * f(uz) if offset else None)
    if typ == 16:
        pictured(env, r, rgb)
        image(env, r, 'Intensity', IMG(ny, nx))
    editable(env, r)


def sur_kinds(env):
    """studiables that are not one surface are refused"""
    S = env.pkg('surfalize').Surface
    q = ints(env, 2, 3, -30000, 30000)
    typ = env.concint('type', 1, 19)
    n = env.choice('objects', [1, 2])
    who = env.choice('who', [(b'NAME', b'OP'), (b'SCRATCH', b'OP'), (b'NAME', b'csm'), (b'SCRATCH', b'csm')])
    if n == 1 and (typ in (2, 16) or typ == 1 and who == (b'SCRATCH', b'csm')):
        return env.concrete('a surface', True)
    b = sur_object(env, q, 16, 1.0, 1.0, 1.0, 'µm', 'µm', 'µm', False, -5, 7, typ, n=n, who=who)
    env.raises('studiable of another kind', lambda: S.load(io.BytesIO(b), format='.sur'), Exception)
    env.raises('studiable of another kind by its contents', lambda: S.load(io.BytesIO(b)), Exception)


def fits_dimensions(env):
    """layers that are not two-dimensional are refused"""
    S = env.pkg('surfalize').Surface
    v = [env.int_(f'v{k}', -30000, 30000) for k in range(6)]
    primary = [card('SIMPLE', 'T'), card('BITPIX', 8), card('NAXIS', 0), card('DELTAX', 1), card('DELTAY', 1), card('UNITX', "'m       '"), card('UNITY', "'m       '"), card('UNITZ', "'m       '"),
               'HIERARCH UnitMultiplicatorDeltas = 1'.ljust(80), 'HIERARCH UnitMultiplicatorHeights = 1'.ljust(80)]
    axes = env.choice('axes', [(6,), (3, 2, 1), (3, 1, 2), (3, 2)])
    layer = [card('XTENSION', "'IMAGE   '"), card('BITPIX', 16), card('NAXIS', len(axes))] + [card(f'NAXIS{k + 1}', n) for k, n in enumerate(axes)] + [card('EXTNAME', "'HEIGHTS '")]
    b = fits_block(primary) + fits_block(layer) + pad(env.bytes_of(v, '>i2'))
    load_ = lambda: S.load(io.BytesIO(b), format='.fits')
    if len(axes) == 2:
        env.concrete('two dimensions are read', tuple(load_().size) == (2, 3))
    else:
        env.raises('not two dimensions', load_, Exception)


def cag(env, kinds=('VK4_', 'VK6\0')):
    """extraction of the measurements of a Keyence project"""
    import os
    d = env.path('cag')
    os.makedirs(d, exist_ok=True)
    names = ['a b.vk4', 'Probe 2.vk6']
    files = {}
    idx = '<Table>'
    blobs = []
    for k, n in enumerate(names):
        blob = kinds[k].encode() + bytes(range(40)) * (k + 1)
        blobs.append(blob)
        files[f'proj/{k + 11}/data'] = blob
        idx += f'\n<File><Path>{k + 11}</Path>\n<OriginalFileName>/x/y/{n}</OriginalFileName></File>'
    files['proj/index.xml'] = idx + '</Table>'
    files['proj/11/thumb.png'] = b'PNGxxxxxxx'
    p = os.path.join(d, 'x.cag')
    with open(p, 'wb') as f:
        f.write(zipped(files))
    t = os.path.join(d, 'target')
    env.pkg('surfalize.file.cag').extract_cag(p, t)
    env.concrete('extracted files', sorted(os.listdir(t)) == sorted(names), str(os.listdir(t)))
    for n, blob in zip(names, blobs):
        if os.path.exists(os.path.join(t, n)):
            env.concrete(f'contents of {n}', open(os.path.join(t, n), 'rb').read() == blob)


def harnesses(tier):
    hs = []
    T = tier == 'thorough'
    sizes = [(2, 3), (3, 2), (1, 4)] + ([(4, 5), (7, 3), (3, 1)] if T else [])

    def add(name, fn, shapes=sizes, bounds='', time=120 if T else 40, **kw):
        for k, (ny, nx) in enumerate(shapes):
            hs.append(H(f'{name} {ny}x{nx}', fn, ny=ny, nx=nx, time=time, bounds=f'{ny}x{nx} points, arbitrary heights and step sizes {bounds}', **kw))
    add('nms', nms, kind='format')
    add('nms path', nms, sizes[:1], kind='path')
    add('xyz', xyz, kind='format')
    add('xyz columns', xyz, sizes[:3], kind='format', columns=True)
    add('xyz path', xyz, sizes[:1], kind='path')
    for bp in (8, 16, 32, 64, -32, -64):
        add(f'fits BITPIX={bp}', fits, sizes[:2], bitpix=bp)
    add('fits mask', fits, bitpix=-64, mask=True)
    add('fits mask first', fits, sizes[:1], bitpix=-64, mask=True, order=1)
    add('fits units', fits, sizes[:1], bitpix=-64, unitx='mm', unity='um', unitz='nm')
    add('fits .fit path', fits, sizes[:1], bitpix=-32, suffix='.fit', kind='path')
    add('fits .fts path', fits, sizes[:1], bitpix=-32, suffix='.fts', kind='path')
    add('fits by contents', fits, sizes[:1], bitpix=-32, kind='magic')
    add('fits long header', fits, sizes[:1], bitpix=-32, extra=40)
    add('fits long layer header', fits, sizes[:1], bitpix=-32, cards=30, mask=True)
    add('fits longer layer header', fits, sizes[:1], bitpix=16, cards=70, order=1)
    for bp in (8, 16, -64):
        add(f'fits scaled BITPIX={bp}', fits, sizes[:1], bitpix=bp, scaled=True)
    add('fits full block', fits, [(24, 30)], bitpix=-32, mask=True)
    add('fits two blocks', fits, [(24, 31)], bitpix=-32, mask=True)
    add('os3d', os3d, kind='format')
    add('os3d image', os3d, sizes[:2], kind='magic', img=True)
    add('plu', plu, kind='format')
    add('plu colour', plu, sizes[:2], kind='path', gray=False)
    add('plux', plux, kind='format')
    for k in (True, 0, 1, 2):
        add(f'plux picture {k}', plux, sizes[:1], kind='format', gray=k)
        add(f'plu picture {k}', plu, sizes[:1], kind='format', gray=k)
        add(f'sur picture {k}', sur, sizes[:1], bits=16, kind='format', typ=16, gray=k)
    add('sur of gwyddion', sur, sizes[:1], bits=16, kind='format', typ=1, who=(b'SCRATCH', b'csm'))
    hs += [H('sur kinds', sur_kinds, time=60, max_paths=400, bounds='2x3, every kind of studiable'), H('fits dimensions', fits_dimensions, time=40, bounds='six values in one to three dimensions')]
    add('plux path', plux, sizes[:1], kind='path', info=False)
    add('plux no image', plux, sizes[:1], kind='format', layers=False)
    for bits in (16, 32):
        add(f'vk4 {bits} bit', vk4, bits=bits, suffix='.vk4', kind='format')
    add('vk4 by contents', vk4, sizes[:1], bits=32, suffix='.vk4', kind='magic', layers=False)
    for s in ('.vk6', '.vk7'):
        add(s[1:], vk4, sizes[:1], bits=32, suffix=s, kind='path')
        add(s[1:] + ' by contents', vk4, sizes[:1], bits=32, suffix=s, kind='magic')
    add('zmg', zmg, kind='format', comment=0)
    add('zmg comment', zmg, sizes[:1], kind='path', comment=7)
    add('zmg by contents', zmg, sizes[:1], kind='magic', comment=3)
    for d in ('<i2', '<f4', 'u1'):
        add(f'opd {d}', opd, dtype=d, kind='format')
    add('opd defaults', opd, sizes[:1], dtype='<f4', kind='magic', labels=())
    add('opd order', opd, sizes[:1], dtype='<i2', kind='path', before=4)
    for fmt, res in ((1, 1), (2, 2), (3, 3), (3, 1)):
        add(f'dat format {fmt} resolution {res}', dat, sizes[:2], fmt=fmt, res=res, kind='format')
    add('dat intensity', dat, sizes, fmt=1, res=1, kind='format', intensity=1)
    add('dat intensities', dat, sizes[:2], fmt=3, res=2, kind='magic', intensity=3)
    add('dat missing intensity', dat, sizes[:2], fmt=1, res=1, kind='format', intensity=1, bad=True)
    add('dat missing intensities', dat, sizes[:1], fmt=3, res=1, kind='format', intensity=2, bad=True)
    add('dat skipped intensities', dat, sizes[:1], fmt=2, res=2, kind='path', intensity=2)
    for dt in 'FDIL':
        add(f'x3p {dt}', x3p, sizes if dt == 'D' else sizes[:2], dt=dt, kind='format')
    add('x3p bare', x3p, sizes[:1], dt='D', kind='magic', record2=False, lf='')
    add('gwy', gwy, kind='format')
    add('gwy mask', gwy, kind='path', mask=True)
    for uxy, uz in (('um', 'nm'), ('µm', 'µm'), ('mm', 'um')):
        add(f'gwy {uxy} {uz}', gwy, sizes[:1], kind='magic', uxy=uxy, uz=uz, mask=True)
    add('gwy channels', gwy, sizes[:1], kind='format', key=10, others='iunk', mask=True)
    for t in ('Height', 'ZSensor HEIGHT', 'topo 1', 'Z Topography (Forward)'):
        add(f'gwy titled {t}', gwy, sizes[:1], kind='format', key=12, others='n', title=t)
    add('gwy image', gwy, sizes[:2], kind='format', key=7, others='i')
    for c in 'xyz':
        add(f'gwy other size {c}', gwy, sizes[:1], kind='format', key=0, others='i' + c)
    add('gwy graphs', gwy, sizes[:1], kind='format', key=2, others='g', mask=True)
    add('gwy graphs and images', gwy, sizes[:1], kind='magic', key=3, others='gik', mask=True)
    add('gwy without title', gwy, sizes[:1], kind='format', key=10, others='tk')
    add('gwy first', gwy, sizes[:1], kind='format', key=9, others='k', mask=True)
    for dt in (5, 6, 7):
        add(f'sdf binary {dt}', sdf_binary, sizes if dt == 5 else sizes[:2], dt=dt, kind='format')
    add('sdf binary by contents', sdf_binary, sizes[:1], dt=6, kind='magic')
    add('sdf ascii', sdf_ascii, kind='format')
    add('sdf ascii crlf', sdf_ascii, sizes[:1], kind='path', eol='\r\n')
    add('sdf ascii trailer', sdf_ascii, sizes[:1], kind='magic', trailer='< OperatorName > Tom Jones < / OperatorName >')
    add('al3d', al3d, kind='format', invalid='nan')
    add('al3d invalid value', al3d, sizes[:2], kind='path', invalid='1e10', extra=('Comment',))
    add('tmd', tmd, kind='format')
    for bits in (16, 32):
        add(f'sur {bits} bit', sur, sizes if bits == 16 else sizes[:2], bits=bits, kind='format')
        add(f'sur {bits} bit missing', sur, sizes[:2], bits=bits, kind='format', missing=True)
        add(f'sur {bits} bit compressed', sur, sizes[:2], bits=bits, kind='format', compressed=1, missing=True)
    add('sur compressed streams', sur, [(3, 4)], bits=32, kind='magic', compressed=3)
    add('sur units', sur, sizes[:1], bits=16, kind='path', ux='mm', uy='nm', uz='m')
    for u in ('mm', 'nm', 'µm'):
        add(f'sur offset {u}', sur, sizes[:1], bits=16, kind='format', uz=u, offset=True, missing=True)
    add('sur image', sur, sizes[:2], bits=16, kind='format', typ=16)
    add('sur comment', sur, sizes[:1], bits=16, kind='format', comment=b'comment', private=b'private zone')
    for k in range(3):
        hs.append(H(f'units {"xyz"[k]}', units, axis=k, time=60, bounds='sur file, 2x3, every unit and spelling'))
    hs.append(H('units in wrong encodings', decodings, time=60, max_paths=300, bounds='sur file, 1x2, 13 x 13 code pages'))
    seen = set()
    for h in list(hs):
        fn, kw = h.fn, {k: v for k, v in h.params.items() if k not in ('ny', 'nx')}
        if fn not in seen and 'nx' in h.params:
            seen.add(fn)
            if kw.get('bitpix') == 8:
                kw['bitpix'] = 16
            add('large ' + h.name.rsplit(' ', 1)[0], fn, [(3, 3), (2, 258), (258, 2)], **kw)
            if fn is not xyz:
                add('huge ' + h.name.rsplit(' ', 1)[0], fn, [(1, 33000)], time=200, **kw)
                if tier == 'thorough':
                    add('huge ' + h.name.rsplit(' ', 1)[0], fn, [(9000, 2), (140, 150)], time=200, **kw)
    hs.append(H('cag', cag, bounds='two measurements', time=30))
    return hs
